"""C31: the entries of the provisioning list are read completely"""
from . import layouts

TYPES = [0x00, 0x01, 0x02, 0x03, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37]


def _decode(env, raw):
    env.mod("pyzwave.application")
    return env.attempt(env.mod("pyzwave.message").Message.decode, layouts.to_frame(env, raw))


def h_entries(env):
    """Metadata of any types, in any order"""
    p = env.params
    seq, left, length = env.byte("seq"), env.byte("left"), env.choice("key", [0, 16])
    key = env.bytes("dsk", length)
    raw = [0x78, 0x04, seq, left, env.bits("reserved", 3) * 32 + length] + [key[i] for i in range(length)]
    want, reject, skipped = [], False, False
    n = env.size("n", 0, p["entries"])
    for k in range(n):
        kind, critical = env.bits("type%d" % k, 7), env.bits("critical%d" % k, 1)
        data = env.bytes("data%d" % k, env.size("size%d" % k, 0, p["size"]))
        raw = raw + [kind * 2 + critical, len(data)] + [data[i] for i in range(len(data))]
        if env.member(kind, TYPES):
            # the last one of a type counts
            want = [(t, d) for t, d in want if not t == kind] + [(kind, data)]
        elif critical == 1:
            reject = True
        else:
            skipped = True
    msg, exc = _decode(env, raw)
    if reject:
        env.check(exc is not None, "critical information that is not known is ignored")
        env.reach("rejected")
        return
    env.check(exc is None, "a good report is rejected")
    env.check(env.and_(msg.seqNo == seq, msg.remainingCount == left), "another sequence number or count")
    if n == 0:
        env.reach("bare")
        return
    got = msg.metaDataExtension
    env.check(len(got) == len(want), "another number of entries")
    for kind, data in want:
        found = [v for t, v in got.items() if int(t) == kind]
        env.check(len(found) == 1 and env.eq(bytes(found[0]), data), "an entry has another value")
    env.reach("skipped" if skipped else "read")


def h_cut(env):
    """Entries that end too early"""
    p = env.params
    kind, critical, size = env.byte("type") >> 1, env.bits("critical", 1), env.byte("size")
    have = env.size("have", 0, p["have"])
    head = [0x78, 0x04, 1, 0, 0]
    whole = env.choice("length", [0, 1])
    raw = head + [kind * 2 + critical] + ([size] + [7] * have if whole else [])
    _msg, exc = _decode(env, raw)
    if not whole or size > have:
        env.check(exc is not None, "half an entry is accepted")
        env.reach("rejected")


CASES = [
    dict(name="provisioning-entries", prop="C31", fn="h_entries", params=dict(entries=2, size=2), weight=3,
         reach=["rejected", "bare", "skipped", "read"], bounds="up to 2 entries of any types with up to 2 bytes"),
    dict(name="provisioning-cut", prop="C31", fn="h_cut", params=dict(have=6), weight=1, reach=["rejected"],
         bounds="an entry of any length with up to 6 bytes there"),
    dict(name="provisioning-entries-3", prop="C31", fn="h_entries", params=dict(entries=3, size=3), weight=6, tiers=["thorough"]),
]
