"""C28: Z/IP header extensions are read and skipped correctly"""
from . import zipnet, layouts

COMMAND = [0x20, 0x03]


def _head(env, length, flags=True):
    """The header of a packet with an extension and a command, everything else arbitrary"""
    b0 = env.byte("flags0")
    b1 = 0xC0 | env.bits("flags1", 6)
    head = dict(seq=env.byte("seq"), src=env.byte("src"), dst=env.byte("dst"))
    return [0x23, 0x02, b0, b1, head["seq"], head["src"], head["dst"], length], head


def _command_ok(env, pkt, head, value):
    env.check(env.eq(pkt.seqNo, head["seq"]), "wrong sequence number")
    env.check(env.and_(env.eq(int(pkt.sourceEP), head["src"] & 127), env.eq(int(pkt.destEP), head["dst"] & 127)), "wrong endpoint")
    env.check(pkt.command is not None and pkt.command.hid() == 0x2003, "the command after the header extension is another one")
    env.check(env.eq(pkt.command.value, value), "the command after the header extension is decoded from another offset")


def _signed(env, data):
    value = 0
    for b in data:
        value = value * 256 + b
    top = 1 << (8 * len(data))
    return env.ite(data[0] >= 128, value - top, value)


def _ime(env, name, kinds):
    """one value of a maintenance report -> (bytes, type number or None, check)"""
    kind = env.choice(name + ".ime", kinds)
    if kind == "unknown":
        number = env.byte(name + ".number")
        env.assume(number > 8)
        data = [env.byte(name + ".data%d" % i) for i in range(env.size(name + ".len", 0, 2))]
        return [number, len(data)] + data, None, None
    if kind in (0, 4, 5):
        v = env.byte(name + ".value")
        return [kind, 1, v], kind, lambda got: env.eq(got, v)
    if kind == 1:
        v = env.bits(name + ".value", 16)
        return [1, 2, v >> 8, v & 255], 1, lambda got: env.eq(got, v)
    if kind == 2:
        d = [env.byte(name + ".r%d" % i) for i in range(5)]
        return [2, 5] + d, 2, lambda got: env.and_(*[env.eq(getattr(got, a), d[i]) for i, a in enumerate(
            ["repeater1", "repeater2", "repeater3", "repeater4", "speed"])])
    d = [env.byte(name + ".data%d" % i) for i in range(env.size(name + ".len", 0, 3))]
    return [kind, len(d)] + d, kind, lambda got: env.and_(len(got) == len(d), *[got[i] == d[i] for i in range(len(d))])


def _option(env, name, p):
    """one option -> (bytes, type, check) ; type None when it is to be skipped, 'reject' when it must not be accepted"""
    kind = env.choice(name, p["kinds"])
    critical = env.bool(name + ".critical") * 128
    if kind == "delay":
        d = [env.byte(name + ".d%d" % i) for i in range(3)]
        return [critical + 1, 3] + d, 1, lambda got: env.eq(got, _signed(env, d))
    if kind == "report":
        body, want = [], {}
        for k in range(env.size(name + ".values", 0, p["values"])):
            raw, number, ok = _ime(env, "%s.%d" % (name, k), p["imes"])
            body += raw
            if number is not None:
                want[number] = ok

        def report(got):
            if sorted(int(n) for n in got) != sorted(want):
                return False
            return env.and_(*[want[int(n)](v) for n, v in got.items()])
        return [critical + 3, len(body)] + body, 3, report
    if kind == "encapsulation":
        cls, rest = env.byte(name + ".class"), env.byte(name + ".rest")
        return [critical + 4, 2, cls, rest], 4, lambda got: env.and_(
            int(got.security2SecurityClass) == cls, int(got.crc16) == rest % 2)
    if kind in ("get", "multicast"):
        data = [env.byte(name + ".data%d" % i) for i in range(env.size(name + ".len", 0, 2))]
        number = 2 if kind == "get" else 5
        return [critical + number, len(data)] + data, number, lambda got: True
    number = env.bits(name + ".number", 7)
    env.assume(env.or_(number == 0, number > 5))
    data = [env.byte(name + ".data%d" % i) for i in range(env.size(name + ".len", 0, p.get("skip", 3)))]
    raw = [critical + number, len(data)] + data
    return raw, ("reject" if critical != 0 else None), None


def h_options(env):
    """Any options one after the other; the last of a kind counts"""
    p = env.params
    Message = env.mod("pyzwave.message").Message
    body, want, reject = [], {}, False
    for k in range(env.size("options", 0, p["options"])):
        raw, number, ok = _option(env, "option%d" % k, p)
        body += raw
        if number == "reject":
            reject = True
        elif number is not None:
            want[number] = ok
    value = env.byte("value")
    head, fields = _head(env, 1 + len(body))
    pkt, exc = env.attempt(Message.decode, layouts.to_frame(env, head + body + COMMAND + [value]))
    if reject:
        env.check(exc is not None, "a packet with a critical option that is not known is accepted")
        env.reach("rejected")
        return
    env.check(exc is None, "a packet with a valid header extension is not accepted")
    _command_ok(env, pkt, fields, value)
    got = pkt.headerExtension
    env.check(sorted(int(n) for n in got) == sorted(want), "other options than in the header")
    for number, ok in want.items():
        env.check(ok(got[number]), "an option has another value")
    if 1 in want:
        env.check(env.eq(got.expectedDelay, got[1]), "another expected delay")
    else:
        env.check(env.eq(got.expectedDelay, 0), "an expected delay out of nowhere")
    env.reach("accepted")


def h_absent(env):
    """Without a header extension the command follows the header at once; every flag is independent"""
    Message = env.mod("pyzwave.message").Message
    value, b1 = env.byte("value"), env.byte("flags1")
    env.assume(b1 < 128)
    seq, src, dst = env.byte("seq"), env.byte("src"), env.byte("dst")
    frame = layouts.to_frame(env, [0x23, 0x02, env.byte("flags0"), b1, seq, src, dst] + COMMAND + [value])
    pkt = Message.decode(frame)
    _command_ok(env, pkt, dict(seq=seq, src=src, dst=dst), value)
    env.check(len(pkt.headerExtension) == 0, "options out of nowhere")
    env.check(env.eq(pkt.headerExtension.expectedDelay, 0), "an expected delay out of nowhere")
    env.reach("accepted")


def h_any(env):
    """Arbitrary bytes as header extension: the packet is rejected or the command is read from where the extension ends"""
    p = env.params
    Message = env.mod("pyzwave.message").Message
    body = [env.byte("b%d" % i) for i in range(env.size("bytes", 0, p["bytes"]))]
    length = env.choice("length", ["right", "zero", "long"])
    value = env.byte("value")
    head, fields = _head(env, {"right": 1 + len(body), "zero": 0, "long": 5 + len(body)}[length])
    if p["through"]:
        # the whole way: as answer to a command that is outstanding
        Basic = env.mod("pyzwave.commandclass.Basic")
        conn, transport = zipnet.connection(env)
        task = env.task(conn.send(Basic.Set(value=1)))
        env.settle()
        seq = zipnet.seq_of(zipnet.Sent(env, transport).all()[0][1])
        head[2], head[4] = 0x30, seq
        env.inside(transport.deliver, layouts.to_frame(env, head + body))
        env.settle()
        env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
        env.run_until(env.now() + 4000)
        kind, result = zipnet.outcome(task)
        env.check(kind in ("pending", "value"), "a send fails because of a header extension")
        env.reach("through")
        return
    pkt, exc = env.attempt(Message.decode, layouts.to_frame(env, head + body + COMMAND + [value]))
    if length != "right":
        env.check(exc is not None, "a header extension with an impossible length is accepted")
        env.reach("rejected")
        return
    if exc is not None:
        env.reach("rejected")
        return
    _command_ok(env, pkt, fields, value)
    delay = pkt.headerExtension.expectedDelay
    _ok, exc = env.attempt(lambda: delay < 0 or delay + 60)
    env.check(exc is None, "the expected delay is not a number")
    env.reach("accepted")


KINDS = ["delay", "report", "encapsulation", "get", "multicast", "unknown"]
IMES = [0, 1, 2, 3, 4, 5, 6, 7, 8, "unknown"]
CASES = [
    dict(name="extension-options", prop="C28", fn="h_options", weight=4, reach=["accepted", "rejected"],
         params=dict(options=2, kinds=KINDS, values=1, imes=[0, 2, 3, "unknown"], skip=2), bounds="up to 2 options of any kind"),
    dict(name="extension-report", prop="C28", fn="h_options", weight=4, reach=["accepted"],
         params=dict(options=1, kinds=["report"], values=2, imes=IMES), bounds="maintenance reports of up to 2 values of any kind"),
    dict(name="extension-unknown", prop="C28", fn="h_options", weight=3, reach=["accepted", "rejected"],
         params=dict(options=3, kinds=["delay", "unknown"], values=1, imes=[0], skip=2), bounds="up to 3 options, known or unknown"),
    dict(name="extension-absent", prop="C28", fn="h_absent", reach=["accepted"], params={}),
    dict(name="extension-any", prop="C28", fn="h_any", weight=4, reach=["accepted", "rejected"], params=dict(bytes=5, through=0),
         bounds="extensions of up to 5 arbitrary bytes"),
    dict(name="extension-through", prop="C28", fn="h_any", weight=4, reach=["through"], params=dict(bytes=5, through=1),
         bounds="queued acknowledgements with extensions of up to 5 arbitrary bytes"),
    dict(name="extension-options-3", prop="C28", fn="h_options", weight=6, tiers=["thorough"],
         params=dict(options=3, kinds=KINDS, values=1, imes=IMES, skip=1)),
    dict(name="extension-report-3", prop="C28", fn="h_options", weight=6, tiers=["thorough"],
         params=dict(options=1, kinds=["report"], values=3, imes=IMES)),
    dict(name="extension-any-8", prop="C28", fn="h_any", weight=6, tiers=["thorough"], params=dict(bytes=8, through=0)),
]
