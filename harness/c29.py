"""C29: a device specific key is the same as bytes, as text, in a message and on the wire"""
from . import layouts

FIXED = [0x7E, 0x4D, 0x00, 0x00, 0xFF, 0xFF, 0x00, 0x09, 0x27, 0x0F, 0x27, 0x10, 0x03, 0xE8, 0x80, 0x00]


def _key(env, name="key"):
    """Any key"""
    return env.bytes(name, 16)


def _text(key):
    """Eight groups of five digits, by the definition of the printed key"""
    return "-".join("%05d" % (key[i] * 256 + key[i + 1]) for i in range(0, 16, 2))


def _dsk(env, value):
    dsk = env.mod("pyzwave.types").dsk_t()
    dsk.__setstate__(value)
    return dsk


def _written(env, value):
    stream = env.mod("pyzwave.types").BitStreamWriter()
    value.serialize(stream)
    return bytes(stream)


def _same(env, dsk, key):
    """This is the key, however it is looked at"""
    return env.and_(env.eq(_written(env, dsk), key), env.eq(dsk.__getstate__(), _text(key)), env.eq(repr(dsk), _text(key)),
                    dsk == _text(key))


def _forms(env, key):
    """The same key in the forms it may be given in"""
    form = env.choice("form", ["bytes", "text", "key"])
    env.reach(form)
    if form == "bytes":
        return key
    if form == "text":
        return _text(key)
    return _dsk(env, _text(key))


def h_forms(env):
    """A key given in any form, directly or to a message"""
    env.mod("pyzwave.application")
    key = _key(env)
    value = _forms(env, key)
    how = env.choice("how", ["state", "constructor", "message", "attribute", "dict"])
    if how == "state":
        dsk = _dsk(env, value)
    elif how == "constructor":
        dsk = env.mod("pyzwave.types").dsk_t(value)
    elif how == "dict":
        # as a value stored under a name
        store = env.mod("pyzwave.commandclass.CommandClass").VarDictAttribute(int, env.mod("pyzwave.types").dsk_t)()
        store[1] = value
        dsk = store[1]
        env.check(env.eq(store.__getstate__()[1], _text(key)), "the stored state is another key")
    else:
        Report = env.mod("pyzwave.commandclass.NetworkManagementInclusion").NodeAddDSKReport
        if how == "message":
            msg = Report(seqNo=1, inputDSKLength=0, dsk=value)
        else:
            msg = Report(seqNo=1, inputDSKLength=0)
            msg.dsk = value
        dsk = msg.dsk
        env.check(env.eq(msg.compose(), layouts.to_frame(env, [0x34, 0x13, 1, 0] + [key[i] for i in range(16)])),
                  "the message carries another key")
    env.check(_same(env, dsk, key), "the key given is not the key there is")
    again = _dsk(env, dsk.__getstate__())
    env.check(env.and_(again == dsk, _same(env, again, key)), "the key read from its text is another one")
    env.reach(how)


def h_compare(env):
    """Two keys are equal exactly if all their bytes are"""
    env.mod("pyzwave.application")
    key = layouts.to_frame(env, FIXED)
    i = env.params["at"]
    other = list(FIXED)
    other[i] = env.byte("byte")
    first, second = _dsk(env, key), _dsk(env, layouts.to_frame(env, other))
    env.check((first == second) == (other[i] == FIXED[i]), "equal keys differ, or different keys are equal")
    env.check((first == _text(other)) == (other[i] == FIXED[i]), "a key equals the text of another one")
    env.reach("end")


def h_wire(env):
    """Read from a message and written to one"""
    p = env.params
    env.mod("pyzwave.application")
    key = _key(env)
    raw = [key[i] for i in range(16)]
    seq = env.byte("seq")
    Message = env.mod("pyzwave.message").Message
    kind = env.choice("kind", p["kinds"])
    env.reach(kind)
    length = env.choice("length", [0, 16])
    data = raw[:length]
    reserved = env.bits("reserved", 3)
    more = env.bytes("more", 2)
    tail = []
    if kind == "report":
        low, high = env.bits("input", 4), env.bits("high", 4)
        length, data = 16, raw
        head, name = [0x34, 0x13, seq, high * 16 + low], "NetworkManagementInclusion.NodeAddDSKReport"
        clean, kw = [0x34, 0x13, seq, low], dict(seqNo=seq, inputDSKLength=low)
    elif kind == "iteration":
        left = env.byte("left")
        head, name = [0x78, 0x04, seq, left, reserved * 32 + length], "NodeProvisioning.ListIterationReport"
        clean, kw = None, {}
    elif kind == "set":
        head, name = [0x78, 0x01, seq, reserved * 32 + length], "NodeProvisioning.Set"
        clean, kw, tail = [0x78, 0x01, seq, length], dict(seqNo=seq, metaDataExtension=more), [more[0], more[1]]
    elif kind == "started":
        head, name = [0x34, 0x15, seq, reserved * 32 + length], "NetworkManagementInclusion.SmartStartJoinStartedReport"
        clean, kw = [0x34, 0x15, seq, length], dict(seqNo=seq)
    else:
        head, name = [0x34, 0x19, seq, reserved * 32 + length], "NetworkManagementInclusion.IncludedNIFReport"
        clean, kw = [0x34, 0x19, seq, length], dict(seqNo=seq)
    msg = Message.decode(layouts.to_frame(env, head + data + tail))
    cls = env.mod("pyzwave.commandclass." + name.split(".")[0])
    cls = getattr(cls, name.split(".")[1])
    env.check(isinstance(msg, cls), "another message")
    env.check(msg.seqNo == seq, "another sequence number")
    if length or tail:
        # a field after the end of the frame is not there
        if length:
            env.check(_same(env, msg.dsk, key), "the key read is another one")
        else:
            env.check(len(_written(env, msg.dsk)) == 0, "a key that is not there")
    else:
        env.check(msg.dsk is None or len(_written(env, msg.dsk)) == 0, "a key that is not there")
    if tail:
        env.check(env.eq(msg.metaDataExtension, more), "what follows the key is something else")
    if clean is not None:
        out = cls(dsk=layouts.to_frame(env, data), **kw).compose()
        env.check(env.eq(out, layouts.to_frame(env, clean + data + tail)), "the key is written otherwise")
    env.reach("with" if length else "without")


def h_length(env):
    """Lengths other than none or sixteen are refused, as are keys cut short"""
    env.mod("pyzwave.application")
    Message = env.mod("pyzwave.message").Message
    kind = env.choice("kind", [[0x78, 0x04, 1, 0], [0x78, 0x01, 1], [0x34, 0x15, 1], [0x34, 0x19, 1]])
    length = env.bits("length", 5)
    have = env.size("have", 0, env.params["have"])
    if kind[1] == 4:
        # what follows the key has a form of its own
        env.assume(have <= length)
    _msg, exc = env.attempt(Message.decode, layouts.to_frame(env, kind + [length] + [7] * have))
    if length == 0:
        env.check(exc is None, "no key, refused")
        env.reach("none")
    elif length == 16 and have >= 16:
        env.check(exc is None, "a key, refused")
        env.reach("key")
    elif have > 0:
        env.check(exc is not None, "something that is no key is accepted as one")
        env.reach("refused")


def h_given(env):
    """Bytes of any other length are no key"""
    env.mod("pyzwave.application")
    n = env.size("n", 0, env.params["bytes"])
    value = env.bytes("value", n)
    dsk, exc = env.attempt(_dsk, env, value)
    env.check((exc is None) == (n in (0, 16)), "a key of another length is accepted, or a good one refused")
    if exc is None:
        env.check(env.eq(_written(env, dsk), value), "another key")
    env.reach("refused" if exc is not None else "accepted")


CASES = [
    dict(name="dsk-forms", prop="C29", fn="h_forms", params={}, weight=2,
         reach=["bytes", "text", "key", "state", "constructor", "message", "attribute", "dict"],
         bounds="any key, in each of the forms it may be given in"),
    dict(name="dsk-wire", prop="C29", fn="h_wire", weight=2, params=dict(kinds=["report", "iteration", "set", "started", "included"]),
         reach=["report", "iteration", "set", "started", "included", "with", "without"], bounds="any key, or none, in 5 messages"),
    dict(name="dsk-length", prop="C29", fn="h_length", weight=2, params=dict(have=18), reach=["none", "key", "refused"],
         bounds="all lengths, up to 18 bytes there"),
    dict(name="dsk-given", prop="C29", fn="h_given", weight=1, params=dict(bytes=20), reach=["accepted", "refused"],
         bounds="up to 20 bytes"),
] + [
    dict(name="dsk-compare-%d" % i, prop="C29", fn="h_compare", params=dict(at=i), weight=1, reach=["end"],
         bounds="keys that differ in byte %d" % i) for i in range(16)
]
