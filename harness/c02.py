"""C02 compose/decode identity, C03 wire layout, C04 decode/compose, C05 decoder totality (fixed layouts)"""
from . import layouts


def _value_ok(env, kind, got, value):
    if kind == "raw":
        return env.eq(got, value)
    if kind == "ip":
        return env.eq(got.packed, value)
    if kind == "dsk":
        return env.eq(bytes(_dsk_bytes(env, got)), value)
    return int(got) == value


def _dsk_bytes(env, dsk):
    """raw key of a dsk_t, by its only raw view: the wire"""
    stream = env.mod("pyzwave.types").BitStreamWriter()
    dsk.serialize(stream)
    return stream


def _names(fields):
    """attribute names that carry data"""
    return [(n, k, v) for n, k, v in fields if not (k[0] == "r" and k != "raw")]


def h_compose(env):
    """C03: compose puts every field where the protocol says"""
    hid = env.params["hid"]
    fields = layouts.symbolic_fields(env, hid, False, 3)
    cls = layouts.class_of(env, hid)
    msg = cls(**layouts.kwargs_for(env, fields))
    data = msg.compose()
    env.observe("data", data)
    expect = layouts.frame_bytes(hid, fields)
    env.check(len(data) == len(expect), "composed frame has the wrong length")
    for i in range(len(expect)):
        env.check(data[i] == expect[i], "composed frame differs from the protocol layout")
    env.check(type(data) is bytes or env.symbolic, "compose does not return bytes")
    env.reach("composed")


def h_decode(env):
    """C03: decode takes every field from where the protocol says, whatever the reserved bits are"""
    hid = env.params["hid"]
    Message = env.mod("pyzwave.message").Message
    fields = layouts.symbolic_fields(env, hid, True, 3)
    frame = layouts.to_frame(env, layouts.frame_bytes(hid, fields))
    msg = Message.decode(frame)
    env.check(type(msg) is layouts.class_of(env, hid), "frame decoded to the wrong message type")
    env.check(msg.hid() == hid, "decoded message has the wrong id")
    for name, kind, value in _names(fields):
        got = getattr(msg, name)
        env.check(got is not None, "a field that is on the wire is missing from the decoded message")
        env.check(_value_ok(env, kind, got, value), "decoded field differs from the protocol layout")
        if kind not in ("ip", "dsk"):
            env.observe(name, got)
    env.reach("decoded")


def h_identity(env):
    """C02: a message that was composed decodes to an equal message"""
    hid = env.params["hid"]
    Message = env.mod("pyzwave.message").Message
    fields = layouts.symbolic_fields(env, hid, False, 3)
    cls = layouts.class_of(env, hid)
    msg = cls(**layouts.kwargs_for(env, fields))
    data = msg.compose()
    back = Message.decode(data)
    env.check(type(back) is cls, "composed message decodes to another type")
    env.check(back == msg, "decoded message is not equal to the composed one")
    env.check(env.eq(back.compose(), data), "decoded message composes to another frame")
    for name, kind, value in _names(fields):
        env.check(_value_ok(env, kind, getattr(back, name), value), "field changed on its way over the wire")
    env.reach("identity")


def h_assigned(env):
    """C02: the same when the fields are assigned after construction"""
    hid = env.params["hid"]
    Message = env.mod("pyzwave.message").Message
    fields = layouts.symbolic_fields(env, hid, False, 2)
    cls = layouts.class_of(env, hid)
    msg = cls()
    for name, value in layouts.kwargs_for(env, fields).items():
        setattr(msg, name, value)
    data = msg.compose()
    back = Message.decode(data)
    env.check(back == msg, "decoded message is not equal to the composed one")
    for name, kind, value in _names(fields):
        env.check(_value_ok(env, kind, getattr(back, name), value), "field changed on its way over the wire")
    env.reach("identity")


def h_reproduce(env):
    """C04: a received frame composes back to itself, apart from reserved bits which may be cleared"""
    hid = env.params["hid"]
    Message = env.mod("pyzwave.message").Message
    fields = layouts.symbolic_fields(env, hid, True, 3)
    frame = layouts.to_frame(env, layouts.frame_bytes(hid, fields))
    mask = layouts.frame_bytes(hid, [
        (n, k, (0 if k[0] == "r" and k != "raw" else (1 << layouts.bit_size(k)) - 1))
        if k not in ("raw", "ip", "dsk") else (n, k, [255] * len(v)) for n, k, v in fields])
    mask[0] = mask[1] = 255
    msg = Message.decode(frame)
    data, exc = env.attempt(msg.compose)
    env.check(exc is None, "a received frame cannot be composed again")
    env.observe("data", data)
    env.check(len(data) == len(frame), "a received frame composes to another length")
    for i in range(len(frame)):
        env.check((data[i] & mask[i]) == (frame[i] & mask[i]), "a received frame composes to another frame")
        env.check((data[i] & ~mask[i] & 0xFF) & (255 - frame[i]) == 0, "reserved bits appear out of nowhere")
    again = Message.decode(data)
    env.check(again == msg, "a received message is not equal to its own recomposition")
    env.reach("reproduced")


def h_prefix(env):
    """C05: a frame cut short either raises EOFError or decodes to the fields that are complete"""
    hid = env.params["hid"]
    Message = env.mod("pyzwave.message").Message
    fields = layouts.symbolic_fields(env, hid, True, 2)
    whole = layouts.frame_bytes(hid, fields)
    cut = env.size("cut", 2, len(whole))
    msg, exc = env.attempt(Message.decode, layouts.to_frame(env, whole[:cut]))
    if exc is not None:
        env.check(isinstance(exc, EOFError), "a frame cut short raises something else than EOFError")
        env.reach("eof")
        return
    env.check(msg.hid() == hid, "a frame cut short decodes to another message")
    bit = 16
    for name, kind, value in fields:
        size = 8 * len(value) if kind in ("raw", "ip", "dsk") else layouts.bit_size(kind)
        bit += size
        if kind[0] == "r" and kind != "raw":
            continue
        if kind == "raw":
            got = getattr(msg, name)
            if got is not None and cut * 8 >= bit - size:
                env.check(env.eq(got, value[:cut - (bit - size) // 8]), "rest of a frame cut short is not its rest")
            continue
        if bit <= cut * 8:
            env.check(_value_ok(env, kind, getattr(msg, name), value),
                      "a complete field of a frame cut short is wrong")
        else:
            env.check(getattr(msg, name) is None, "a field beyond the end of the frame has a value")
    env.reach("partial")


CASES = []
for _hid, (_name, _spec) in sorted(layouts.LAYOUTS.items()):
    _p = dict(hid=_hid)
    _s = "%04x-%s" % (_hid, _name)
    CASES.append(dict(name="C03-compose-" + _s, prop="C03", fn="h_compose", params=_p, reach=["composed"], samples=2))
    CASES.append(dict(name="C03-decode-" + _s, prop="C03", fn="h_decode", params=_p, reach=["decoded"], samples=2))
    CASES.append(dict(name="C02-init-" + _s, prop="C02", fn="h_identity", params=_p, reach=["identity"], samples=2))
    if _spec:
        CASES.append(dict(name="C02-set-" + _s, prop="C02", fn="h_assigned", params=_p, reach=["identity"], samples=2))
    CASES.append(dict(name="C04-" + _s, prop="C04", fn="h_reproduce", params=_p, reach=["reproduced"], samples=2))
    CASES.append(dict(name="C05-cut-" + _s, prop="C05", fn="h_prefix", params=_p, reach=["partial"], samples=2))
