"""C25: sensor and meter values are exact"""
from . import nodes, layouts

SIZES = [1, 2, 4]


def _value(env, size):
    """A value on the wire: (bytes, signed number)"""
    data = [env.byte("value.%d" % i) for i in range(size)]
    raw = 0
    for b in data:
        raw = raw * 256 + b
    return data, env.ite(data[0] >= 128, raw - (1 << (8 * size)), raw)


def _decoded(env, got, raw, precision, scale):
    want = raw / float(10 ** precision)
    env.check(env.eq(float(got) if not env.symbolic else got, want), "another value than reported")
    env.check(env.eq(got.scale, scale), "another scale than reported")
    env.check(env.eq(got < 0, raw < 0), "another sign than reported")


def h_sensor(env):
    """Sensor reports of any precision, scale, size and value"""
    Message = env.mod("pyzwave.message").Message
    size, precision, scale = env.choice("size", SIZES), env.size("precision", 0, 7), env.bits("scale", 2)
    kind = env.byte("type")
    data, raw = _value(env, size)
    extra = [env.byte("extra")] if env.choice("trailing", [0, 1]) else []
    msg = Message.decode(layouts.to_frame(env, [0x31, 0x05, kind, precision * 32 + scale * 8 + size] + data + extra))
    env.check(env.eq(msg.sensorType, kind), "another sensor type than reported")
    _decoded(env, msg.sensorValue, raw, precision, scale)
    env.reach("end")


def h_meter(env):
    """Meter reports of any type, rate, precision, scale, size and value"""
    Message = env.mod("pyzwave.message").Message
    size, precision, scale = env.choice("size", SIZES), env.size("precision", 0, 7), env.bits("scale", 2)
    high, rate, kind = env.bits("scale2", 1), env.bits("rate", 2), env.bits("type", 5)
    data, raw = _value(env, size)
    delta = env.bits("delta", 16)
    tail = [delta >> 8, delta & 255] if env.choice("with delta", [0, 1]) else []
    msg = Message.decode(layouts.to_frame(
        env, [0x32, 0x02, high * 128 + rate * 32 + kind, precision * 32 + scale * 8 + size] + data + tail))
    env.check(env.and_(env.eq(int(msg.meterType), kind), env.eq(int(msg.rateType), rate)), "another meter than reported")
    _decoded(env, msg.meterValue, raw, precision, scale)
    if tail:
        env.check(env.eq(msg.deltaTime, delta), "another time than reported")
    env.check(env.eq(int(msg.scale), high * 4 + scale), "another scale than reported")
    env.reach("end")


def h_short(env):
    """A value that is cut short is not accepted"""
    Message = env.mod("pyzwave.message").Message
    size = env.choice("size", SIZES)
    head = [0x31, 0x05, env.byte("type")] if env.choice("sensor", [0, 1]) else [0x32, 0x02, env.byte("type")]
    data = [env.byte("value.%d" % i) for i in range(env.size("left", 0, size - 1))]
    _m, exc = env.attempt(Message.decode, layouts.to_frame(
        env, head + [env.bits("precision", 3) * 32 + env.bits("scale", 2) * 8 + size] + data))
    env.check(isinstance(exc, EOFError), "a value out of a report that is cut short")
    env.reach("end")


def h_types(env):
    """The supported sensor types are the bits set in the mask"""
    p = env.params
    Message = env.mod("pyzwave.message").Message
    count = env.size("bytes", 1, p["bytes"])
    mask = [env.choice("fill", p["fill"])] * count
    if count:
        mask[env.size("where", 0, count - 1)] = env.byte("byte")
    msg = Message.decode(layouts.to_frame(env, [0x31, 0x02] + mask))
    got = sorted(int(t) for t in msg.bitMask)
    want = [i + 1 for i in range(8 * count) if (mask[i // 8] >> (i % 8)) & 1 == 1]
    env.check(got == want, "other types than the bits in the mask")
    env.reach("end")


class Heard:
    def __init__(self):
        self.got = []

    def onReport(self, _speaker, message, _flags):
        self.got.append(message)


def h_filter(env):
    """A report is passed on exactly when its type and scale are supported"""
    p = env.params
    env.mod("pyzwave.application")
    node, stub = nodes.node(env, [0x31])
    version = env.choice("version", p["versions"])
    types = env.choice("types", p["types"])
    masks = {t: env.bits("mask%d" % t, 4) for t in types}
    mask = [0] * 5
    for t in types:
        mask[(t - 1) // 8] |= 1 << ((t - 1) % 8)
    stub.answers[(0x86, 0x13)] = lambda body: [[0x86, 0x14, body[2], version]]
    stub.answers[(0x31, 0x01)] = lambda body: [[0x31, 0x02] + mask]
    stub.answers[(0x31, 0x03)] = lambda body: [[0x31, 0x06, body[2], env.bits("high%d" % len(stub.sends), 4) * 16 + masks[int(body[2])]]]
    cc = node.supported[0x31]
    env.run(cc.interview())
    if version >= 5:
        env.check(sorted(int(t) for t in cc.supportedTypes) == sorted(types), "other types than reported")
        for t in types:
            env.check(env.eq(cc.supportedTypes[t], masks[t]), "other scales than reported")
    heard = Heard()
    cc.addListener(heard)
    for k in range(p["reports"]):
        kind, scale = env.byte("type%d" % k), env.bits("scale%d" % k, 2)
        value = env.byte("value%d" % k)
        heard.got.clear()
        env.run(node.handleMessage(nodes.message(env, [0x31, 0x05, kind, scale * 8 + 1, value]), {}))
        supported = version < 5 or any(env.and_(kind == t, (masks[t] >> scale) & 1 == 1) for t in types)
        env.check(len(heard.got) == (1 if supported else 0),
                  "a report that is supported is not passed on" if supported else "a report that is not supported is passed on")
        if supported:
            msg = heard.got[0]
            env.check(env.and_(env.eq(msg.sensorType, kind), env.eq(msg.sensorValue.scale, scale)), "another report is passed on")
            env.reach("passed on")
        else:
            env.reach("suppressed")


BOUND = "sizes 1, 2 and 4"
CASES = [
    dict(name="values-sensor", prop="C25", fn="h_sensor", weight=3, reach=["end"], params={}, bounds=BOUND),
    dict(name="values-meter", prop="C25", fn="h_meter", weight=3, reach=["end"], params={}, bounds=BOUND),
    dict(name="values-short", prop="C25", fn="h_short", weight=2, reach=["end"], params={}, bounds=BOUND),
    dict(name="values-types", prop="C25", fn="h_types", weight=3, reach=["end"], params=dict(bytes=5, fill=[0]),
         bounds="masks of up to 5 bytes, one of them arbitrary"),
    dict(name="values-filter", prop="C25", fn="h_filter", weight=3, reach=["passed on", "suppressed"],
         params=dict(versions=[1, 4, 5, 11], types=[[], [1], [5, 32], [2, 9]], reports=1), bounds="up to 2 supported types of any scales"),
    dict(name="values-types-filled", prop="C25", fn="h_types", weight=4, tiers=["thorough"], params=dict(bytes=6, fill=[0, 0x55, 0xFF])),
    dict(name="values-filter-2", prop="C25", fn="h_filter", weight=4, tiers=["thorough"],
         params=dict(versions=[4, 5], types=[[1, 2, 3], [31, 33, 40]], reports=2)),
]
