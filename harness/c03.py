"""C02-C05 for the messages without a fixed layout, and decoder totality"""
from . import layouts

# (class id, command id) of every message the library decodes
VARIABLE = [0x2302, 0x3102, 0x3105, 0x3202, 0x3402, 0x3415, 0x3419, 0x5202, 0x520C, 0x5902, 0x5904, 0x5906, 0x6C01,
            0x7004, 0x7006, 0x7801, 0x7804, 0x8501, 0x8503, 0x8E01, 0x8E03]
KNOWN = sorted(list(layouts.LAYOUTS) + VARIABLE)


def h_config_set(env):
    """Configuration.Set: parameter, default/size byte, then the value in `size` bytes, most significant first"""
    Configuration = env.mod("pyzwave.commandclass.Configuration")
    size = env.choice("size", [1, 2, 4])
    number = env.byte("number")
    default = env.bits("default", 1)
    value = env.bits("value", 8 * size)
    msg = Configuration.Set(parameterNumber=number, default=default, size=size, value=value)
    data = msg.compose()
    expect = [0x70, 0x04, number, default * 128 + size] + [(value >> (8 * s)) & 255 for s in reversed(range(size))]
    env.check(len(data) == len(expect), "composed frame has the wrong length")
    for i, b in enumerate(expect):
        env.check(data[i] == b, "composed frame differs from the protocol layout")
    back = env.mod("pyzwave.message").Message.decode(data)
    env.check(back == msg, "decoded message is not equal to the composed one")
    env.check(env.and_(back.parameterNumber == number, back.value == value, int(back.size) == size,
                       int(back.default) == default), "field changed on its way over the wire")
    env.reach("set-%d" % size)


def h_config_report(env):
    Message = env.mod("pyzwave.message").Message
    size = env.choice("size", [1, 2, 4])
    number = env.byte("number")
    res = env.bits("res", 5)
    value = env.bits("value", 8 * size)
    frame = layouts.to_frame(env, [0x70, 0x06, number, res * 8 + size] +
                             [(value >> (8 * s)) & 255 for s in reversed(range(size))])
    msg = Message.decode(frame)
    env.check(msg.hid() == 0x7006, "frame decoded to the wrong message type")
    env.check(msg.parameterNumber == number, "decoded field differs from the protocol layout")
    env.check(int(msg.size) == size, "decoded field differs from the protocol layout")
    env.check(msg.value == value, "decoded field differs from the protocol layout")
    env.reach("report-%d" % size)


ZIP_FLAGS = ["ackRequest", "ackResponse", "nackResponse", "nackWaiting", "nackQueueFull", "nackOptionError"]
ZIP_FLAGS2 = ["headerExtIncluded", "zwCmdIncluded", "moreInformation", "secureOrigin"]


def _zip_fields(env):
    f = {n: env.bits(n, 1) for n in ZIP_FLAGS + ZIP_FLAGS2 if n != "headerExtIncluded"}
    f["headerExtIncluded"] = 0
    f["seqNo"] = env.byte("seqNo")
    f["sourceEP"] = env.bits("sourceEP", 7)
    f["destEP"] = env.bits("destEP", 7)
    return f


def _zip_frame(env, f, res):
    b0 = 0
    for n in ZIP_FLAGS:
        b0 = b0 * 2 + f[n]
    b1 = 0
    for n in ZIP_FLAGS2:
        b1 = b1 * 2 + f[n]
    return [0x23, 0x02, b0 * 4 + res[0], b1 * 16 + res[1], f["seqNo"], res[2] * 128 + f["sourceEP"],
            res[3] * 128 + f["destEP"]]


def _inner(env, kind):
    """(message, its bytes)"""
    if kind == "set":
        v = env.byte("value")
        return env.mod("pyzwave.commandclass.SwitchBinary").Set(value=v), [0x25, 0x01, v]
    if kind == "get":
        return env.mod("pyzwave.commandclass.Basic").Get(), [0x20, 0x02]
    if kind == "wakeup":
        v = env.byte("value")
        return env.mod("pyzwave.commandclass.Mailbox").WakeupNotification(queueHandle=v), [0x69, 0x05, v]
    if kind == "route":
        v = env.bytes("value", 3)
        return (env.mod("pyzwave.commandclass.NetworkManagementInclusion").ReturnRouteAssign(
            seqNo=v[0], sourceNodeID=v[1], destinationNodeID=v[2]), [0x34, 0x0D, v[0], v[1], v[2]])
    return None, []


def h_zip_compose(env):
    ZipPacket = env.mod("pyzwave.commandclass.Zip").ZipPacket
    Message = env.mod("pyzwave.message").Message
    f = _zip_fields(env)
    inner, raw = _inner(env, env.choice("inner", ["set", "get", "wakeup", "route", "none"]))
    msg = ZipPacket(command=inner, **f)
    data = msg.compose()
    expect = _zip_frame(env, f, (0, 0, 0, 0)) + raw
    env.check(len(data) == len(expect), "composed frame has the wrong length")
    for i, b in enumerate(expect):
        env.check(data[i] == b, "composed Z/IP packet differs from the protocol layout")
    env.reach("composed")
    if inner is None:
        return
    back = Message.decode(data)
    env.check(back == msg, "decoded Z/IP packet is not equal to the composed one")
    env.check(env.eq(back.compose(), data), "decoded Z/IP packet composes to another frame")


def h_zip_decode(env):
    Message = env.mod("pyzwave.message").Message
    f = _zip_fields(env)
    res = (env.bits("r0", 2), env.bits("r1", 4), env.bits("r2", 1), env.bits("r3", 1))
    inner, raw = _inner(env, env.choice("inner", ["set", "get", "wakeup", "route", "none"]))
    frame = layouts.to_frame(env, _zip_frame(env, f, res) + raw)
    msg = Message.decode(frame)
    env.check(msg.hid() == 0x2302, "frame decoded to the wrong message type")
    for n, v in f.items():
        env.check(int(getattr(msg, n)) == v, "decoded field differs from the protocol layout")
    if inner is None:
        env.check(env.not_(isinstance(msg.command, Message)), "a command appears in a packet without one")
    else:
        env.check(type(msg.command) is type(inner), "encapsulated command decoded to another type")
        env.check(msg.command == inner, "encapsulated command changed")
    env.reach("decoded")
    if inner is None:
        return      # a packet without a command has a field missing, it cannot be composed
    data = msg.compose()
    clean = layouts.to_frame(env, _zip_frame(env, f, (0, 0, 0, 0)) + raw)
    env.check(len(data) == len(clean), "a received frame composes to another length")
    env.check(env.eq(data, clean), "a received frame composes to another frame")


def h_zip_response(env):
    """an ack mirrors the packet it answers"""
    ZipPacket = env.mod("pyzwave.commandclass.Zip").ZipPacket
    f = _zip_fields(env)
    msg = ZipPacket(command=env.mod("pyzwave.commandclass.Basic").Get(), **f)
    success = env.bool("success")
    flags = {n: env.bool("o." + n) for n in ("nackWaiting", "nackQueueFull", "nackOptionError")}
    data = msg.response(success, **flags).compose()
    exp = dict(ackRequest=0, ackResponse=env.ite(success, 1, 0), nackResponse=env.ite(success, 0, 1),
               headerExtIncluded=0, zwCmdIncluded=0, moreInformation=0, secureOrigin=f["secureOrigin"],
               seqNo=f["seqNo"], sourceEP=f["destEP"], destEP=f["sourceEP"])
    for n, v in flags.items():
        exp[n] = env.ite(v, 1, 0)
    expect = _zip_frame(env, exp, (0, 0, 0, 0))
    env.check(len(data) == len(expect), "response has the wrong length")
    for i, b in enumerate(expect):
        env.check(data[i] == b, "response does not mirror the packet it answers")
    env.reach("response")


def h_supervision(env):
    Message = env.mod("pyzwave.message").Message
    Get = env.mod("pyzwave.commandclass.Supervision").Get
    status, res, session = env.bits("status", 1), env.bits("res", 1), env.bits("session", 6)
    inner, raw = _inner(env, env.choice("inner", ["set", "get", "wakeup", "route"]))
    extra = env.bytes("extra", env.size("nextra", 0, 1))
    head = [0x6C, 0x01]
    frame = layouts.to_frame(env, head + [status * 128 + res * 64 + session, len(raw)] + raw +
                             [extra[i] for i in range(len(extra))])
    msg = Message.decode(frame)
    env.check(int(msg.statusUpdates) == status, "decoded field differs from the protocol layout")
    env.check(int(msg.sessionID) == session, "decoded field differs from the protocol layout")
    env.check(type(msg.command) is type(inner), "encapsulated command decoded to another type")
    env.check(msg.command == inner, "encapsulated command changed")
    made = Get(statusUpdates=status, sessionID=session, command=inner)
    data = made.compose()
    clean = layouts.to_frame(env, head + [status * 128 + session, len(raw)] + raw)
    env.check(len(data) == len(clean), "composed frame has the wrong length")
    env.check(env.eq(data, clean), "composed frame differs from the protocol layout")
    env.check(Message.decode(data) == made, "decoded message is not equal to the composed one")
    env.reach("supervision")


def h_node_failing(env):
    """both the short form and the address form (handle in the last of 16 bytes) of NODE_FAILING"""
    Message = env.mod("pyzwave.message").Message
    n = env.choice("n", [1, 16])
    body = env.bytes("body", n)
    msg = Message.decode(b"\x69\x06" + body)
    env.check(msg.queueHandle == body[n - 1], "queue handle is not the last byte")
    env.reach("n%d" % n)


def h_unknown(env):
    """any command that is not known keeps its id, whatever follows"""
    message = env.mod("pyzwave.message")
    head = env.bytes("head", 2)
    hid = head[0] * 256 + head[1]
    for k in KNOWN:
        env.assume(hid != k)
    body = env.bytes("body", env.size("n", 0, env.params["n"]))
    msg, exc = env.attempt(message.Message.decode, head + body)
    env.check(exc is None, "decoding an unknown command raises")
    env.check(type(msg) is message.UnknownMessage, "an unknown command is decoded as something else")
    env.check(msg.hid() == hid, "an unknown command lost its id")
    env.check(msg.cmdClass() == head[0], "an unknown command lost its command class")
    env.reach("unknown")


def h_short(env):
    message = env.mod("pyzwave.message")
    n = env.size("n", 0, 1)
    msg, exc = env.attempt(message.Message.decode, env.bytes("data", n))
    env.check(exc is None, "decoding a frame without a command raises")
    env.check(type(msg) is message.UnknownMessage, "a frame without a command is decoded as something")
    env.check(msg.hid() == 0, "a frame without a command has an id")
    env.reach("short")


def h_total(env):
    """arbitrary bytes after a known command id: a message of that type, EOFError or ValueError, nothing else"""
    hid = env.params["hid"]
    Message = env.mod("pyzwave.message").Message
    n = env.size("n", 0, env.params["n"])
    data = bytes([hid >> 8, hid & 255]) + bytes(env.params.get("pad", 0)) + env.bytes("body", n)
    msg, exc = env.attempt(Message.decode, data)
    if exc is not None:
        env.observe("exc", exc)
        env.check(isinstance(exc, (EOFError, ValueError)), "decoding raises something else than EOFError or ValueError")
        env.reach("error")
        return
    env.check(msg.hid() == hid, "frame decoded to the wrong message type")
    env.check(msg.cmdClass() == hid >> 8, "decoded message has the wrong command class")
    env.reach("message")


def h_isolated(env):
    """decoding or making one message leaves no trace in the next one"""
    Message = env.mod("pyzwave.message").Message
    hid = env.params["hid"]
    first = layouts.symbolic_fields(env, hid, False, 2)
    msg = Message.decode(layouts.to_frame(env, layouts.frame_bytes(hid, first)))
    other = layouts.class_of(env, hid)()
    for name, kind, _v in first:
        if kind[0] == "r" and kind != "raw":
            continue
        got = getattr(other, name)
        env.check(env.or_(got is None, env.eq(got, b"")), "a fresh message carries a value of another message")
    bare = Message.decode(bytes([hid >> 8, hid & 255]))
    for name, kind, _v in first:
        if kind[0] == "r" and kind != "raw":
            continue
        got = getattr(bare, name)
        env.check(env.or_(got is None, env.eq(got, b"")), "a decoded message carries a value of another message")
    env.check(msg.hid() == hid, "message changed")
    env.reach("isolated")


CASES = [
    dict(name="C03-Configuration.Set", prop="C03", fn="h_config_set", params={}, reach=["set-1", "set-2", "set-4"]),
    dict(name="C02-Configuration.Set", prop="C02", fn="h_config_set", params={}, reach=["set-1", "set-2", "set-4"]),
    dict(name="C03-Configuration.Report", prop="C03", fn="h_config_report", params={},
         reach=["report-1", "report-2", "report-4"]),
    dict(name="C03-ZipPacket-compose", prop="C03", fn="h_zip_compose", params={}, reach=["composed"]),
    dict(name="C02-ZipPacket", prop="C02", fn="h_zip_compose", params={}, reach=["composed"]),
    dict(name="C03-ZipPacket-decode", prop="C03", fn="h_zip_decode", params={}, reach=["decoded"]),
    dict(name="C04-ZipPacket", prop="C04", fn="h_zip_decode", params={}, reach=["decoded"]),
    dict(name="C03-ZipPacket-response", prop="C03", fn="h_zip_response", params={}, reach=["response"]),
    dict(name="C03-Supervision.Get", prop="C03", fn="h_supervision", params={}, reach=["supervision"]),
    dict(name="C02-Supervision.Get", prop="C02", fn="h_supervision", params={}, reach=["supervision"]),
    dict(name="C03-NodeFailing", prop="C03", fn="h_node_failing", params={}, reach=["n1", "n16"]),
    dict(name="C05-unknown", prop="C05", fn="h_unknown", params=dict(n=3), reach=["unknown"]),
    dict(name="C05-short", prop="C05", fn="h_short", params={}, reach=["short"]),
]
# how many arbitrary bytes follow the command id
TOTAL = {0x2302: (7, 9), 0x3102: (1, 2), 0x3105: (5, 6), 0x3202: (6, 9), 0x3402: (6, 12), 0x5202: (4, 5),
         0x520C: (1, 2), 0x5902: (3, 5), 0x5904: (4, 6), 0x5906: (4, 6), 0x6C01: (3, 5), 0x7004: (3, 5),
         0x7804: (4, 6), 0x8501: (4, 6), 0x8503: (5, 7), 0x8E01: (4, 6), 0x8E03: (5, 7)}
for _hid in KNOWN:
    _q, _t = TOTAL.get(_hid, (4, 8))
    CASES.append(dict(name="C05-total-%04x" % _hid, prop="C05", fn="h_total", params=dict(hid=_hid, n=_q), samples=2,
                      tiers=("quick",)))
    CASES.append(dict(name="C05-total+-%04x" % _hid, prop="C05", fn="h_total", params=dict(hid=_hid, n=_t), samples=4,
                      tiers=("thorough",)))
for _hid in (0x2303, 0x3404, 0x5204, 0x6904, 0x5F0B, 0x8612):
    CASES.append(dict(name="C05-isolated-%04x" % _hid, prop="C05", fn="h_isolated", params=dict(hid=_hid), samples=2,
                      reach=["isolated"]))
