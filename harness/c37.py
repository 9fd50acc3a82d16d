"""C37: every message can be printed, with its fields and their values"""
from . import layouts
from .c17 import text_of
from .c03 import KNOWN, TOTAL


def _lines(env, text):
    env.check(isinstance(text, str), "not printed as text")
    head, _, rest = text.partition("\n")
    return head, rest


def _prints(env, msg):
    out = []
    for fn in (lambda: repr(msg), lambda: str(msg), lambda: "{}".format(msg), msg.debugString):
        text, exc = env.attempt(fn)
        env.check(exc is None, "printing a message fails")
        env.check(isinstance(text, str), "a message is not printed as text")
        out.append(text)
    env.check(env.eq(out[0], out[1]) and env.eq(out[0], out[2]), "printed in different ways")
    env.check(out[3].startswith(out[0]), "the text does not begin with the message")
    return out[3]


def h_any(env):
    """Whatever arrived: all fields that are there, each once, and in order"""
    hid = env.params["hid"]
    Message = env.mod("pyzwave.message").Message
    n = env.size("n", 0, env.params["n"])
    data = bytes([hid >> 8, hid & 255]) + env.bytes("body", n)
    msg, exc = env.attempt(Message.decode, data)
    if exc is not None:
        env.reach("error")
        return
    before = dict(msg._attributes)
    text = _prints(env, msg)
    env.check(sorted(before) == sorted(msg._attributes), "printing changes the message")
    names = []
    reserved = env.mod("pyzwave.types").ReservedBase
    unnamed = set(name for name, kind in msg.attributes if issubclass(kind, reserved))  # used more than once
    for name, _type in msg.attributes:
        if name in before and name not in names and name not in unnamed:
            names.append(name)
    for name in names:
        env.check(text.count("\n\t%s = " % name) == 1, "a field is not printed once")
    rest = text
    for name in names:
        _before, found, rest = rest.partition("\n\t%s = " % name)
        env.check(found != "", "the fields are not printed in order")
    for name, _type in type(msg).attributes:
        if name not in before:
            env.check(text.count("\n\t%s = " % name) == 0, "a field is printed that is not there")
            env.reach("partial")
    env.reach("message")


def _value_text(env, kind, attr, value):
    """-> (part of the text to compare, expected)"""
    types = env.mod("pyzwave.types")
    if kind == "f":
        return lambda t: t, "flag_t({})".format(value == 1)
    if kind == "ip":
        return None, None
    if kind == "dsk":
        return None, None
    if kind == "raw":
        return None, None
    size = layouts.bit_size(kind)
    if attr.__name__ == "enum_t":
        return (lambda t: t.rsplit("(", 1)[1]), None
    if issubclass(attr, types.BitsBase):
        return (lambda t: t), ("flag_t({})".format((value & 1) == 1) if issubclass(attr, types.flag_t)
                               else "bits_t({0:0{1}b})".format(value, size))
    if issubclass(attr, types.uint_t) and size % 8 == 0:
        return (lambda t: t), "0x{0:0{1}X} ({0})".format(value, size // 8)
    return None, None


def h_values(env):
    """Every number, flag and enumeration is printed with its value; the message is named"""
    hid = env.params["hid"]
    fields = layouts.symbolic_fields(env, hid, False, 2)
    cls = layouts.class_of(env, hid)
    if env.params["made"]:
        msg = cls(**layouts.kwargs_for(env, fields))
    else:
        msg = env.mod("pyzwave.message").Message.decode(layouts.to_frame(env, layouts.frame_bytes(hid, fields)))
    head, rest = _lines(env, _prints(env, msg))
    classes = env.mod("pyzwave.commandclass").cmdClasses
    env.check(head == "<Z-Wave {}.{}>:".format(classes.get(hid >> 8, "0x{:02X}".format(hid >> 8)), cls.NAME),
              "the message is printed with another name")
    attrs = dict(cls.attributes)
    for name, kind, value in fields:
        if kind[0] == "r" and kind != "raw":
            continue
        lines = [line for line in rest.split("\n") if line.startswith("\t%s = " % name)]
        if not lines and kind == "raw" and len(value) == 0:
            continue
        env.check(len(lines) == 1, "a field is not printed once")
        text = lines[0][len("\t%s = " % name):]
        if attrs[name].__name__ == "enum_t":
            number = text.rsplit("(", 1)[1]
            env.check(env.or_(env.eq(number, "0x{:X})".format(value)), env.eq(number, "{:b})".format(value))),
                      "an enumeration is printed with another number")
            env.reach("value")
            continue
        if kind == "ip":
            env.check(env.eq(text, "%s('%s')" % (attrs[name].__name__, text_of(env, value))),
                      "an address is printed otherwise")
            env.reach("value")
            continue
        part, want = _value_text(env, kind, attrs[name], value)
        if want is not None:
            env.check(env.eq(part(text), want), "a field is printed with another value")
            env.reach("value")
    env.reach("printed")


def h_unknown(env):
    """A command that is not known is printed by its numbers"""
    message = env.mod("pyzwave.message")
    command = env.byte("command")
    group = env.choice("class", [0xFE, 0x00, 0x25, 0x86])
    for k in KNOWN:
        if k >> 8 == group:
            env.assume(command != (k & 255))
    msg = message.Message.decode(layouts.to_frame(env, [group, command] + [0] * env.choice("n", [0, 2])))
    text = _prints(env, msg).split("\n")[0]
    name = {0x25: "SWITCH_BINARY", 0x86: "VERSION"}.get(group, "0x{:02X}".format(group))
    env.check(env.eq(text, "<Z-Wave {}.0x{:02X}>:".format(name, command)), "not printed by its numbers")
    env.reach("unknown")


def h_nested(env):
    """Messages inside of messages, and values with parts, are printed too"""
    kind = env.choice("kind", ["zip", "supervision", "unknown"])
    Message = env.mod("pyzwave.message").Message
    value, seq = env.byte("value"), env.byte("seq")
    inner = [0x25, 0x03, value] if kind != "unknown" else [0xFE, 0x01, value]
    if kind == "supervision":
        data = [0x6C, 0x01, env.bits("session", 6), len(inner)] + inner
    else:
        data = [0x23, 0x02, 0x80, 0x50, seq, 0, 0] + inner
    text = _prints(env, Message.decode(layouts.to_frame(env, data)))
    lines = text.split("\n")
    want = {"zip": "SWITCH_BINARY.REPORT", "supervision": "SWITCH_BINARY.REPORT", "unknown": "0xFE.0x01"}[kind]
    at = [i for i, line in enumerate(lines) if line.startswith("\tcommand = ")]
    env.check(len(at) == 1, "the command inside is not printed once")
    env.check(env.eq(lines[at[0]][len("\tcommand = "):], "<Z-Wave %s>:" % want), "another command is printed")
    if kind != "unknown":
        env.check(lines[at[0] + 1].startswith("\t\tvalue = "), "the field of the command inside is not printed below it")
        env.check(env.eq(lines[at[0] + 1][len("\t\tvalue = "):], "0x{0:01X} ({0})".format(value)),
                  "the field of the command inside is printed with another value")
    env.reach(kind)


CASES = [
    dict(name="print-unknown", prop="C37", fn="h_unknown", params={}, weight=1, reach=["unknown"],
         bounds="any command that is not known of 4 command classes"),
    dict(name="print-nested", prop="C37", fn="h_nested", params={}, weight=1, reach=["zip", "supervision", "unknown"],
         bounds="commands inside of Z/IP packets and supervision"),
]
for _hid in KNOWN:
    _q, _t = TOTAL.get(_hid, (4, 8))
    CASES.append(dict(name="print-%04x" % _hid, prop="C37", fn="h_any", params=dict(hid=_hid, n=_q), samples=2, tiers=("quick",),
                      bounds="up to %d bytes of any value" % _q))
    CASES.append(dict(name="print+-%04x" % _hid, prop="C37", fn="h_any", params=dict(hid=_hid, n=_t), samples=4, tiers=("thorough",)))
for _hid in layouts.LAYOUTS:
    for _made in (0, 1):
        CASES.append(dict(name="print-values-%04x-%d" % (_hid, _made), prop="C37", fn="h_values", params=dict(hid=_hid, made=_made),
                          samples=2, reach=["printed"], bounds="all values of all fields"))
