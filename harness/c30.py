"""C30: attributes keep their type, and changes are announced once, and only changes"""
from . import layouts


def _makers(env):
    """type name -> (declared type, fn(name) -> value as given, its meaning, the same in other forms)"""
    types = env.mod("pyzwave.types")
    inclusion = env.mod("pyzwave.commandclass.NetworkManagementInclusion")

    def number(bits, cls=None):
        def make(name):
            v = env.bits(name, bits)
            return v, [lambda: v, lambda: cls(v) if cls else v, lambda: types.uint32_t(v), lambda: types.bits_t(bits)(v)]
        return make

    def member(name):
        # a member of the enumeration, or any number
        named = env.choice(name + ".named", [None] + list(inclusion.Keys))
        v = env.byte(name) if named is None else int(named)
        return v, [lambda: v, lambda: types.uint8_t(v)] if named is None else [lambda: named]

    def text(name):
        v = layouts.to_frame(env, [env.int(name + ".c", 32, 126), 0x41]).decode("utf-8")
        return v, [lambda: v, lambda: types.str_t(v)]

    def raw(name):
        v = env.bytes(name, env.size(name + ".n", 0, 2))
        return v, [lambda: v, lambda: types.bytes_t(v), lambda: types.bytes_t(v)]

    def key(name):
        v = env.bytes(name, env.choice(name + ".n", [0, 16]))
        full = lambda: "-".join("%05d" % (v[i] * 256 + v[i + 1]) for i in range(0, 16, 2)) if len(v) else b""
        return v, [lambda: v, full, lambda: types.dsk_t(v)]

    def items(name):
        v = [env.byte("%s.%d" % (name, i)) for i in range(env.size(name + ".n", 0, 2))]
        return v, [lambda: list(v), lambda: tuple(v), lambda: iter(v)]

    return {
        "int": (int, number(8, int)),
        "uint8": (types.uint8_t, number(8, types.uint8_t)), "uint16": (types.uint16_t, number(16, types.uint16_t)),
        "uint4": (types.uint4_t, number(4, types.uint4_t)), "flag": (types.flag_t, number(1, types.flag_t)),
        "bits4": (types.bits_t(4), number(4)), "home": (types.HomeID, number(32, types.HomeID)),
        "enum": (types.enum_t(inclusion.Keys, types.uint8_t), member),
        "str": (str, text), "str_t": (types.str_t, text), "bytes": (types.bytes_t, raw), "dsk": (types.dsk_t, key),
        "list": (list, items),
    }


def _is(env, kind, got, want):
    """The value means this"""
    if kind == "dsk":
        stream = env.mod("pyzwave.types").BitStreamWriter()
        got.serialize(stream)
        return env.eq(bytes(stream), want)
    if kind == "list":
        if len(got) != len(want):
            return False
        return env.and_(*[g == w for g, w in zip(got, want)]) if want else True
    return env.eq(got, want) if kind in ("bytes", "str", "str_t") else got == want


def _pick(env, name, forms, kind):
    if kind == "list":
        forms = forms[:2] if env.params.get("tuple") else forms[:1] + forms[2:]
    return env.choice(name, forms)()


def h_assign(env):
    """Any assignments of any values, in any form"""
    p = env.params
    env.mod("pyzwave.application")
    kind = p["type"]
    makers = _makers(env)
    declared, make = makers[kind]
    Mixin = env.mod("pyzwave.util").AttributesMixin
    calls = []

    class Holder(Mixin):
        attributes = (("first", makers["uint8"][0]), ("a", declared), ("z", declared))

        def attributeUpdated(self, name, newValue, oldValue):
            calls.append((name, newValue, oldValue))

    now = {}
    start = env.choice("start", ["empty", "given"])
    if start == "given":
        meaning, forms = make("v")
        holder = Holder(a=_pick(env, "form", forms, kind), first=7)
        now["a"], now["first"] = meaning, 7
    else:
        holder = Holder()
    env.check(not calls, "something is announced that nobody changed")
    for k in range(p["steps"]):
        name = env.choice("name%d" % k, p.get("names", ["a", "z"]))
        meaning, forms = make("v%d" % k)
        value = _pick(env, "form%d" % k, forms, kind)
        del calls[:]
        setattr(holder, name, value)
        same = name in now and (True if _is_same(env, kind, now[name], meaning) else False)
        if same:
            env.check(not calls, "an equal value is announced as a change")
            env.reach("same")
        else:
            env.check(len(calls) == 1, "a change is not announced exactly once")
            what, new, old = calls[0]
            env.check(what == name and _is(env, kind, new, meaning), "another change is announced")
            env.check(isinstance(new, declared), "the new value announced has another type")
            if name in now:
                env.check(_is(env, kind, old, now[name]), "another old value is announced")
                env.reach("changed")
            else:
                env.check(old is None, "an old value that never was")
                env.reach("first")
        now[name] = meaning
        for other in now:
            got = getattr(holder, other)
            env.check(_is(env, kind if other != "first" else "uint8", got, now[other]), "reading gives another value")
            env.check(isinstance(got, declared if other != "first" else makers["uint8"][0]), "the value has another type")
    del calls[:]
    holder.plain = 5
    env.check(holder.plain == 5 and not calls, "an attribute that is not declared is announced")
    if p.get("state", True):
        other = Holder()
        other.__setstate__(holder.__getstate__())
        env.check(not calls, "restoring announces changes")
        for name in now:
            got = getattr(other, name)
            env.check(_is(env, kind if name != "first" else "uint8", got, now[name]), "another value after restoring")
            env.check(isinstance(got, declared if name != "first" else makers["uint8"][0]), "another type after restoring")
    env.reach("end")


def _is_same(env, kind, a, b):
    if kind == "list":
        return len(a) == len(b) and (env.and_(*[x == y for x, y in zip(a, b)]) if a else True)
    return env.eq(a, b) if kind in ("bytes", "dsk", "str", "str_t") else a == b


def h_default(env):
    """Reading what has never been assigned gives the type's own empty value"""
    env.mod("pyzwave.application")
    types = env.mod("pyzwave.types")
    calls = []

    class Holder(env.mod("pyzwave.util").AttributesMixin):
        attributes = (("number", types.uint8_t), ("text", str), ("items", list), ("key", types.dsk_t), ("raw", types.bytes_t))

        def attributeUpdated(self, name, newValue, oldValue):
            calls.append((name, newValue, oldValue))

    one, two = Holder(), Holder()
    name = env.choice("name", ["number", "text", "items", "key", "raw"])
    value = getattr(one, name)
    env.check({"number": lambda: value == 0, "text": lambda: value == "", "items": lambda: value == [],
               "key": lambda: value == "", "raw": lambda: value == b""}[name](), "not the empty value of the type")
    env.check(not calls, "reading is announced")
    if name == "items":
        value.append(env.byte("item"))
        env.check(len(one.items) == 1 and len(two.items) == 0, "two objects share a value")
    if name == "number":
        v = env.byte("v")
        one.number = v
        env.check(len(calls) == (0 if v == 0 else 1), "an equal value is announced, or a change is not")
    env.check(getattr(one, "missing") is None, "something that is not declared has a value")
    env.reach(name)


def h_compare(env):
    """Bits and flags compare by value, with each other and with numbers"""
    types = env.mod("pyzwave.types")
    env.mod("pyzwave.application")
    left, right = env.params["left"], env.params["right"]

    def make(kind, name):
        if kind == "flag":
            v = env.bits(name, 1)
            return types.flag_t(v), v
        if kind == "bool":
            v = env.choice(name, [False, True])
            return v, int(v)
        if kind == "int":
            v = env.int(name, -1, 300)
            return v, v
        if kind == "uint8":
            v = env.byte(name)
            return types.uint8_t(v), v
        v = env.bits(name, int(kind))
        return types.bits_t(int(kind))(v), v

    a, x = make(left, "x")
    b, y = make(right, "y")
    same = x == y
    env.check((a == b) == same, "equal values differ, or different values are equal")
    env.check((b == a) == same, "equal values differ the other way round, or different values are equal")
    env.check((a != b) == env.not_(same), "equal values are said to differ, or different values not")
    env.check(int(a) == x, "the number is another one")
    if left == "flag":
        env.check(bool(a) == (x == 1), "a flag is true without being set, or the other way round")
    env.check(not (a == "1") and not (a == None), "a number equals something else")    # noqa: E711
    env.reach("end")


KINDS = ["int", "uint8", "uint16", "uint4", "flag", "bits4", "home", "enum", "str", "str_t", "bytes", "dsk", "list"]
CASES = [
    dict(name="attribute-" + kind, prop="C30", fn="h_assign", weight=2, reach=["first", "changed", "same", "end"],
         params=dict(type=kind, steps=2), bounds="%s: 2 assignments of any values in any form, from nothing or a value" % kind)
    for kind in KINDS
] + [
    dict(name="attribute-%s-4" % kind, prop="C30", fn="h_assign", weight=5, tiers=["thorough"],
         params=dict(type=kind, steps=3 if kind in ("dsk", "list", "bytes") else 4)) for kind in KINDS
] + [
    dict(name="attribute-default", prop="C30", fn="h_default", params={}, weight=1, reach=["number", "text", "items", "key", "raw"],
         bounds="attributes never assigned"),
] + [
    dict(name="bits-%s-%s" % (a, b), prop="C30", fn="h_compare", params=dict(left=a, right=b), weight=1, reach=["end"],
         bounds="all values of %s against %s" % (a, b))
    for a in ("flag", "4", "7") for b in ("flag", "bool", "int", "uint8", "2", "7")
]
