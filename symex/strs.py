"""Native strings that mention symbolic values.

A symbolic value that is formatted into a string becomes a placeholder: one
private-use character sequence naming an entry of a per-path table.  Strings
stay native ``str``; only operations that interpret their text (int(), ==, dict
lookup) look at the placeholders.
"""
import codecs
import re
import z3
from . import core
from .core import SymInt, Term, b_and, b_or, engine, t_cmp, value_of

START, END, BASE = "\ue000", "\ue001", 0xE010
TOKEN = re.compile(START + "([" + chr(BASE) + "-" + chr(BASE + 15) + "]+)" + END)


def _table():
    eng = engine()
    tab = getattr(eng, "tokens", None)
    if tab is None:
        tab = eng.tokens = []
    return tab


def _make(entry, key):
    tab = _table()
    idx = engine().token_index.get(key)
    if idx is None:
        idx = len(tab)
        tab.append(entry)
        engine().token_index[key] = idx
    digits = "".join(chr(BASE + int(c, 16)) for c in "%x" % idx)
    return START + digits + END


def _lookup(digits):
    return _table()[int("".join("%x" % (ord(c) - BASE) for c in digits), 16)]


def has_token(s):
    return START in s


def _normal(term, spec):
    """The usual way to write a format, where it means the same"""
    m = re.fullmatch(r"(0?)([1-9][0-9]*)d?", spec)
    if m is None:
        m = re.fullmatch(r"(0)=([1-9][0-9]*)d?", spec)
    if m is None and term.lo is not None and term.lo >= 0:
        m = re.fullmatch(r"(0)>0?([1-9][0-9]*)d?", spec) or re.fullmatch(r"()>([1-9][0-9]*)d?", spec) \
            or re.fullmatch(r">(0)([1-9][0-9]*)d?", spec)
    if m is not None:
        width = int(m.group(2))
        if width == 1:
            return ""
        return "%s%dd" % (m.group(1), width)
    if spec == "d":
        return ""
    m = re.fullmatch(r"0[>=]([1-9][0-9]*)([xX])", spec)
    if m is not None and term.lo is not None and term.lo >= 0:
        return "0" + m.group(1) + m.group(2)
    return spec


def pad(s, width):
    """s.zfill(width) as a new string, None if it is not one number"""
    entry = single(s)
    if entry is None or entry[0] != "int" or not isinstance(width, int) or width < 2:
        return None
    if entry[1].lo is None or entry[1].lo < 0:
        return None
    if entry[2] == "":
        return int_token(entry[1], "0%dd" % width)
    if entry[2] in ("x", "X"):
        return int_token(entry[1], "0%d%s" % (width, entry[2]))
    return None


def int_token(term, spec):
    spec = _normal(term, spec)
    return _make(("int", term, spec), ("int", term.e.get_id(), spec))


def float_token(parts):
    return _make(("float", parts), ("float", parts[0].e.get_id(), parts[1]))


def bool_token(term):
    return _make(("bool", term), ("bool", term.e.get_id()))


def bytes_token(items, kind):
    key = (kind,) + tuple(i.e.get_id() if isinstance(i, Term) else ("c", i) for i in items)
    return _make((kind, list(items)), key)


def parts(s):
    """[str | entry, ...]"""
    out, pos = [], 0
    for m in TOKEN.finditer(s):
        if m.start() > pos:
            out.append(s[pos:m.start()])
        out.append(_lookup(m.group(1)))
        pos = m.end()
    if pos < len(s):
        out.append(s[pos:])
    return out


def _terms(entry):
    kind = entry[0]
    if kind in ("int", "bool"):
        return [entry[1]]
    if kind == "float":
        return [entry[1][0]]
    return [i for i in entry[1] if isinstance(i, Term)]


def render(entry, val):
    """Text of an entry given a function Term -> int"""
    kind = entry[0]
    if kind == "int":
        return format(val(entry[1]), entry[2])
    if kind == "bool":
        return str(bool(val(entry[1])))
    if kind == "float":
        return repr(val(entry[1][0]) / entry[1][1])
    raw = bytes(val(i) if isinstance(i, Term) else i for i in entry[1])
    if kind == "repr":
        return repr(raw)
    return raw.decode(kind, "strict")


def render_str(s, val):
    if not has_token(s):
        return s
    return "".join(p if isinstance(p, str) else render(p, val) for p in parts(s))


def realize(s):
    """Concrete text on this path (forks over every value)"""
    if not has_token(s):
        return s
    return render_str(s, lambda t: engine().concretize(t.e, "text"))


def single(s):
    """The entry if the whole string is one placeholder"""
    m = TOKEN.fullmatch(s)
    return _lookup(m.group(1)) if m else None


INT_LITERAL = {
    10: re.compile(r"[+-]?[0-9]+"),
    16: re.compile(r"[+-]?(0[xX])?[0-9a-fA-F]+"),
    2: re.compile(r"[+-]?(0[bB])?[01]+"),
}


def _decimal_spec(spec):
    return re.fullmatch(r"0?[0-9]*d?", spec) is not None


def _hex_spec(spec):
    return re.fullmatch(r"0?[0-9]*[xX]", spec) is not None


def parse_int(s, base=10):
    if not has_token(s):
        return int(s, base)
    entry = single(s.strip())
    if entry is not None and entry[0] == "int":
        if base == 10 and _decimal_spec(entry[2]):
            return entry[1]
        if base == 16 and _hex_spec(entry[2]):
            return entry[1]
    items = parts(s)
    if any(isinstance(p, str) and re.search(r"[^0-9a-fA-FxXoObB_+\-\s]", p) for p in items):
        # text that no integer literal contains, whatever the placeholders are
        raise ValueError("invalid literal for int() with base %d" % base)
    return int(realize(s), base)


def parse_float(s):
    if not has_token(s):
        return float(s)
    entry = single(s.strip())
    if entry is not None:
        if entry[0] == "float":
            return entry[1]
        if entry[0] == "int" and _decimal_spec(entry[2]):
            return (entry[1], 1.0)
    return float(realize(s))


def eq(a, b):
    """bool or z3"""
    if a == b:
        return True
    if not has_token(a) and not has_token(b):
        return False
    pa, pb = parts(a), parts(b)
    res = _eq_parts(pa, pb)
    if res is not None:
        return res
    return realize(a) == realize(b)


_PLAIN_INT = re.compile(r"-?(0|[1-9][0-9]*)\Z")


def _eq_parts(pa, pb):
    # identical skeletons
    if len(pa) == len(pb):
        conds = []
        for x, y in zip(pa, pb):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    conds = None
                    break
                continue
            if not isinstance(x, str) and not isinstance(y, str) and x[0] == y[0]:
                c = _entry_eq(x, y)
                if c is None:
                    conds = None
                    break
                conds.append(c)
                continue
            conds = None
            break
        # literal separators must not be able to occur inside a placeholder
        if conds is not None:
            if len([p for p in pa if not isinstance(p, str)]) == 1:
                return b_and(conds)     # the text before and after it is the same
            if _alternate(pa) and (_separated(pa) or _aligned(pa)):
                return b_and(conds)
    # placeholder skeleton against concrete text
    for x, y in ((pa, pb), (pb, pa)):
        if all(isinstance(p, str) for p in y) and not all(isinstance(p, str) for p in x):
            text = "".join(y)
            ents = [p for p in x if not isinstance(p, str)]
            if all(_plain_digits(e) for e in ents) and _separated(x) and _alternate(x):
                m = re.fullmatch("".join(re.escape(p) if isinstance(p, str) else "( *[0-9]+)" for p in x), text)
                if not m or any(format(int(g), e[2]) != g for e, g in zip(ents, m.groups())):
                    return False
                return b_and([t_cmp("==", e[1], int(g)) for e, g in zip(ents, m.groups())])
            if not all(e[0] == "int" and e[2] == "" for e in ents):
                if len(x) == 1 and x[0][0] not in ("int", "float", "repr", "bool"):
                    try:
                        raw = text.encode(x[0][0])
                    except UnicodeError:
                        return False
                    items = x[0][1]
                    if len(raw) != len(items):
                        return False
                    return b_and([t_cmp("==", i, c) for i, c in zip(items, raw)])
                return None
            if not _separated(x) or not _alternate(x):
                return None
            rx = "".join(re.escape(p) if isinstance(p, str) else r"(-?(?:0|[1-9][0-9]*))" for p in x)
            m = re.fullmatch(rx, text)
            if not m:
                return False
            return b_and([t_cmp("==", e[1], int(g)) for e, g in zip(ents, m.groups())])
    return None


def _separated(ps):
    """the text next to placeholders cannot be part of what a placeholder stands for"""
    digits = all(isinstance(p, str) or _plain_digits(p) for p in ps) and any(
        not isinstance(p, str) and p[2] for p in ps)
    for i, p in enumerate(ps):
        if isinstance(p, str):
            edge = (p[:1] if i else "") + (p[-1:] if i + 1 < len(ps) else "")
            if re.search(r"[ 0-9A-Za-z+.]" if digits else r"[0-9A-Za-z+\-.]", edge):
                return False
    return True


def _aligned(ps):
    """numbers whose separators all begin, or all end, with a character no number contains: read from
    the left, or from the right, the text can be taken apart in one way only"""
    if not all(isinstance(p, str) or p[0] in ("int", "float", "bool") for p in ps):
        return False
    inner = [p for i, p in enumerate(ps) if isinstance(p, str) and 0 < i < len(ps) - 1]
    return any(all(not re.match(r"[ 0-9A-Za-z+\-.,_]", p[k]) for p in inner) for k in (0, -1))


def _plain_digits(entry):
    """an integer that is never negative, in decimal, possibly padded"""
    return (entry[0] == "int" and re.fullmatch(r"[0-9]*d?", entry[2]) is not None
            and entry[1].lo is not None and entry[1].lo >= 0)


def cannot_contain(entry, sep):
    """no character of sep is ever part of the text"""
    if _plain_digits(entry):
        return not any(c.isdigit() or c == " " for c in sep)
    return entry[0] in ("int", "float", "bool") and not any(c.isalnum() or c in "+-. " for c in sep)


def _never(entry, char):
    """the character is never part of the text"""
    if entry[0] == "repr":
        return char in "\n\t\r"
    if entry[0] == "ipv6":
        return char not in "0123456789abcdef:."
    return cannot_contain(entry, char)


def outside(s, sep):
    """occurrences of sep are in the literal parts only"""
    if not sep:
        return False
    ps = parts(s)
    for i, p in enumerate(ps):
        if not isinstance(p, str):
            if not _never(p, sep[0]):
                return False
        elif i + 1 < len(ps) and any(p.endswith(sep[:k]) for k in range(1, len(sep))):
            return False
    return True


def begins(s, prefix):
    """whether s starts with prefix; None if that depends on what is in there"""
    ps, qs = parts(s), parts(prefix)
    while ps and qs:
        x, y = ps[0], qs[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            ps[0:1] = [x[n:]] if x[n:] else []
            qs[0:1] = [y[n:]] if y[n:] else []
        elif x is y and len(qs) == 1 and len(ps) == 1:
            return True
        elif not isinstance(x, str) and isinstance(y, str) and _never(x, y[0]):
            if x[0] in ("int", "float", "bool", "repr", "ipv6"):
                return False        # never empty
            return None
        else:
            return None
    return True if not qs else None


def _width(spec):
    m = re.fullmatch(r"0?([0-9]*)d?", spec)
    return int(m.group(1) or 0) if m else None


def _padding(spec):
    """What a decimal format pads with, and to which width"""
    return ("0" if spec.startswith("0") else " ", _width(spec))


def _alternate(ps):
    return all(isinstance(x, str) or isinstance(y, str) for x, y in zip(ps, ps[1:]))


def _entry_eq(x, y):
    if x[0] == "int":
        if x[2] == y[2] and re.fullmatch(r"|0?[0-9]*[dxXb]?", x[2]):
            return t_cmp("==", x[1], y[1])
        wx, wy = _width(x[2]), _width(y[2])
        if wx is not None and wy is not None and _padding(x[2]) == _padding(y[2]):
            return t_cmp("==", x[1], y[1])
        if wx is not None and wy is not None and all(e[1].lo is not None and e[1].lo >= 0 for e in (x, y)):
            # padded otherwise: the same only if neither is padded
            return b_and([t_cmp("==", x[1], y[1]), t_cmp("<=", 10 ** (max(wx, wy, 1) - 1) if max(wx, wy) > 1 else 0, x[1])])
        return None
    if x[0] == "bool":
        return t_cmp("==", x[1], y[1])
    if x[0] == "float":
        if x[1][1] == y[1][1]:
            return t_cmp("==", x[1][0], y[1][0])
        return None
    if len(x[1]) != len(y[1]):
        return None
    return b_and([t_cmp("==", i, j) for i, j in zip(x[1], y[1])])


# ----------------------------------------------------------------- encodings
def _utf8_valid(items):
    """z3 condition: the items are valid UTF-8 (RFC 3629)"""
    n = len(items)
    memo = {n: True}

    def rng(i, lo, hi):
        return b_and([t_cmp("<=", lo, items[i]), t_cmp("<=", items[i], hi)])

    for i in range(n - 1, -1, -1):
        alts = [b_and([rng(i, 0, 0x7F), memo[i + 1]])]
        if i + 1 < n:
            alts.append(b_and([rng(i, 0xC2, 0xDF), rng(i + 1, 0x80, 0xBF), memo[i + 2]]))
        if i + 2 < n:
            tail = [rng(i + 2, 0x80, 0xBF), memo[i + 3]]
            alts.append(b_and([t_cmp("==", items[i], 0xE0), rng(i + 1, 0xA0, 0xBF)] + tail))
            alts.append(b_and([b_or([rng(i, 0xE1, 0xEC), rng(i, 0xEE, 0xEF)]), rng(i + 1, 0x80, 0xBF)] + tail))
            alts.append(b_and([t_cmp("==", items[i], 0xED), rng(i + 1, 0x80, 0x9F)] + tail))
        if i + 3 < n:
            tail = [rng(i + 2, 0x80, 0xBF), rng(i + 3, 0x80, 0xBF), memo[i + 4]]
            alts.append(b_and([t_cmp("==", items[i], 0xF0), rng(i + 1, 0x90, 0xBF)] + tail))
            alts.append(b_and([rng(i, 0xF1, 0xF3), rng(i + 1, 0x80, 0xBF)] + tail))
            alts.append(b_and([t_cmp("==", items[i], 0xF4), rng(i + 1, 0x80, 0x8F)] + tail))
        memo[i] = b_or(alts)
    return memo[0]


def decode(items, encoding="utf-8", errors="strict"):
    if all(not isinstance(i, Term) for i in items):
        return bytes(items).decode(encoding, errors)
    name = codecs.lookup(encoding).name
    if errors == "strict" and name == "utf-8":
        if not core.decide(_utf8_valid(items)):
            raise UnicodeDecodeError("utf-8", b"", 0, 1, "invalid data")
        return bytes_token(items, "utf-8")
    if name in ("iso8859-1",):
        return bytes_token(items, "iso8859-1")
    if errors == "strict" and name == "ascii":
        if not core.decide(b_and([t_cmp("<", i, 128) for i in items])):
            raise UnicodeDecodeError("ascii", b"", 0, 1, "ordinal not in range(128)")
        return bytes_token(items, "utf-8")
    raw = bytes(engine().concretize(i.e, "text") if isinstance(i, Term) else i for i in items)
    return raw.decode(encoding, errors)


def encode(s, encoding="utf-8", errors="strict"):
    from .seq import SymBytes
    if not has_token(s):
        return SymBytes(s.encode(encoding, errors))
    name = codecs.lookup(encoding).name
    out = []
    for p in parts(s):
        if isinstance(p, str):
            out.extend(p.encode(encoding, errors))
        elif p[0] == "utf-8" and name == "utf-8" or p[0] == name:
            out.extend(p[1])
        else:
            out.extend(render(p, lambda t: engine().concretize(t.e, "text")).encode(encoding, errors))
    return SymBytes.of(out)


def fmt_percent(fmt, args):
    """fmt % args for native fmt with symbolic arguments"""
    if not isinstance(args, tuple):
        if isinstance(args, dict) or hasattr(args, "keys"):
            return fmt % args
        args = (args,)
    if not any(_symbolic(a) for a in args) and not has_token(fmt):
        return fmt % args
    out, pos, it = [], 0, iter(args)
    for m in re.finditer(r"%([#0\- +]*)(\d*)(?:\.(\d+))?([a-zA-Z%])", fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        flags, width, prec, conv = m.groups()
        if conv == "%":
            out.append("%")
            continue
        try:
            arg = next(it)
        except StopIteration:
            raise TypeError("not enough arguments for format string") from None
        v = value_of(arg)
        if isinstance(v, Term) and conv in "dixX" and prec is None and flags in ("", "0"):
            spec = "" if conv in "di" and not width and not flags else flags + width + ("d" if conv in "di" else conv)
            out.append(int_token(v, spec))
        elif conv == "s" and not flags and not width and prec is None:
            out.append(str(arg))
        elif conv == "r" and not flags and not width and prec is None:
            out.append(repr(arg))
        else:
            out.append(m.group(0) % (int(v) if isinstance(v, int) else arg))
    out.append(fmt[pos:])
    return "".join(out)


def _symbolic(a):
    return isinstance(value_of(a), Term) or (isinstance(a, str) and has_token(a)) or core.is_symfloat(a)
