"""bytes / bytearray with symbolic items (lengths are always concrete)"""
import z3
from . import core
from .core import SymBool, SymInt, Term, b_and, b_or, engine, t_cmp, value_of


def item_value(x):
    """One byte as int or Term, with range check like bytes()"""
    v = value_of(x)
    if v is NotImplemented:
        if hasattr(type(x), "__index__"):
            v = x.__index__()
        else:
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
    if isinstance(v, Term):
        if v.lo >= 0 and v.hi <= 255:
            return Term(core.fit(v.e, 9), 0, 255) if (v.lo, v.hi) != (0, 255) else v
        if not core.decide(b_and([t_cmp("<=", 0, v), t_cmp("<=", v, 255)])):
            raise ValueError("bytes must be in range(0, 256)")
        return Term(core.fit(v.e, 9), 0, 255)
    if not 0 <= v <= 255:
        raise ValueError("bytes must be in range(0, 256)")
    return v


def byte_items(data):
    """Items of anything bytes() would accept as a bytes-like or iterable"""
    if isinstance(data, _Base):
        return list(data._items)
    if isinstance(data, (bytes, bytearray, memoryview)):
        return list(bytes(data))
    if isinstance(data, str):
        raise TypeError("cannot convert 'str' object to bytes")
    if hasattr(type(data), "__bytes__"):
        return byte_items(type(data).__bytes__(data))
    return [item_value(x) for x in data]


class _Meta(type):
    def __instancecheck__(cls, obj):
        if type.__instancecheck__(cls, obj):
            return True
        native = cls.__dict__.get("_native")
        return native is not None and isinstance(obj, native)

    def __subclasscheck__(cls, sub):
        if type.__subclasscheck__(cls, sub):
            return True
        native = cls.__dict__.get("_native")
        return native is not None and isinstance(sub, type) and type.__subclasscheck__(native, sub)

    def __eq__(cls, other):
        return cls is other or (cls.__dict__.get("_native") is not None and other is cls.__dict__.get("_native"))

    def __hash__(cls):
        return type.__hash__(cls)


def _is_byteslike(x):
    return isinstance(x, (_Base, bytes, bytearray, memoryview))


class _Base(metaclass=_Meta):
    __slots__ = ("_items",)
    __slotnames__ = []

    def __init_subclass__(cls, **kwargs):
        super().__init_subclass__(**kwargs)
        cls.__slotnames__ = []

    @staticmethod
    def _parse(source, encoding, errors):
        if source is None:
            return []
        if isinstance(source, str):
            if encoding is None:
                raise TypeError("string argument without an encoding")
            from . import strs
            return byte_items(strs.encode(source, encoding, errors or "strict"))
        v = value_of(source)
        if v is not NotImplemented:
            n = source.__index__()
            if n < 0:
                raise ValueError("negative count")
            return [0] * n
        return byte_items(source)

    @classmethod
    def of(cls, items):
        obj = object.__new__(cls)
        obj._items = list(items)
        return obj

    def _same(self, items):
        """New object of the plain type"""
        return (SymByteArray if isinstance(self, SymByteArray) else SymBytes).of(items)

    def _concrete(self):
        return all(not isinstance(i, Term) for i in self._items)

    def _real(self):
        out = []
        for idx, i in enumerate(self._items):
            if isinstance(i, Term):
                i = engine().concretize(i.e, "byte")
                self._items[idx] = i
            out.append(i)
        return bytes(out)

    def __bytes__(self):
        return self._real()

    def __buffer__(self, flags):
        return memoryview(self._real())

    def __len__(self):
        return len(self._items)

    def __iter__(self):
        i = 0
        while i < len(self._items):
            yield SymInt.from_value(self._items[i])
            i += 1

    def __reversed__(self):
        return iter([SymInt.from_value(i) for i in reversed(self._items)])

    def __getitem__(self, idx):
        if isinstance(idx, slice):
            return self._same(self._items[_slice(idx)])
        v = value_of(idx)
        if v is NotImplemented and not hasattr(type(idx), "__index__"):
            raise TypeError("byte indices must be integers or slices, not %s" % type(idx).__name__)
        if isinstance(v, Term):
            return self._sym_index(v)
        try:
            return SymInt.from_value(self._items[idx.__index__()])
        except IndexError:
            raise IndexError("index out of range") from None

    def _sym_index(self, v):
        n = len(self._items)
        if not core.decide(b_and([t_cmp("<=", -n, v), t_cmp("<", v, n)])):
            raise IndexError("index out of range")
        out = self._items[-1]
        for i in range(n - 1):
            out = core.t_ite(b_or([t_cmp("==", v, i), t_cmp("==", v, i - n)]), self._items[i], out)
        return SymInt.from_value(out)

    def __add__(self, other):
        if not _is_byteslike(other):
            return NotImplemented
        return self._same(self._items + byte_items(other))

    def __radd__(self, other):
        if not _is_byteslike(other):
            return NotImplemented
        items = byte_items(other) + self._items
        return SymByteArray.of(items) if isinstance(other, bytearray) else SymBytes.of(items)

    def __mul__(self, n):
        return self._same(self._items * n.__index__())

    __rmul__ = __mul__

    def _eq(self, other):
        """bool or z3"""
        if not _is_byteslike(other):
            return NotImplemented
        items = byte_items(other)
        if len(items) != len(self._items):
            return False
        return b_and([t_cmp("==", a, b) for a, b in zip(self._items, items)])

    def __eq__(self, other):
        res = self._eq(other)
        return res if res is NotImplemented else SymBool.wrap(res)

    def __ne__(self, other):
        res = self.__eq__(other)
        return res if res is NotImplemented else core.not_(res)

    def _lt(self, other, strict):
        items = byte_items(other)
        # lexicographic
        out = len(self._items) < len(items) if strict else len(self._items) <= len(items)
        for a, b in reversed(list(zip(self._items, items))):
            out = b_or([t_cmp("<", a, b), b_and([t_cmp("==", a, b), out])])
        return SymBool.wrap(out)

    def __lt__(self, other):
        return self._lt(other, True) if _is_byteslike(other) else NotImplemented

    def __le__(self, other):
        return self._lt(other, False) if _is_byteslike(other) else NotImplemented

    def __gt__(self, other):
        return core.not_(self._lt(other, False)) if _is_byteslike(other) else NotImplemented

    def __ge__(self, other):
        return core.not_(self._lt(other, True)) if _is_byteslike(other) else NotImplemented

    def __hash__(self):
        return hash(self._real())

    def __contains__(self, x):
        if _is_byteslike(x):
            return self.find(x) != -1
        v = item_value(x)
        return core.decide(b_or([t_cmp("==", i, v) for i in self._items]))

    def __bool__(self):
        return len(self._items) > 0

    def __repr__(self):
        if self._concrete():
            return repr(bytes(self._items))
        from . import strs
        return strs.bytes_token(self._items, "repr")

    __str__ = __repr__

    def __mod__(self, args):
        return SymBytes(self._real() % args)

    # ------------------------------------------------------------- methods
    def hex(self, *args):
        if self._concrete():
            return bytes(self._items).hex(*args)
        from . import strs
        if args:
            return self._real().hex(*args)
        return "".join(strs.int_token(i, "02x") if isinstance(i, Term) else "%02x" % i for i in self._items)

    @classmethod
    def fromhex(cls, s):
        return cls(bytes.fromhex(s))

    def decode(self, encoding="utf-8", errors="strict"):
        from . import strs
        return strs.decode(self._items, encoding, errors)

    def find(self, sub, start=0, end=None):
        hay = self._items[start:end]
        needle = [item_value(sub)] if value_of(sub) is not NotImplemented else byte_items(sub)
        for i in range(len(hay) - len(needle) + 1):
            if core.decide(b_and([t_cmp("==", a, b) for a, b in zip(hay[i:], needle)])):
                return i + (start or 0)
        return -1

    def index(self, sub, *args):
        res = self.find(sub, *args)
        if res < 0:
            raise ValueError("subsection not found")
        return res

    def count(self, sub):
        if value_of(sub) is not NotImplemented:
            v = item_value(sub)
            out = 0
            for i in self._items:
                out = core.t_add(out, core.t_ite(t_cmp("==", i, v), 1, 0))
            return SymInt.from_value(out)
        return self._real().count(byte_items_real(sub))

    def startswith(self, prefix, start=0, end=None):
        if isinstance(prefix, tuple):
            return any(self.startswith(p, start, end) for p in prefix)
        return self[start:end][: len(prefix)] == prefix

    def endswith(self, suffix, start=0, end=None):
        if isinstance(suffix, tuple):
            return any(self.endswith(p, start, end) for p in suffix)
        part = self[start:end]
        if len(part) < len(suffix):
            return False
        return part[len(part) - len(suffix):] == suffix

    def join(self, parts):
        out = []
        for n, part in enumerate(parts):
            if n:
                out.extend(self._items)
            if not _is_byteslike(part):
                raise TypeError("sequence item %d: expected a bytes-like object, %s found" % (n, type(part).__name__))
            out.extend(byte_items(part))
        return self._same(out)

    def ljust(self, width, fill=b" "):
        return self._same(self._items + [byte_items(fill)[0]] * (width.__index__() - len(self._items)))

    def rjust(self, width, fill=b" "):
        return self._same([byte_items(fill)[0]] * (width.__index__() - len(self._items)) + self._items)

    def tobytes(self):
        return SymBytes.of(self._items)

    def _strip(self, chars, left, right):
        cs = byte_items(chars) if chars is not None else list(b" \t\n\r\x0b\f")
        items = list(self._items)
        while left and items and core.decide(b_or([t_cmp("==", items[0], c) for c in cs])):
            items.pop(0)
        while right and items and core.decide(b_or([t_cmp("==", items[-1], c) for c in cs])):
            items.pop()
        return self._same(items)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, *args, **kwargs):
        return [SymBytes(x) for x in self._real().split(*args, **kwargs)]

    def replace(self, *args):
        return SymBytes(self._real().replace(*args))

    def isascii(self):
        return all(core.decide(t_cmp("<", i, 128)) for i in self._items)

    def translate(self, *args):
        return SymBytes(self._real().translate(*args))


def byte_items_real(x):
    return bytes(SymBytes.of(byte_items(x)))


def _slice(s):
    def conv(x):
        return None if x is None else x.__index__()
    return slice(conv(s.start), conv(s.stop), conv(s.step))


class SymBytes(_Base):
    """``bytes`` for loaded code"""

    __slots__ = ()
    _native = bytes

    def __new__(cls, source=None, encoding=None, errors=None):
        obj = object.__new__(cls)
        obj._items = cls._parse(source, encoding, errors)
        return obj


class SymByteArray(_Base):
    """``bytearray`` for loaded code"""

    __slots__ = ()
    _native = bytearray

    def __new__(cls, *args, **kwargs):
        obj = object.__new__(cls)
        obj._items = []
        return obj

    def __init__(self, source=None, encoding=None, errors=None):
        self._items = self._parse(source, encoding, errors)

    def __setitem__(self, idx, value):
        if isinstance(idx, slice):
            self._items[_slice(idx)] = byte_items(value)
            return
        v = value_of(idx)
        if isinstance(v, Term):
            n = len(self._items)
            if not core.decide(b_and([t_cmp("<=", -n, v), t_cmp("<", v, n)])):
                raise IndexError("bytearray index out of range")
            new = item_value(value)
            for i in range(n):
                self._items[i] = core.t_ite(
                    b_or([t_cmp("==", v, i), t_cmp("==", v, i - n)]), new, self._items[i])
            return
        new = item_value(value)
        try:
            self._items[idx.__index__()] = new
        except IndexError:
            raise IndexError("bytearray index out of range") from None

    def __delitem__(self, idx):
        if isinstance(idx, slice):
            del self._items[_slice(idx)]
        else:
            del self._items[idx.__index__()]

    def __iadd__(self, other):
        if not _is_byteslike(other):
            raise TypeError("can't concat %s to bytearray" % type(other).__name__)
        self._items.extend(byte_items(other))
        return self

    def append(self, x):
        self._items.append(item_value(x))

    def extend(self, xs):
        self._items.extend(byte_items(xs))

    def insert(self, idx, x):
        self._items.insert(idx.__index__(), item_value(x))

    def pop(self, idx=-1):
        if not self._items:
            raise IndexError("pop from empty bytearray")
        try:
            return SymInt.from_value(self._items.pop(idx.__index__()))
        except IndexError:
            raise IndexError("pop index out of range") from None

    def clear(self):
        self._items.clear()

    def copy(self):
        return SymByteArray.of(self._items)

    def reverse(self):
        self._items.reverse()

    __hash__ = None


class SymMemoryView:
    """``memoryview`` for loaded code"""

    def __new__(cls, data):
        return SymBytes.of(byte_items(data))
