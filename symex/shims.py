"""Standard-library stand-ins seen by loaded code."""
import collections as _collections
import enum as _enum
import io as _io
import ipaddress as _ipaddress
import pathlib as _pathlib
import posixpath
import struct as _struct
import types

from . import coll, core, seq, strs
from .coll import SymDict, SymDefaultDict, SymOrderedDict, SymSet
from .core import SymBool, SymFloat, SymInt, Term, b_and, engine, t_cmp, value_of
from .seq import SymBytes, SymByteArray, byte_items


def _module(name, base=None, **attrs):
    mod = types.ModuleType(name)
    if base is not None:
        for key in dir(base):
            if not key.startswith("__"):
                setattr(mod, key, getattr(base, key))
    for key, val in attrs.items():
        setattr(mod, key, val)
    return mod


# -------------------------------------------------------------------- enum
class SxEnumMeta(_enum.EnumMeta):
    """Enum lookup by value with a symbolic argument forks over the members"""

    def __call__(cls, value, *args, **kwargs):
        v = value_of(value) if not isinstance(value, int) else int(value)
        if v is NotImplemented and isinstance(value, str) and strs.has_token(value) and not args and not kwargs:
            value = strs.realize(value)
        if not args and not kwargs and isinstance(v, Term):
            if issubclass(cls, _enum.Flag):
                v = engine().concretize(v.e, "flag value")
                return super().__call__(v)
            members = list(cls._value2member_map_.items())
            ints = {int(k): m for k, m in members if isinstance(k, int)}
            pick = engine().choose_key(v.e, ints.keys())
            if pick is not None:
                return ints[pick]
            missing = cls._missing_(SymInt.from_value(v))
            if isinstance(missing, cls):
                return missing
            raise ValueError("%s is not a valid %s" % ("<symbolic>", cls.__qualname__))
        if core.is_symint(value):
            value = value._concrete()
        return super().__call__(value, *args, **kwargs)

    def __contains__(cls, value):
        v = value_of(value)
        if isinstance(v, Term):
            ints = [int(k) for k in cls._value2member_map_ if isinstance(k, int)]
            return engine().choose_key(v.e, ints) is not None
        return super().__contains__(value)


class SxEnum(_enum.Enum, metaclass=SxEnumMeta):
    pass


class SxIntEnum(_enum.IntEnum, metaclass=SxEnumMeta):
    pass


class SxFlag(_enum.Flag, metaclass=SxEnumMeta):
    pass


class SxIntFlag(_enum.IntFlag, metaclass=SxEnumMeta):
    pass


enum = _module("enum", _enum, Enum=SxEnum, IntEnum=SxIntEnum, Flag=SxFlag, IntFlag=SxIntFlag,
               EnumMeta=SxEnumMeta, EnumType=SxEnumMeta)


# --------------------------------------------------------------- ipaddress
class SymIPv6Address:
    __slots__ = ("_b", "__weakref__")
    __slotnames__ = []
    version = 6
    max_prefixlen = 128

    def __init_subclass__(cls, **kwargs):
        super().__init_subclass__(**kwargs)
        cls.__slotnames__ = []

    def __init__(self, address):
        if isinstance(address, (SymIPv6Address, _ipaddress.IPv6Address)):
            # the real constructor parses str(address)
            self._b = byte_items(address.packed)
            return
        if isinstance(address, str):
            entry = strs.single(address) if strs.has_token(address) else None
            if entry is not None and entry[0] == "ipv6":
                self._b = list(entry[1])
                return
            self._b = list(_ipaddress.IPv6Address(strs.realize(address)).packed)
            return
        v = value_of(address)
        if v is not NotImplemented:
            if isinstance(v, Term):
                if not core.decide(b_and([t_cmp("<=", 0, v), t_cmp("<", v, 1 << 128)])):
                    raise _ipaddress.AddressValueError("out of range")
                self._b = list(SymInt.from_value(v).to_bytes(16, "big")._items)
            else:
                self._b = list(_ipaddress.IPv6Address(v).packed)
            return
        if isinstance(address, (seq._Base, bytes)):
            items = byte_items(address)
            if len(items) != 16:
                raise _ipaddress.AddressValueError("%d (len %d != 16) is not permitted as an IPv6 address" % (0, len(items)))
            self._b = items
            return
        self._b = list(_ipaddress.IPv6Address(str(address)).packed)

    @property
    def packed(self):
        return SymBytes.of(self._b)

    def _concrete(self):
        return all(not isinstance(i, Term) for i in self._b)

    def _native(self):
        return _ipaddress.IPv6Address(bytes(SymBytes.of(self._b)))

    def __int__(self):
        return SymInt.from_bytes(SymBytes.of(self._b), "big")

    def _text(self, how):
        if self._concrete():
            return getattr(_ipaddress.IPv6Address(bytes(self._b)), how)
        return strs._make(("ipv6", list(self._b)), ("ipv6", tuple(i.e.get_id() if isinstance(i, Term) else i for i in self._b)))

    @property
    def compressed(self):
        return self._text("compressed")

    @property
    def exploded(self):
        return self._text("exploded")

    def __str__(self):
        return self._text("compressed")

    def __format__(self, spec):
        return format(self._text("compressed"), spec)

    def __repr__(self):
        return "%s('%s')" % (type(self).__name__, str(self))

    def __eq__(self, other):
        if not isinstance(other, (SymIPv6Address, _ipaddress.IPv6Address)):
            return NotImplemented
        return SymBool.wrap(SymBytes.of(self._b)._eq(other.packed))

    def __ne__(self, other):
        res = self.__eq__(other)
        return res if res is NotImplemented else core.not_(res)

    def __lt__(self, other):
        return int_of(self) < int_of(other)

    def __hash__(self):
        return hash(self._native())

    def __sx_fixed__(self):
        return ("ipv6", bytes(self._b)) if self._concrete() else None

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(_ipaddress.IPv6Address, name):
            raise AttributeError(name)
        return getattr(self._native(), name)


def int_of(addr):
    return SymInt.from_bytes(addr.packed, "big")


_IP_TOKEN_RENDER = strs.render


def _render(entry, val):
    if entry[0] == "ipv6":
        raw = bytes(val(i) if isinstance(i, Term) else i for i in entry[1])
        return _ipaddress.IPv6Address(raw).compressed
    return _IP_TOKEN_RENDER(entry, val)


strs.render = _render


def ip_address(address):
    try:
        return _ipaddress.IPv4Address(address)
    except Exception:
        return SymIPv6Address(address)


ipaddress = _module("ipaddress", _ipaddress, IPv6Address=SymIPv6Address, ip_address=ip_address)


# ------------------------------------------------------------------ struct
_FMT = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False),
        "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False)}


def _fmt(fmt):
    if isinstance(fmt, (bytes, seq._Base)):
        fmt = bytes(fmt).decode()
    order = "big"
    if fmt[:1] in "@=<>!":
        order = "little" if fmt[0] in "<@=" else "big"
        native = fmt[0] == "@"
        fmt = fmt[1:]
    else:
        order, native = "little", True
    out, num = [], ""
    for ch in fmt:
        if ch.isdigit():
            num += ch
            continue
        if ch.isspace():
            continue
        if ch in "sp":
            out.append((ch, int(num or 1)))
        elif ch == "x":
            out.extend([("x", 1)] * int(num or 1))
        elif ch in _FMT or ch in "c?":
            out.extend([(ch, 1)] * int(num or 1))
        else:
            core.engine().abort(core.Unsupported("struct format %r" % ch))
        num = ""
    if native and len(out) > 1 and len({_FMT.get(c, (1, 0))[0] for c, _ in out}) > 1:
        core.engine().abort(core.Unsupported("native alignment in struct format"))
    return order, out


def _size(out):
    return sum(n if c in "spx" else _FMT.get(c, (1, 0))[0] for c, n in out)


def struct_pack(fmt, *args):
    order, out = _fmt(fmt)
    items, it = [], list(args)
    need = sum(1 for c, _ in out if c != "x")
    if need != len(it):
        raise _struct.error("pack expected %d items for packing (got %d)" % (need, len(it)))
    for c, n in out:
        if c == "x":
            items.append(0)
            continue
        arg = it.pop(0)
        if c == "s":
            data = byte_items(arg)[:n]
            items.extend(data + [0] * (n - len(data)))
        elif c == "c":
            items.extend(byte_items(arg))
        elif c == "?":
            items.append(1 if arg else 0)
        else:
            size, signed = _FMT[c]
            v = value_of(arg)
            if v is NotImplemented:
                if not hasattr(type(arg), "__index__"):
                    raise _struct.error("required argument is not an integer")
                v = arg.__index__()
            try:
                items.extend(byte_items(SymInt.to_bytes(_boxed(v), size, order, signed=signed)))
            except OverflowError:
                raise _struct.error("argument out of range") from None
    return SymBytes.of(items)


def _boxed(v):
    obj = object.__new__(SymInt)
    obj._v = v
    return obj


def struct_unpack(fmt, data):
    order, out = _fmt(fmt)
    items = byte_items(data)
    if len(items) != _size(out):
        raise _struct.error("unpack requires a buffer of %d bytes" % _size(out))
    res, pos = [], 0
    for c, n in out:
        size = n if c in "spx" else _FMT.get(c, (1, 0))[0]
        part = items[pos:pos + size]
        pos += size
        if c == "x":
            continue
        if c in "sc":
            res.append(SymBytes.of(part))
        elif c == "?":
            res.append(SymBool.wrap(core.b_not(t_cmp("==", part[0], 0))))
        else:
            res.append(SymInt.from_bytes(SymBytes.of(part), order, signed=_FMT[c][1]))
    return tuple(res)


def struct_unpack_from(fmt, buffer, offset=0):
    size = _size(_fmt(fmt)[1])
    items = byte_items(buffer)
    offset = offset.__index__()
    if len(items) - offset < size:
        raise _struct.error("unpack_from requires a buffer of at least %d bytes" % (offset + size))
    return struct_unpack(fmt, SymBytes.of(items[offset:offset + size]))


def struct_pack_into(fmt, buffer, offset, *args):
    data = struct_pack(fmt, *args)
    buffer[offset:offset + len(data)] = data


def struct_iter_unpack(fmt, buffer):
    items = byte_items(buffer)
    size = _size(_fmt(fmt)[1])
    if not size or len(items) % size:
        raise _struct.error("iterative unpacking requires a buffer of a multiple of %d bytes" % size)
    return iter([struct_unpack(fmt, SymBytes.of(items[i:i + size])) for i in range(0, len(items), size)])


class Struct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = _size(_fmt(fmt)[1])

    def pack(self, *a):
        return struct_pack(self.format, *a)

    def unpack(self, d):
        return struct_unpack(self.format, d)

    def iter_unpack(self, b):
        return struct_iter_unpack(self.format, b)

    def pack_into(self, b, offset, *a):
        struct_pack_into(self.format, b, offset, *a)

    def unpack_from(self, b, offset=0):
        return struct_unpack_from(self.format, b, offset)


struct = _module("struct", _struct, pack=struct_pack, unpack=struct_unpack, unpack_from=struct_unpack_from,
                 pack_into=struct_pack_into, iter_unpack=struct_iter_unpack, calcsize=lambda f: _size(_fmt(f)[1]), Struct=Struct)


# ------------------------------------------------------------- collections
collections = _module("collections", _collections, defaultdict=SymDefaultDict, OrderedDict=SymOrderedDict,
                      UserDict=SymDict)


# ----------------------------------------------------------------- logging
class NullLogger:
    """Logging has an empty body (no formatting, no output)"""

    def _nop(self, *args, **kwargs):
        return None

    debug = info = warning = warn = error = exception = critical = log = _nop
    setLevel = addHandler = _nop
    level = 0
    handlers = ()

    def isEnabledFor(self, _level):
        return False

    def getChild(self, _name):
        return self


_null = NullLogger()
import logging as _logging  # noqa: E402

logging = _module("logging", _logging, getLogger=lambda *_a, **_k: _null,
                  **{k: _null._nop for k in "debug info warning error exception critical log basicConfig".split()})


# ------------------------------------------------------------------ crcmod
def make_crcmod(real):
    """CRC over symbolic bytes from crcmod's own predefined parameters"""
    pre = real.predefined

    def mkCrcFun(name):
        name = strs.realize(name)
        poly, rev, init, xor = _crc_params(pre, name)
        native = pre.mkCrcFun(name)
        width = poly.bit_length() - 1

        def fn(data, crc=None):
            items = byte_items(data)
            if all(not isinstance(i, Term) for i in items) and (crc is None or type(crc) is int):
                return native(bytes(items)) if crc is None else native(bytes(items), crc)
            reg = init if crc is None else value_of(crc)
            return SymInt.from_value(_crc(items, poly, rev, reg, xor, width))
        return fn

    pmod = _module("crcmod.predefined", pre, mkCrcFun=mkCrcFun, mkPredefinedCrcFun=mkCrcFun)
    mod = _module("crcmod", real, predefined=pmod)
    return mod, pmod


def _crc_params(pre, name):
    from_table = pre._crc_definitions_by_name if hasattr(pre, "_crc_definitions_by_name") else None
    rec = from_table[pre._simplify_name(name)] if from_table else None
    if rec is None:
        raise KeyError(name)
    return rec["poly"], rec["reverse"], rec["init"], rec["xor_out"]


def _crc(items, poly, rev, init, xor, width):
    import z3
    mask = (1 << width) - 1
    # crcmod's "init" is given after the final xor
    if isinstance(init, Term):
        reg = z3.Extract(width - 1, 0, core.tv(init, width + 1)) ^ (xor & mask)
    else:
        reg = z3.BitVecVal((init ^ xor) & mask, width)
    low = poly & mask
    if rev:
        low = int(format(low, "0%db" % width)[::-1], 2)
    for item in items:
        b = z3.Extract(7, 0, core.tv(item, 9))
        if rev:
            reg = reg ^ (z3.ZeroExt(width - 8, b) if width > 8 else b)
            for _ in range(8):
                bit = z3.Extract(0, 0, reg) == 1
                shifted = z3.LShR(reg, 1)
                reg = z3.If(bit, shifted ^ low, shifted)
        else:
            reg = reg ^ ((z3.ZeroExt(width - 8, b) << (width - 8)) if width > 8 else b)
            for _ in range(8):
                bit = z3.Extract(width - 1, width - 1, reg) == 1
                shifted = reg << 1
                reg = z3.If(bit, shifted ^ low, shifted)
        reg = z3.simplify(reg)
    reg = z3.simplify(reg ^ (xor & mask))
    if z3.is_bv_value(reg):
        return reg.as_long()
    return Term(z3.ZeroExt(1, reg), 0, mask)


# --------------------------------------------------- files, pathlib, yaml
class MemFS:
    """In-memory files, one per path of exploration"""

    def __init__(self):
        self.files = {}

    def open(self, path, mode="r", *args, **kwargs):
        name = str(path)
        if "w" in mode:
            f = MemFile(self, name, writable=True)
            self.files[name] = f.data = []
            return f
        if "a" in mode:
            f = MemFile(self, name, writable=True)
            f.data = self.files.setdefault(name, [])
            return f
        if name not in self.files:
            raise FileNotFoundError(2, "No such file or directory", name)
        f = MemFile(self, name, writable=False)
        f.data = list(self.files[name])
        return f


class MemFile:
    """A file is a list of documents/strings written to it"""

    def __init__(self, fs, name, writable):
        self.fs, self.name, self.writable = fs, name, writable
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.closed = True
        return False

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def fileno(self):
        return -1

    def write(self, text):
        if not self.writable:
            raise _io.UnsupportedOperation("not writable")
        self.data.append(text)
        return len(text) if isinstance(text, str) else 0

    def read(self, *_):
        if len(self.data) == 1 and isinstance(self.data[0], YamlDoc):
            return self.data[0]
        return "".join(self.data)


class YamlDoc:
    """Abstract text of one YAML document: what a loader would read back"""

    def __init__(self, node):
        self.node = node


class MemPath:
    """pathlib.Path over MemFS"""

    def __init__(self, *parts):
        self._p = posixpath.join(*[str(p) for p in parts]) if parts else "."

    def __truediv__(self, other):
        return MemPath(self._p, str(other))

    def __rtruediv__(self, other):
        return MemPath(str(other), self._p)

    def joinpath(self, *o):
        return MemPath(self._p, *o)

    def __str__(self):
        return self._p

    __repr__ = __fspath__ = __str__

    def __eq__(self, other):
        return coll.sx_eq(self._p, str(other))

    def __hash__(self):
        return hash(self._p)

    @property
    def parent(self):
        return MemPath(posixpath.dirname(self._p))

    @property
    def name(self):
        return posixpath.basename(self._p)

    @property
    def suffix(self):
        return posixpath.splitext(self._p)[1]

    @property
    def stem(self):
        return posixpath.splitext(self.name)[0]

    def with_suffix(self, s):
        return MemPath(posixpath.splitext(self._p)[0] + s)

    def with_name(self, n):
        return MemPath(posixpath.dirname(self._p), n)

    def exists(self):
        return self._p in fs().files

    is_file = exists

    def mkdir(self, *a, **k):
        pass

    def open(self, mode="r", *a, **k):
        return fs().open(self._p, mode)

    def unlink(self, missing_ok=False):
        if self._p not in fs().files and not missing_ok:
            raise FileNotFoundError(self._p)
        fs().files.pop(self._p, None)

    def rename(self, target):
        fs().files[str(target)] = fs().files.pop(self._p)
        return MemPath(str(target))

    replace = rename

    def read_text(self, *a, **k):
        return fs().open(self._p).read()

    def write_text(self, text, *a, **k):
        with fs().open(self._p, "w") as f:
            return f.write(text)


def fs():
    eng = engine()
    if getattr(eng, "memfs", None) is None:
        eng.memfs = MemFS()
    return eng.memfs


def sx_open(path, mode="r", *args, **kwargs):
    return fs().open(path, mode)


pathlib = _module("pathlib", _pathlib, Path=MemPath, PosixPath=MemPath, PurePath=MemPath)

import os as _os  # noqa: E402


class _OsPath(types.ModuleType):
    pass


_os_path = _module("os.path", _os.path, exists=lambda p: str(p) in fs().files, isfile=lambda p: str(p) in fs().files,
                   join=lambda *a: posixpath.join(*[str(x) for x in a]), isdir=lambda p: True)


def _os_rename(a, b):
    files = fs().files
    if str(a) not in files:
        raise FileNotFoundError(2, "No such file or directory", str(a))
    files[str(b)] = files.pop(str(a))


def _os_unlink(a):
    if str(a) not in fs().files:
        raise FileNotFoundError(2, "No such file or directory", str(a))
    del fs().files[str(a)]


os = _module("os", path=_os_path, rename=_os_rename, replace=_os_rename, unlink=_os_unlink, remove=_os_unlink,
             makedirs=lambda *a, **k: None, mkdir=lambda *a, **k: None, fspath=str, getpid=lambda: 1, sep="/",
             linesep="\n", environ=SymDict(), getenv=lambda k, d=None: d, fsync=lambda fd: None,
             PathLike=_os.PathLike)


class YamlOpaque:
    """An object the dumper would write as a python-specific tag"""

    def __init__(self, obj):
        self.obj = obj


def make_yaml(real):
    """Contract of yaml.dump / yaml.load(BaseLoader) on the data used here:
    mappings, sequences and scalars survive; every scalar reads back as text;
    a non-plain object does not survive as a scalar."""

    class YAMLObject:
        yaml_tag = None

    def scalar(x):
        if x is None:
            return "null"
        if x is True or x is False:
            return "true" if x else "false"
        if type(x) is SymBool:
            return "true" if x else "false"
        if type(x) is str:
            return x
        if type(x) is int or type(x) is SymInt:
            return SymInt.__repr__(x) if type(x) is SymInt else repr(x)
        if type(x) is float:
            return repr(x)
        if type(x) is SymFloat:
            return repr(x)
        return None

    def represent(x):
        s = scalar(x)
        if s is not None:
            return s
        if type(x) in (SymDict, dict):
            items = []
            for k, v in x.items():
                items.append((represent(k), represent(v)))
            return ("map", items)
        if type(x) in (list, tuple):
            return ("seq", [represent(i) for i in x])
        if type(x) in (SymSet, set):
            return ("map", [(represent(i), "null") for i in x])
        if isinstance(x, YAMLObject):
            state = x.__getstate__() if hasattr(x, "__getstate__") else x.__dict__
            return represent(SymDict(state))
        # python/object/new or python/object/apply: a mapping or sequence, not a scalar
        return ("seq", ["<python object>"])

    def construct(node):
        if isinstance(node, tuple):
            if node[0] == "seq":
                return [construct(i) for i in node[1]]
            out = SymDict()
            for k, v in node[1]:
                k = construct(k)
                if isinstance(k, list):
                    raise real.constructor.ConstructorError(None, None, "found unhashable key", None)
                out[k] = construct(v)
            return out
        return node

    def dump(data, stream=None, *args, **kwargs):
        doc = YamlDoc(represent(data))
        if stream is None:
            return doc
        stream.write(doc)
        return None

    def load(stream, Loader=None):
        if Loader is not real.BaseLoader:
            engine().abort(core.Unsupported("yaml loader other than BaseLoader"))
        if isinstance(stream, (YamlDoc, str)):
            docs = [stream]
        else:
            docs = stream.data
        if not docs:
            return None
        if len(docs) != 1 or not isinstance(docs[0], YamlDoc):
            return real.load("".join(strs.realize(d) for d in docs), Loader=real.BaseLoader)
        return construct(docs[0].node)

    def unsupported(*_a, **_k):
        engine().abort(core.Unsupported("yaml entry point not modelled"))

    return _module("yaml", BaseLoader=real.BaseLoader, YAMLObject=YAMLObject, dump=dump, load=load,
                   YAMLError=real.YAMLError, SafeLoader=real.SafeLoader, FullLoader=real.FullLoader,
                   Loader=real.Loader, Dumper=real.Dumper, SafeDumper=real.SafeDumper, safe_load=unsupported,
                   safe_dump=unsupported, dump_all=unsupported, load_all=unsupported,
                   constructor=real.constructor)
