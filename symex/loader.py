"""Loads the packages under test (and the harness) for symbolic execution.

The source text is read from disk on every run, parsed, lightly rewritten so
that displays, comparisons and a few dunder calls go through helpers, and
executed with a builtins table in which int, bytes, dict, ... are the symbolic
counterparts.
"""
import ast
import builtins
import copy
import importlib.abc
import importlib.util
import os
import sys
import types

from . import coll, core, seq, shims, strs
from .coll import SymDict, SymFrozenSet, SymSet
from .core import SymBool, SymFloat, SymInt, Term, engine, value_of
from .seq import SymByteArray, SymBytes, SymMemoryView

STR_METHODS = {
    "encode", "zfill", "rjust", "ljust", "center", "isdigit", "isnumeric", "isdecimal", "isalpha", "isalnum",
    "startswith", "endswith", "find", "index", "count", "replace", "translate", "isascii", "isprintable",
    "partition", "rpartition", "removeprefix", "removesuffix", "split", "rsplit", "splitlines", "isspace",
}
DUNDER_OPS = {
    "__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__add__", "__sub__", "__and__", "__or__",
    "__xor__", "__lshift__", "__rshift__", "__mul__", "__floordiv__", "__mod__", "__contains__", "__getitem__",
}


class Rewriter(ast.NodeTransformer):
    def _call(self, name, args, node):
        return ast.copy_location(ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[]), node)

    def visit_Constant(self, node):
        if isinstance(node.value, bytes):
            return self._call("__sx_bytes__", [ast.copy_location(ast.Constant(node.value), node)], node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            elts = [v] if k is None else [k, v]
            pairs.append(ast.copy_location(ast.Tuple(elts=elts, ctx=ast.Load()), v))
        return self._call("__sx_dict__", [ast.copy_location(ast.List(elts=pairs, ctx=ast.Load()), node)], node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call("__sx_set__", [ast.copy_location(ast.List(elts=node.elts, ctx=ast.Load()), node)], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        elt = ast.copy_location(ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), node)
        comp = ast.copy_location(ast.ListComp(elt=elt, generators=node.generators), node)
        return self._call("__sx_dict__", [comp], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        comp = ast.copy_location(ast.ListComp(elt=node.elt, generators=node.generators), node)
        return self._call("__sx_set__", [comp], node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, left, right = node.ops[0], node.left, node.comparators[0]
            name = {ast.Eq: "__sx_eq__", ast.NotEq: "__sx_ne__", ast.In: "__sx_in__", ast.NotIn: "__sx_notin__",
                    ast.Is: "__sx_is__", ast.IsNot: "__sx_isnot__"}.get(type(op))
            if name in ("__sx_is__", "__sx_isnot__"):
                if not (isinstance(right, ast.Constant) and isinstance(right.value, bool)
                        or isinstance(left, ast.Constant) and isinstance(left.value, bool)):
                    if not isinstance(right, ast.Call) and not isinstance(left, ast.Call):
                        return node
            if name:
                return self._call(name, [left, right], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call("__sx_mod__", [node.left, node.right], node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        fn = node.func
        if isinstance(fn, ast.Attribute) and (fn.attr in STR_METHODS or fn.attr in DUNDER_OPS):
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                return node
            node.func = self._call("__sx_method__", [fn.value, ast.copy_location(ast.Constant(fn.attr), fn)], fn)
        return node

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        if node.name == "__bool__" and isinstance(self.truths, list):
            # the truth of an object, not decided yet (see core.to_bool)
            self.truths.append(ast.copy_location(ast.FunctionDef(**dict(
                ast.iter_fields(copy.deepcopy(node)), name="__sx_bool__")), node))
            for sub in ast.walk(node):
                if isinstance(sub, ast.Return) and sub.value is not None:
                    sub.value = self._call("__sx_truth__", [sub.value], sub.value)
        return node

    def visit_ClassDef(self, node):
        outer, self.truths = self.truths, []
        self.generic_visit(node)
        node.body += self.truths
        self.truths = outer
        return node

    truths = ()

    def visit_MatchValue(self, node):
        return node  # patterns must stay literal


def sx_in(a, b):
    if isinstance(b, str):
        if isinstance(a, str) and (strs.has_token(a) or strs.has_token(b)):
            if a == "" or a == b:
                return True
            if not strs.has_token(a) and not any(c.isalnum() or c in "+-. " for c in a):
                kinds = [p[0] for p in strs.parts(b) if not isinstance(p, str)]
                if all(k in ("int", "float", "bool") for k in kinds) or (a not in ":" and False):
                    return any(a in p for p in strs.parts(b) if isinstance(p, str))
            return strs.realize(a) in strs.realize(b)
        return a in b
    if isinstance(b, (list, tuple)) and type(b).__contains__ in (list.__contains__, tuple.__contains__):
        # same evaluation as the builtin: identity or equality, left to right
        conds = [True if x is a else coll.eq_expr(x, a) for x in b]
        return SymBool.wrap(core.b_or(conds))
    if isinstance(b, range):
        v = value_of(a)
        if isinstance(v, Term):
            if not len(b):
                return False
            lo, hi = min(b[0], b[-1]), max(b[0], b[-1])
            conds = [core.t_cmp("<=", lo, v), core.t_cmp("<=", v, hi)]
            if abs(b.step) != 1:
                conds.append(core.t_cmp("==", core.t_divmod(core.t_sub(v, lo), abs(b.step))[1], 0))
            return SymBool.wrap(core.b_and(conds))
    if isinstance(b, (bytes, bytearray)):
        return a in SymBytes(b)
    return a in b


def sx_is(a, b):
    if type(a) is SymBool and isinstance(b, bool):
        return a if b else core.not_(a)
    if type(b) is SymBool and isinstance(a, bool):
        return b if a else core.not_(b)
    if isinstance(a, type) and isinstance(b, type):
        return a == b
    return a is b


def sx_mod(a, b):
    if isinstance(a, str):
        return strs.fmt_percent(a, b)
    return a % b


def sx_truth(x):
    return bool(x)


def _any_sym(args):
    return any(core.is_symint(a) or type(a) is SymBool or core.is_symfloat(a) for a in args)


def sx_method(obj, name):
    """Bound method, with natives that cannot see symbolic operands wrapped"""
    if isinstance(obj, str) and name in STR_METHODS:
        def strmethod(*args, **kwargs):
            toks = strs.has_token(obj) or any(isinstance(a, str) and strs.has_token(a) for a in args)
            if not toks:
                res = getattr(obj, name)(*args, **kwargs)
                return SymBytes(res) if name == "encode" else res
            if name == "encode":
                return strs.encode(obj, *args, **kwargs)
            if (name == "zfill" and len(args) == 1) or (name == "rjust" and len(args) == 2 and args[1] == "0"):
                padded = strs.pad(obj, args[0])
                if padded is not None:
                    return padded
            if name in ("split", "rsplit", "partition", "rpartition") and args and isinstance(args[0], str) \
                    and not strs.has_token(args[0]) and all(
                        strs.cannot_contain(p, args[0]) for p in strs.parts(obj) if not isinstance(p, str)):
                return getattr(obj, name)(*args, **kwargs)
            if name in ("split", "rsplit", "partition", "rpartition", "count", "replace") and args \
                    and isinstance(args[0], str) and not strs.has_token(args[0]) and strs.outside(obj, args[0]):
                return getattr(obj, name)(*args, **kwargs)
            if name == "startswith" and len(args) == 1 and isinstance(args[0], str):
                res = strs.begins(obj, args[0])
                if res is not None:
                    return res
            real = strs.realize(obj)
            args = [strs.realize(a) if isinstance(a, str) else a for a in args]
            return getattr(real, name)(*args, **kwargs)
        return strmethod
    if name in DUNDER_OPS and isinstance(obj, int):
        def intmethod(*args):
            if _any_sym(args):
                return getattr(shims._boxed(int(obj)), name)(*args)
            return getattr(obj, name)(*args)
        return intmethod
    return getattr(obj, name)


class TypeMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, type)

    def __call__(cls, *args, **kwargs):
        if cls is SxType and len(args) == 1:
            return sx_typeof(args[0])
        if cls is SxType:
            if len(args) == 3 and not isinstance(args[2], dict):
                args = (args[0], args[1], {str(k): v for k, v in args[2].items()})
            return type(*args, **kwargs)
        return type.__call__(cls, *args, **kwargs)


_TYPE_MAP = {int: SymInt, bool: SymBool, bytes: SymBytes, bytearray: SymByteArray, float: SymFloat,
             dict: SymDict, set: SymSet, frozenset: SymFrozenSet}


def sx_typeof(x):
    return _TYPE_MAP.get(type(x), type(x))


class SxType(type, metaclass=TypeMeta):
    pass


def sx_len(x):
    if isinstance(x, str) and strs.has_token(x):
        return len(strs.realize(x))
    return len(x)


def sx_print(*_args, **_kwargs):
    return None


def sx_ord(x):
    if isinstance(x, seq._Base):
        return x[0]
    return ord(x)


def sx_hex(x):
    v = value_of(x)
    if isinstance(v, Term) and v.lo >= 0:
        return "0x" + strs.int_token(v, "x")
    return hex(x)


def sx_bin(x):
    v = value_of(x)
    if isinstance(v, Term) and v.lo >= 0:
        return "0b" + strs.int_token(v, "b")
    return bin(x)


def sx_all(it):
    for x in it:
        if not x:
            return False
    return True


SHIMS = {
    "enum": shims.enum, "ipaddress": shims.ipaddress, "struct": shims.struct,
    "collections": shims.collections, "logging": shims.logging, "pathlib": shims.pathlib,
    "os": shims.os, "os.path": shims._os_path,
}


def _lazy_shims():
    if "yaml" not in SHIMS:
        import crcmod
        import crcmod.predefined
        import yaml
        SHIMS["yaml"] = shims.make_yaml(yaml)
        SHIMS["crcmod"], SHIMS["crcmod.predefined"] = shims.make_crcmod(crcmod)


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split(".")[0]
        if top in ("yaml", "crcmod"):
            _lazy_shims()
        if name in SHIMS and (fromlist or "." not in name):
            return SHIMS[name]
        if top in SHIMS and "." in name and not fromlist:
            return SHIMS[top]
    return builtins.__import__(name, globals, locals, fromlist, level)


class RangeMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, range) or type(obj) is SymRange

    def __call__(cls, *args):
        if any(isinstance(value_of(a), Term) for a in args):
            return type.__call__(cls, *args)
        return range(*args)


class SymRange(metaclass=RangeMeta):
    """range() with bounds that are not known: decided one step at a time"""

    __name__ = "range"

    def __init__(self, *args):
        if not 1 <= len(args) <= 3:
            raise TypeError("range expected 1 to 3 arguments, got %d" % len(args))
        start, stop, step = (0, args[0], 1) if len(args) == 1 else (*args, 1) if len(args) == 2 else args
        step = step.__index__()
        if step == 0:
            raise ValueError("range() arg 3 must not be zero")
        for a in (start, stop):
            if value_of(a) is NotImplemented:
                raise TypeError("'%s' object cannot be interpreted as an integer" % type(a).__name__)
        self.start, self.stop, self.step = start, stop, step

    def _native(self):
        return range(self.start.__index__(), self.stop.__index__(), self.step)

    def __iter__(self):
        at = self.start
        while at < self.stop if self.step > 0 else at > self.stop:
            yield at
            at = at + self.step

    def __contains__(self, x):
        return x in self._native()

    def __eq__(self, other):
        return self._native() == (other._native() if type(other) is SymRange else other)

    def __hash__(self):
        return hash(self._native())

    def __len__(self):
        return len(self._native())

    def __getitem__(self, key):
        return self._native()[key]

    def __reversed__(self):
        return reversed(self._native())

    def __repr__(self):
        return repr(self._native())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._native(), name)


def make_builtins():
    b = dict(builtins.__dict__)
    b.update(
        int=SymInt, bool=SymBool, float=SymFloat, bytes=SymBytes, bytearray=SymByteArray, memoryview=SymMemoryView,
        dict=SymDict, set=SymSet, frozenset=SymFrozenSet, type=SxType, len=sx_len, print=sx_print, open=shims.sx_open,
        ord=sx_ord, hex=sx_hex, bin=sx_bin, range=SymRange,
        __import__=sx_import,
        __sx_bytes__=SymBytes, __sx_dict__=SymDict.display, __sx_set__=SymSet, __sx_eq__=coll.sx_eq,
        __sx_ne__=coll.sx_ne, __sx_in__=sx_in, __sx_notin__=lambda a, c: core.not_(sx_in(a, c)),
        __sx_is__=sx_is, __sx_isnot__=lambda a, c: core.not_(sx_is(a, c)), __sx_mod__=sx_mod,
        __sx_method__=sx_method, __sx_truth__=sx_truth,
    )
    return b


BUILTINS = make_builtins()
CODE_CACHE = {}


def compile_file(path):
    with open(path, "rb") as f:
        src = f.read()
    key = (path, src)
    code = CODE_CACHE.get(key)
    if code is None:
        tree = ast.parse(src, path)
        # docstrings and annotations need no rewriting
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        code = CODE_CACHE[key] = compile(tree, path, "exec", dont_inherit=True)
    return code


class SxLoader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__["__builtins__"] = BUILTINS
        exec(compile_file(self.path), module.__dict__)


NATIVE_MODULES = {"pyzwave.const.ZW_classcmd"}


class SxFinder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots  # package name -> directory that contains it

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots or fullname in NATIVE_MODULES:
            return None
        base = os.path.join(self.roots[top], *fullname.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            file = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_file_location(
                fullname, file, loader=SxLoader(file), submodule_search_locations=[base])
            return spec
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        file = base + ".py"
        if os.path.exists(file):
            return importlib.util.spec_from_file_location(fullname, file, loader=SxLoader(file))
        return None


_PRISTINE = {}


def install(roots):
    sys.meta_path.insert(0, SxFinder(roots))
    sys.dont_write_bytecode = True


def purge(tops):
    for name in list(sys.modules):
        if name.split(".")[0] in tops and name not in NATIVE_MODULES:
            del sys.modules[name]


SKIP_ATTRS = {"__dict__", "__weakref__", "__slotnames__", "__annotations__", "__abstractmethods__", "_abc_impl",
              "__builtins__", "__doc__", "__spec__", "__loader__", "__cached__"}


def mutable_state(tops):
    """Namespaces (modules, classes) and mutable containers reachable from them"""
    spaces, boxes, seen = [], [], set()

    def visit(obj):
        if id(obj) in seen:
            return
        seen.add(id(obj))
        if hasattr(type(obj), "_ix") or isinstance(obj, (list, dict, set)) or type(obj) is SymByteArray:
            boxes.append(obj)
        if isinstance(obj, types.FunctionType):
            for d in (obj.__defaults__ or ()):
                visit(d)
            for d in (obj.__kwdefaults__ or {}).values():
                visit(d)
            for cell in (obj.__closure__ or ()):
                try:
                    visit(cell.cell_contents)
                except ValueError:
                    pass
        elif isinstance(obj, type):
            if getattr(obj, "__module__", "").split(".")[0] in tops:
                spaces.append(obj)
                for key, val in list(vars(obj).items()):
                    if key not in SKIP_ATTRS:
                        visit(val)
        elif isinstance(obj, (staticmethod, classmethod)):
            visit(obj.__func__)

    for name, mod in sorted(sys.modules.items()):
        if name.split(".")[0] not in tops or name in NATIVE_MODULES:
            continue
        spaces.append(mod)
        for key, val in list(vars(mod).items()):
            if key not in SKIP_ATTRS:
                visit(val)
    return spaces, boxes


def fingerprint(state):
    spaces, boxes = state
    res = []
    for sp in spaces:
        res.append([(k, id(v)) for k, v in vars(sp).items() if k not in SKIP_ATTRS])
    for obj in boxes:
        if hasattr(type(obj), "_ix"):
            res.append((obj._ix.ver, [id(v) for v in obj._ix.vals.values()]))
        elif isinstance(obj, dict):
            res.append([(id(k), id(v)) for k, v in obj.items()])
        elif isinstance(obj, SymByteArray):
            res.append([id(i) for i in obj._items])
        else:
            res.append([id(i) for i in obj])
    return res
