"""dict / set whose keys may be symbolic.

Entries live in insertion order in ``_k`` (slot -> key) and ``_d`` (slot ->
value).  Keys whose value is fixed are also indexed in a native dict; keys that
are symbolic are compared one by one, which forks the path.
"""
from . import core, strs
from .core import SymBool, SymFloat, SymInt, Term, b_and, decide, engine, t_cmp, value_of
from .seq import _Base


def eq_expr(a, b):
    """a == b as bool / z3 without forking where possible"""
    if a is b and not isinstance(a, float):
        return True
    if isinstance(a, str) and isinstance(b, str):
        return strs.eq(a, b)
    ta, tb = type(a), type(b)
    if (ta is tuple and tb is tuple) or (ta is list and tb is list):
        if len(a) != len(b):
            return False
        return b_and([eq_expr(x, y) for x, y in zip(a, b)])
    return core.bexpr(a == b)


def sx_eq(a, b):
    """The == of loaded code"""
    if isinstance(a, str) and isinstance(b, str):
        if type(a).__eq__ is str.__eq__ and type(b).__eq__ is str.__eq__:
            return SymBool.wrap(strs.eq(a, b))
        return a == b
    ta, tb = type(a), type(b)
    if (ta is tuple and tb is tuple) or (ta is list and tb is list):
        return SymBool.wrap(eq_expr(a, b))
    return a == b


def sx_ne(a, b):
    if isinstance(a, str) or type(a) in (tuple, list):
        return core.not_(sx_eq(a, b)) if type(a) is type(b) or isinstance(b, str) else a != b
    return a != b


def fixed_key(key):
    """A native hashable standing for the key, or None if the key is symbolic.

    Keys that compare equal get the same stand-in (1, True, 1.0, IntEnum 1...)."""
    if isinstance(key, str):
        return None if strs.has_token(key) else key
    if type(key) is tuple:
        out = []
        for k in key:
            f = fixed_key(k)
            if f is None:
                return None
            out.append(f)
        return tuple(out)
    if core.is_symint(key):
        if type(key).__hash__ is not SymInt.__hash__ and type(key).__eq__ is not SymInt.__eq__:
            return key
        return None if isinstance(key._v, Term) else key._v
    if type(key) is SymBool:
        return None
    if isinstance(key, _Base):
        hash_check(key)
        return bytes(key._items) if key._concrete() else None
    if core.is_symfloat(key):
        return None if isinstance(key._f, tuple) else key._f
    fk = getattr(type(key), "__sx_fixed__", None)
    if fk is not None:
        return fk(key)
    hash(key)
    return key if key is not None else _NONE


_NONE = ("__none__",)


def hash_check(key):
    if type(key).__hash__ is None:
        raise TypeError("unhashable type: '%s'" % type(key).__name__)


class _Index:
    """Ordered association with symbolic keys"""

    __slots__ = ("keys", "vals", "index", "sym", "next", "ver")

    def __init__(self):
        self.keys = {}      # slot -> key
        self.vals = {}      # slot -> value
        self.index = {}     # fixed key -> slot
        self.sym = []       # slots with symbolic keys
        self.next = 0
        self.ver = 0

    def find(self, key):
        """slot or None (forks when symbolic)"""
        fk = fixed_key(key)
        if fk is not None:
            slot = self.index.get(fk)
            if slot is not None or not self.sym:
                return slot
            slots = self.sym
        else:
            hash_check(key)
            slots = list(self.keys)
        if fk is None and not self.sym:
            v = value_of(key)
            if isinstance(v, Term) and (not core.is_symint(key) or type(key).__eq__ is SymInt.__eq__):
                ints = {k: s for k, s in self.index.items() if type(k) is int or isinstance(k, int)}
                floats = any(isinstance(k, float) for k in self.index)
                odd = any(not isinstance(k, (int, str, bytes, tuple)) for k in self.index)
                if not floats and not odd:
                    pick = engine().choose_key(v.e, {int(k): s for k, s in ints.items()}.keys())
                    return None if pick is None else {int(k): s for k, s in ints.items()}[pick]
        conds = [eq_expr(self.keys[s], key) for s in slots]
        pick = engine().choose(conds) if any(c is not False for c in conds) else None
        return None if pick is None else slots[pick]

    def insert(self, key, val):
        slot = self.next
        self.next += 1
        self.keys[slot] = key
        self.vals[slot] = val
        fk = fixed_key(key)
        if fk is not None:
            self.index[fk] = slot
        else:
            self.sym.append(slot)
        self.ver += 1

    def remove(self, slot):
        key = self.keys.pop(slot)
        self.vals.pop(slot)
        if slot in self.sym:
            self.sym.remove(slot)
        else:
            self.index.pop(fixed_key(key), None)
            for fk, s in list(self.index.items()):
                if s == slot:
                    del self.index[fk]
        self.ver += 1

    def clear(self):
        self.keys.clear()
        self.vals.clear()
        self.index.clear()
        self.sym.clear()
        self.ver += 1

    def slots(self, what):
        size = len(self.keys)
        for slot in list(self.keys):
            if len(self.keys) != size:
                raise RuntimeError("%s changed size during iteration" % what)
            if slot in self.keys:
                yield slot
        if len(self.keys) != size:
            raise RuntimeError("%s changed size during iteration" % what)


class _Meta(type):
    def __instancecheck__(cls, obj):
        if type.__instancecheck__(cls, obj):
            return True
        native = cls.__dict__.get("_native")
        return native is not None and isinstance(obj, native)

    def __subclasscheck__(cls, sub):
        if type.__subclasscheck__(cls, sub):
            return True
        native = cls.__dict__.get("_native")
        return native is not None and isinstance(sub, type) and any(
            type.__subclasscheck__(n, sub) for n in (native if isinstance(native, tuple) else (native,)))

    def __eq__(cls, other):
        return cls is other or (cls.__dict__.get("_native") is not None and other is cls.__dict__.get("_native"))

    def __hash__(cls):
        return type.__hash__(cls)


class _View:
    __slots__ = ("_dict",)

    def __init__(self, d):
        self._dict = d

    def __len__(self):
        return len(self._dict)

    def __repr__(self):
        return "%s(%r)" % (type(self).__name__, list(self))

    def __reversed__(self):
        return iter(list(self)[::-1])


class _SetOps:
    __slots__ = ()

    def _pyset(self):
        return SymSet(self)

    def __and__(self, other):
        return SymSet(self) & other

    __rand__ = __and__

    def __or__(self, other):
        return SymSet(self) | other

    __ror__ = __or__

    def __sub__(self, other):
        return SymSet(self).difference(other)

    def __rsub__(self, other):
        return SymSet(other).difference(self)

    def __xor__(self, other):
        return SymSet(self).symmetric_difference(other)

    def __eq__(self, other):
        return SymSet(self) == other

    def isdisjoint(self, other):
        return SymSet(self).isdisjoint(other)

    __hash__ = None


class KeysView(_View, _SetOps):
    __slots__ = ()

    def __iter__(self):
        ix = self._dict._ix
        for slot in ix.slots("dictionary"):
            yield ix.keys[slot]

    def __contains__(self, key):
        return self._dict._ix.find(key) is not None


class ValuesView(_View):
    __slots__ = ()

    def __iter__(self):
        ix = self._dict._ix
        for slot in ix.slots("dictionary"):
            yield ix.vals[slot]

    def __contains__(self, val):
        return any(decide(eq_expr(v, val)) for v in self)


class ItemsView(_View, _SetOps):
    __slots__ = ()

    def __iter__(self):
        ix = self._dict._ix
        for slot in ix.slots("dictionary"):
            yield (ix.keys[slot], ix.vals[slot])

    def __contains__(self, item):
        slot = self._dict._ix.find(item[0])
        return slot is not None and decide(eq_expr(self._dict._ix.vals[slot], item[1]))


_MISSING = object()


def is_symdict(x):
    return type.__instancecheck__(SymDict, x)


def is_symset(x):
    return type.__instancecheck__(SymSet, x)



class SymDict(metaclass=_Meta):
    """``dict`` for loaded code"""

    __slots__ = ("_ix",)
    __slotnames__ = []
    _native = dict
    __hash__ = None

    def __init_subclass__(cls, **kwargs):
        super().__init_subclass__(**kwargs)
        cls.__slotnames__ = []

    @classmethod
    def __class_getitem__(cls, item):
        return dict[item]

    def __new__(cls, *args, **kwargs):
        obj = object.__new__(cls)
        obj._ix = _Index()
        return obj

    def __init__(self, *args, **kwargs):
        if len(args) > 1:
            raise TypeError("dict expected at most 1 argument, got %d" % len(args))
        SymDict.update(self, *args, **kwargs)

    @staticmethod
    def display(pairs):
        out = SymDict()
        for p in pairs:
            if len(p) == 1:
                out.update(p[0])
            else:
                SymDict.__setitem__(out, p[0], p[1])
        return out

    def __setitem__(self, key, value):
        slot = self._ix.find(key)
        if slot is None:
            self._ix.insert(key, value)
        else:
            self._ix.vals[slot] = value

    def __getitem__(self, key):
        slot = self._ix.find(key)
        if slot is None:
            missing = getattr(type(self), "__missing__", None)
            if missing is not None:
                return missing(self, key)
            raise KeyError(key)
        return self._ix.vals[slot]

    def __delitem__(self, key):
        slot = self._ix.find(key)
        if slot is None:
            raise KeyError(key)
        self._ix.remove(slot)

    def __contains__(self, key):
        return self._ix.find(key) is not None

    def __iter__(self):
        for slot in self._ix.slots("dictionary"):
            yield self._ix.keys[slot]

    def __reversed__(self):
        return iter(list(self._ix.keys.values())[::-1])

    def __len__(self):
        return len(self._ix.keys)

    def __bool__(self):
        return len(self._ix.keys) > 0

    def keys(self):
        return KeysView(self)

    def values(self):
        return ValuesView(self)

    def items(self):
        return ItemsView(self)

    def get(self, key, default=None):
        slot = self._ix.find(key)
        return default if slot is None else self._ix.vals[slot]

    def setdefault(self, key, default=None):
        slot = self._ix.find(key)
        if slot is None:
            self._ix.insert(key, default)
            return default
        return self._ix.vals[slot]

    def pop(self, key, default=_MISSING):
        slot = self._ix.find(key)
        if slot is None:
            if default is _MISSING:
                raise KeyError(key)
            return default
        val = self._ix.vals[slot]
        self._ix.remove(slot)
        return val

    def popitem(self):
        if not self._ix.keys:
            raise KeyError("popitem(): dictionary is empty")
        slot = list(self._ix.keys)[-1]
        item = (self._ix.keys[slot], self._ix.vals[slot])
        self._ix.remove(slot)
        return item

    def update(self, *args, **kwargs):
        if args:
            other = args[0]
            if hasattr(other, "keys"):
                for key in list(other.keys()):
                    SymDict.__setitem__(self, key, other[key])
            else:
                for key, val in other:
                    SymDict.__setitem__(self, key, val)
        for key, val in kwargs.items():
            SymDict.__setitem__(self, key, val)

    def clear(self):
        self._ix.clear()

    def copy(self):
        return SymDict(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        out = SymDict()
        for k, v in self.items():
            out[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return out

    @classmethod
    def fromkeys(cls, keys, value=None):
        out = cls()
        for k in keys:
            out[k] = value
        return out

    def __or__(self, other):
        if not hasattr(other, "keys"):
            return NotImplemented
        out = SymDict(self)
        out.update(other)
        return out

    def __ror__(self, other):
        out = SymDict(other)
        out.update(self)
        return out

    def __ior__(self, other):
        self.update(other)
        return self

    def __eq__(self, other):
        if not isinstance(other, (SymDict, dict)):
            return NotImplemented
        if len(self) != len(other):
            return False
        conds = []
        for key, val in self.items():
            if is_symdict(other):
                slot = other._ix.find(key)
                if slot is None:
                    return False
                conds.append(eq_expr(val, other._ix.vals[slot]))
            else:
                match = [k for k in other if decide(eq_expr(k, key))]
                if not match:
                    return False
                conds.append(eq_expr(val, other[match[0]]))
        return SymBool.wrap(b_and(conds))

    def __ne__(self, other):
        res = self.__eq__(other)
        return res if res is NotImplemented else core.not_(res)

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % kv for kv in self.items())


class SymDefaultDict(SymDict):
    def __init__(self, default_factory=None, *args, **kwargs):
        self.default_factory = default_factory
        SymDict.__init__(self, *args, **kwargs)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        val = self.default_factory()
        self[key] = val
        return val


class SymOrderedDict(SymDict):
    def move_to_end(self, key, last=True):
        val = self.pop(key)
        if last:
            self[key] = val
        else:
            items = [(key, val)] + list(self.items())
            self.clear()
            for k, v in items:
                self[k] = v

    def popitem(self, last=True):
        if last:
            return SymDict.popitem(self)
        if not self._ix.keys:
            raise KeyError("dictionary is empty")
        slot = list(self._ix.keys)[0]
        item = (self._ix.keys[slot], self._ix.vals[slot])
        self._ix.remove(slot)
        return item


class SymSet(metaclass=_Meta):
    """``set`` for loaded code"""

    __slots__ = ("_ix",)
    __slotnames__ = []
    _native = set
    __hash__ = None

    def __init_subclass__(cls, **kwargs):
        super().__init_subclass__(**kwargs)
        cls.__slotnames__ = []

    @classmethod
    def __class_getitem__(cls, item):
        return set[item]

    def __new__(cls, *args, **kwargs):
        obj = object.__new__(cls)
        obj._ix = _Index()
        return obj

    def __init__(self, items=()):
        for x in items:
            SymSet.add(self, x)

    def add(self, x):
        if self._ix.find(x) is None:
            self._ix.insert(x, None)

    def discard(self, x):
        slot = self._ix.find(x)
        if slot is not None:
            self._ix.remove(slot)

    def remove(self, x):
        slot = self._ix.find(x)
        if slot is None:
            raise KeyError(x)
        self._ix.remove(slot)

    def pop(self):
        # native sets of small ints pop in hash order; the order is unspecified
        if not self._ix.keys:
            raise KeyError("pop from an empty set")
        slot = self._order()[0]
        key = self._ix.keys[slot]
        self._ix.remove(slot)
        return key

    def clear(self):
        self._ix.clear()

    def copy(self):
        return SymSet(self)

    def _order(self):
        """Slots in iteration order. Integer sets iterate ascending (what CPython
        does for the small integers used here), other sets in insertion order."""
        ix = self._ix
        slots = list(ix.keys)
        if not ix.sym and all(isinstance(ix.keys[s], int) or isinstance(ix.keys[s], SymInt) for s in slots):
            slots.sort(key=lambda s: int(ix.keys[s]))
        return slots

    def __iter__(self):
        ix = self._ix
        size = len(ix.keys)
        for slot in self._order():
            if len(ix.keys) != size:
                raise RuntimeError("Set changed size during iteration")
            if slot in ix.keys:
                yield ix.keys[slot]
        if len(ix.keys) != size:
            raise RuntimeError("Set changed size during iteration")

    def __len__(self):
        return len(self._ix.keys)

    def __bool__(self):
        return len(self._ix.keys) > 0

    def __contains__(self, x):
        return self._ix.find(x) is not None

    def contains_expr(self, x):
        fk = fixed_key(x)
        if fk is not None and fk in self._ix.index:
            return True
        return core.b_or([eq_expr(k, x) for k in self._ix.keys.values()])

    def update(self, *others):
        for other in others:
            for x in other:
                self.add(x)

    def union(self, *others):
        out = SymSet(self)
        out.update(*others)
        return out

    def intersection(self, *others):
        out = SymSet()
        others = [o if is_symset(o) else SymSet(o) for o in others]
        for x in self:
            if all(x in o for o in others):
                out.add(x)
        return out

    def difference(self, *others):
        out = SymSet()
        others = [o if is_symset(o) else SymSet(o) for o in others]
        for x in self:
            if not any(x in o for o in others):
                out.add(x)
        return out

    def symmetric_difference(self, other):
        other = other if is_symset(other) else SymSet(other)
        return self.difference(other) | other.difference(self)

    def difference_update(self, *others):
        for o in others:
            for x in list(o):
                self.discard(x)

    def symmetric_difference_update(self, other):
        new = self.symmetric_difference(other)
        self.clear()
        self.update(new)

    def intersection_update(self, *others):
        keep = self.intersection(*others)
        for x in list(self):
            if x not in keep:
                self.discard(x)

    def issubset(self, other):
        other = other if is_symset(other) else SymSet(other)
        return all(x in other for x in self)

    def issuperset(self, other):
        return all(x in self for x in other)

    def isdisjoint(self, other):
        return not any(x in self for x in other)

    def _isset(self, o):
        return isinstance(o, (SymSet, set, frozenset, _SetOps)) or type(o).__name__ == "dict_keys"

    def __or__(self, o):
        return self.union(o) if self._isset(o) else NotImplemented

    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o) if self._isset(o) else NotImplemented

    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o) if self._isset(o) else NotImplemented

    def __rsub__(self, o):
        return SymSet(o).difference(self) if self._isset(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._isset(o) else NotImplemented

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, other):
        if not self._isset(other):
            return NotImplemented
        if len(self) != len(other):
            return False
        other = other if is_symset(other) else SymSet(other)
        return all(x in other for x in self)

    def __ne__(self, other):
        res = self.__eq__(other)
        return res if res is NotImplemented else not res

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self)) if self else "set()"


class SymFrozenSet(SymSet):
    __slots__ = ()
    _native = frozenset

    def __hash__(self):
        return hash(frozenset(self))

    def __sx_fixed__(self):
        return None if self._ix.sym else ("fs", frozenset(self._ix.index))
