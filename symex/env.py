"""What a harness sees.  The same harness runs symbolically (SymEnv) and, with
concrete inputs, against the unmodified code in a plain interpreter (NativeEnv).
"""
import asyncio
import importlib

from . import vloop


class AssumeFailed(BaseException):
    """Concrete inputs outside the harness's assumption"""


class CheckStop(BaseException):
    """Concrete run: stop after this violation"""


class BaseEnv:
    def __init__(self, params):
        self.params = params
        self.reached = []
        self.observations = []
        self._loop = None
        self.net = None
        self.own = []           # tasks whose outcome the harness looks at

    # ---------------------------------------------------------- structure
    def mod(self, name):
        return importlib.import_module(name)

    def reach(self, label):
        if label not in self.reached:
            self.reached.append(label)

    def observe(self, label, value):
        self.observations.append((label, value))

    def size(self, name, lo, hi):
        """A forked (per path concrete) integer"""
        return lo + self.choice_index(name, hi - lo + 1)

    def choice(self, name, options):
        options = list(options)
        return options[self.choice_index(name, len(options))]

    def flags(self, prefix, names):
        return {n: self.bool(prefix + n) for n in names}

    def attempt(self, fn, *args, **kwargs):
        """(result, exception)"""
        try:
            return fn(*args, **kwargs), None
        except Exception as exc:  # noqa: B902
            return None, exc

    # --------------------------------------------------------------- loop
    @property
    def loop(self):
        if self._loop is None:
            self.net = vloop.Net()
            self._loop = vloop.VirtualLoop(self.net)
            asyncio.set_event_loop(self._loop)
        return self._loop

    def run(self, coro):
        return self.loop.run_until_complete(self.task(coro))

    def attempt_run(self, coro):
        try:
            return self.run(coro), None
        except Exception as exc:  # noqa: B902
            return None, exc

    def now(self):
        return self.loop.time().t

    def at(self, ms, fn):
        self.loop.at(ms, fn)

    def task(self, coro):
        """Start a coroutine; its outcome can be read once it is done"""
        loop = self.loop
        loop._enter()
        try:
            task = loop.create_task(coro)
            self.own.append(task)
            return task
        finally:
            loop._leave()

    def settle(self):
        self.loop.settle()

    def run_until(self, ms):
        self.loop.run_until(ms)

    def inside(self, fn, *args):
        """Call a plain function as a loop callback would be called"""
        loop = self.loop
        loop._enter()
        try:
            return fn(*args)
        finally:
            loop._leave()

    def finish(self):
        if self._loop is not None:
            self._loop.close()
            asyncio.set_event_loop(None)


class NativeEnv(BaseEnv):
    symbolic = False

    def __init__(self, params, inputs):
        super().__init__(params)
        self.inputs = inputs
        self.violations = []

    def choice_index(self, name, n):
        return self.inputs.get(name, 0)

    def int(self, name, lo, hi):
        return self.inputs.get(name, lo)

    def byte(self, name):
        return self.inputs.get(name, 0)

    def bits(self, name, n):
        return self.inputs.get(name, 0)

    def bool(self, name):
        return bool(self.inputs.get(name, 0))

    def bytes(self, name, n):
        return bytes(self.inputs.get("%s[%d]" % (name, i), 0) for i in range(n))

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, msg):
        if not cond:
            self.violations.append(msg)
            raise CheckStop()

    def fail(self, msg):
        self.check(False, msg)

    def not_(self, a):
        return not a

    def and_(self, *args):
        return all(args)

    def or_(self, *args):
        return any(args)

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return a == b

    def member(self, x, items):
        return any(x == i for i in items)

    def pick(self, items, idx):
        return items[idx]


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, params, eng):
        super().__init__(params)
        self.eng = eng
        self.names = {}
        self.violations = []   # (msg, inputs)

    # ------------------------------------------------------------- inputs
    def _var(self, name, lo, hi):
        import z3
        from . import core
        if name in self.names:
            raise RuntimeError("input %r used twice" % name)
        if lo == hi:
            self.names[name] = lo
            return lo
        if lo == 0 and (hi & (hi + 1)) == 0:
            width = hi.bit_length()
            var = z3.BitVec(name, width)
            term = core.Term(z3.ZeroExt(1, var), lo, hi)
        else:
            width = core.nbits(lo, hi)
            var = z3.BitVec(name, width)
            self.eng.add(z3.And(var >= lo, var <= hi))
            term = core.Term(var, lo, hi)
        self.names[name] = term
        return term

    def int(self, name, lo, hi):
        from . import core
        return core.SymInt.from_value(self._var(name, lo, hi))

    def byte(self, name):
        return self.int(name, 0, 255)

    def bits(self, name, n):
        return self.int(name, 0, (1 << n) - 1)

    def bool(self, name):
        from . import core
        v = self._var(name, 0, 1)
        return core.SymBool.wrap(core.t_cmp("==", v, 1))

    def bytes(self, name, n):
        from .seq import SymBytes
        return SymBytes.of([self._var("%s[%d]" % (name, i), 0, 255) for i in range(n)])

    def choice_index(self, name, n):
        if n == 1:
            self.names[name] = 0
            return 0
        v = self._var(name, 0, n - 1)
        return self.eng.concretize(v.e, name)

    # --------------------------------------------------------- conditions
    def assume(self, cond):
        from . import core
        import z3
        c = core.bexpr(cond)
        if c is True:
            return
        if c is False:
            self.eng.abort(core.Infeasible())
        self.eng.learn(c)
        if self.eng.replaying:
            self.eng.solver.add(c)
            return
        c = self.eng.simp(c)
        if z3.is_true(c):
            return
        self.eng.add(c)
        self.eng.get_model()

    def check(self, cond, msg):
        from . import core
        import z3
        eng = self.eng
        eng.stats["checks"] += 1
        c = core.bexpr(cond)
        if c is True:
            eng.stats["checks_trivial"] += 1
            return
        given = c
        if c is not False and not eng.replaying:
            if eng.implied(c) is True:
                eng.stats["checks_trivial"] += 1
                return
            c = eng.simp(c)
            if z3.is_true(c):
                eng.stats["checks_trivial"] += 1
                return
            if z3.is_false(c):
                c = False
        if eng.replaying:
            # decided on the path this one was forked from
            if c is False:
                eng.abort(core.PathDone())
            eng.learn(given)
            eng.solver.add(c)
            return
        if c is False:
            model = eng.get_model()
            self.violations.append((msg, self.inputs(model)))
            eng.abort(core.PathDone())
        neg = z3.Not(c)
        if eng.check(neg):
            self.violations.append((msg, self.inputs(eng.last.model())))
            eng.solver.add(c)
            eng.model = None
            if not eng.check():
                eng.abort(core.PathDone())
        else:
            eng.solver.add(c)
        eng.learn(given)

    def fail(self, msg):
        self.check(False, msg)

    def not_(self, a):
        from . import core
        return core.not_(a)

    def and_(self, *args):
        from . import core
        return core.SymBool.wrap(core.b_and([core.bexpr(a) for a in args]))

    def or_(self, *args):
        from . import core
        return core.SymBool.wrap(core.b_or([core.bexpr(a) for a in args]))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def ite(self, c, a, b):
        from . import core
        cond = core.bexpr(c)
        if cond is True:
            return a
        if cond is False:
            return b
        return core.SymInt.from_value(core.t_ite(cond, core.value_of(a), core.value_of(b)))

    def eq(self, a, b):
        from . import coll, core
        return core.SymBool.wrap(coll.eq_expr(a, b))

    def member(self, x, items):
        return self.or_(*[self.eq(x, i) for i in items])

    def pick(self, items, idx):
        out = items[-1]
        for i in range(len(items) - 2, -1, -1):
            out = self.ite(self.eq(idx, i), items[i], out)
        return out

    # ------------------------------------------------------------- models
    def inputs(self, model):
        from . import core
        out = {}
        for name, term in self.names.items():
            if isinstance(term, core.Term):
                out[name] = model.eval(term.e, model_completion=True).as_signed_long()
            else:
                out[name] = term
        return out

    def observed(self, model):
        from . import core

        def val(t):
            return model.eval(t.e, model_completion=True).as_signed_long()

        return [(label, canon(v, val, model)) for label, v in self.observations]


def canon(x, val=None, model=None):
    """JSON form of an observed value"""
    tname = type(x).__name__
    if val is not None:
        import z3
        from . import coll, core, seq, shims, strs
        if type(x) is core.SymBool:
            return z3.is_true(model.eval(x._e, model_completion=True))
        if isinstance(x, core.SymInt) and not isinstance(x, (int, bool)):
            return val(x._v) if isinstance(x._v, core.Term) else x._v
        if isinstance(x, core.Term):
            return val(x)
        if type.__instancecheck__(core.SymFloat, x):
            return repr(val(x._f[0]) / x._f[1]) if isinstance(x._f, tuple) else repr(x._f)
        if isinstance(x, seq._Base) and hasattr(x, "_items"):
            return "0x" + bytes(val(i) if isinstance(i, core.Term) else i for i in x._items).hex()
        if isinstance(x, str):
            return strs.render_str(x, val)
        if isinstance(x, shims.SymIPv6Address):
            return "0x" + bytes(val(i) if isinstance(i, core.Term) else i for i in x._b).hex()
        if isinstance(x, coll.SymDict) and hasattr(x, "_ix"):
            return sorted(([canon(k, val, model), canon(v, val, model)] for k, v in x.items()), key=repr)
        if isinstance(x, vloop.VTime):
            return canon(x.t, val, model)
    if x is None or x is True or x is False:
        return x
    if isinstance(x, vloop.VTime):
        return canon(x.t)
    if isinstance(x, BaseException):
        return tname
    if isinstance(x, type):
        return x.__name__
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return repr(float(x))
    if isinstance(x, str):
        return str(x)
    if isinstance(x, (bytes, bytearray)):
        return "0x" + bytes(x).hex()
    if isinstance(x, (list, tuple)):
        return [canon(i, val, model) for i in x]
    if isinstance(x, dict):
        return sorted(([canon(k, val, model), canon(v, val, model)] for k, v in x.items()), key=repr)
    if hasattr(x, "packed"):
        return "0x" + bytes(x.packed).hex()
    if hasattr(type(x), "__int__"):
        return canon(int(x) if val is None else type(x).__int__(x), val, model)
    return "<%s>" % tname
