"""Symbolic execution core: path exploration and symbolic scalars.

The implementation under test is executed by CPython itself; the values flowing
through it are the classes below.  A conditional on a symbolic value ends in
``Engine.fork`` (via ``__bool__``), which asks the solver which sides are
feasible and schedules the other side as a new path.  Paths are explored by
re-execution with a recorded decision prefix.
"""
import time
import z3

from . import diff
import z3.z3

z3.z3.Z3_DEBUG = False


class PathAbort(KeyboardInterrupt):
    """Engine control flow. KeyboardInterrupt so asyncio tasks re-raise it."""


class Infeasible(PathAbort):
    """Assumption does not hold on this path"""


class PathDone(PathAbort):
    """Path ended deliberately"""


class Unsupported(PathAbort):
    """The encoding cannot represent what the code does: inconclusive"""


class Budget(PathAbort):
    """Out of time: inconclusive"""


class Endless(PathAbort):
    """The code under test runs on without the solver being asked: it may never end"""


ENG = None  # current engine (one per process)


def engine():
    if ENG is None:
        raise Unsupported("no engine active")
    return ENG


class Path:
    """The incremental solver of one path, and what was asserted in it.

    The solver simplifies what it is given and afterwards only knows the result,
    over names of its own, so its assertions() are of no use to another solver."""

    def __init__(self):
        self.inner = z3.SolverFor("QF_BV")
        self.asserted = []
        self.marks = []

    def add(self, cond):
        self.inner.add(cond)
        self.asserted.append(cond)

    def push(self):
        self.inner.push()
        self.marks.append(len(self.asserted))

    def pop(self):
        self.inner.pop()
        del self.asserted[self.marks.pop():]

    def check(self, timeout_ms, *extra):
        self.inner.set("timeout", timeout_ms)
        return self.inner.check(*extra)

    def rebuild(self):
        """A solver that was stopped half-way may have lost what it was busy with"""
        self.inner = z3.SolverFor("QF_BV")
        done = 0
        for mark in self.marks:
            self.inner.add(*self.asserted[done:mark])
            self.inner.push()
            done = mark
        self.inner.add(*self.asserted[done:])

    def model(self):
        return self.inner.model()

    def reason_unknown(self):
        return self.inner.reason_unknown()


class Engine:
    def __init__(self, timeout_ms=120000, first_ms=300, concretize_limit=300, step_limit=200000):
        self.timeout_ms = timeout_ms
        self.first_ms = first_ms
        self.last = None
        self.concretize_limit = concretize_limit
        self.step_limit = step_limit
        self.stats = dict(
            queries=0, sat=0, unsat=0, solver_s=0.0, paths=0, branches=0,
            forced=0, infeasible=0, concretized=0, checks=0, checks_trivial=0, retries=0, differences=0,
        )
        self.stack = []
        self.deadline = None
        self.solving = False
        self.careful = False

    # ------------------------------------------------------------ one path
    def begin(self, prefix, model=None):
        """Start a path.  ``prefix`` lists the outcome of every decision to repeat;
        ``model`` (optional) satisfies the path condition at its end."""
        self.solver = Path()
        self.prefix = prefix
        self.inherited = model
        self.decisions = []
        self.pos = 0
        self.model = None
        self.known = {}
        self.keep = []
        self.lazy = []
        self.pins = []
        self.pinned = {}
        self.vars = {}
        self.aborted = None
        self.steps = 0
        self.spawned = []
        self.tokens = []
        self.token_index = {}
        self.memfs = None
        self.bounds = diff.Bounds()
        self.canon = {}
        self.shapes = {}
        self.pending = []

    # --------------------------------------------- difference constraints
    def difference(self, op, terms, c):
        """(sum of terms) + c compared with zero, as a z3 expression known to ``bounds``"""
        pos = [leaf for k, leaf in terms.values() if k == 1]
        neg = [leaf for k, leaf in terms.values() if k == -1]
        i, j = pos[0] if pos else None, neg[0] if neg else None
        if op == "==":
            c = -c
            flip = (i.key if i else 0) > (j.key if j else 0)
            if flip:
                i, j, c = j, i, -c
            kind = "eq"
        else:
            c = -c - (1 if op == "<" else 0)        # i - j <= c
            flip = (i.key if i else 0) > (j.key if j else 0)
            if flip:
                # not (j - i <= -c - 1)
                i, j, c = j, i, -c - 1
            kind = "le"
        key = (kind, i.key if i else 0, j.key if j else 0, c)
        expr = self.canon.get(key)
        if expr is None:
            left = i.e if i else 0
            right = j.e if j else 0
            if c >= 0:
                right = t_add(right, c)
            else:
                left = t_add(left, -c)
            expr = cmp_plain("==" if kind == "eq" else "<=", left, right)
            if expr is not True and expr is not False:
                self.shapes[expr.get_id()] = (kind, i, j, c)
            self.canon[key] = expr
        return b_not(expr) if flip and kind == "le" else expr

    def _shape(self, cond):
        value = True
        while z3.is_not(cond):
            cond, value = cond.arg(0), not value
        shape = self.shapes.get(cond.get_id())
        return shape, value

    def learn(self, cond, value=True):
        """A condition holds on this path"""
        if cond is True or cond is False:
            return
        while z3.is_not(cond):
            cond, value = cond.arg(0), not value
        if z3.is_and(cond) and value:
            for part in cond.children():
                self.learn(part)
            return
        if cond.get_id() in self.shapes:
            self.pending.append((self.shapes[cond.get_id()], value))

    def _absorb(self):
        todo, self.pending = self.pending, []
        b = self.bounds
        for (kind, i, j, c), value in todo:
            x = b.node(i) if i else 0
            y = b.node(j) if j else 0
            if kind == "eq":
                (b.eq if value else b.ne)(x, y, c)
            elif value:
                b.le(x, y, c)
            else:
                b.le(y, x, -c - 1)

    def implied(self, cond):
        """True or False if the difference constraints settle it"""
        shape, value = self._shape(cond)
        if shape is None:
            return None
        self._absorb()
        kind, i, j, c = shape
        b = self.bounds
        x = b.node(i) if i else 0
        y = b.node(j) if j else 0
        res = b.ask_eq(x, y, c) if kind == "eq" else b.ask_le(x, y, c)
        if res is None:
            return None
        self.stats["differences"] += 1
        return res == value

    def abort(self, exc):
        self.aborted = exc
        raise exc

    def _guard(self):
        if self.aborted is not None:
            raise self.aborted
        self.steps += 1
        if self.steps > self.step_limit:
            self.abort(Endless("more than %d decisions on one path" % self.step_limit))

    @property
    def replaying(self):
        return self.pos < len(self.prefix)

    def _replay(self, tags):
        """Next recorded decision"""
        entry = self.prefix[self.pos]
        tag = entry[0] if isinstance(entry, tuple) else "b"
        if tag not in tags:
            self.abort(Unsupported("decision replay out of step"))
        self.pos += 1
        self.decisions.append(entry)
        if self.pos == len(self.prefix) and self.inherited is not None:
            self.model = self.inherited
        return entry

    def _log(self, entry):
        self.pos += 1
        self.decisions.append(entry)

    def check(self, *extra):
        if self.aborted is not None:
            raise self.aborted
        self.stats["queries"] += 1
        if self.deadline is not None and time.monotonic() > self.deadline:
            self.abort(Budget("time budget exhausted"))
        start = time.perf_counter()
        self.solving = True
        self.last = self.solver
        res = z3.unknown if self.careful else self.solver.check(self.first_ms, *extra)
        if res == z3.unknown:
            # the incremental solver is at times far slower than a fresh one
            self.stats["retries"] += 1
            self.last = z3.Tactic("qfbv").solver()
            self.last.set("timeout", self.timeout_ms)
            self.last.add(*self.solver.asserted)
            self.last.add(*extra)
            res = self.last.check()
            if not self.careful:
                self.solver.rebuild()
        self.stats["solver_s"] += time.perf_counter() - start
        self.solving = False
        if res == z3.unknown:
            self.abort(Unsupported("solver answered unknown: %s" % self.last.reason_unknown()))
        if res == z3.sat:
            self.stats["sat"] += 1
            return True
        self.stats["unsat"] += 1
        return False

    def get_model(self):
        if self.model is None:
            if not self.check():
                self.stats["infeasible"] += 1
                self.abort(Infeasible())
            self.model = self.last.model()
        return self.model

    def add(self, cond):
        self.solver.add(cond)
        if self.model is not None:
            val = self.model.eval(cond, model_completion=True)
            if not z3.is_true(val):
                self.model = None

    def simp(self, expr):
        if self.pins:
            expr = z3.substitute(expr, *self.pins)
        return z3.simplify(expr)

    def _remember(self, cond, value):
        self.keep.append(cond)
        self.known[cond.get_id()] = value
        neg = z3.simplify(z3.Not(cond))
        self.keep.append(neg)
        self.known[neg.get_id()] = not value

    def _catch_up(self):
        """Enter what the replayed decisions established into the known facts"""
        if self.lazy:
            todo, self.lazy = self.lazy, []
            for cond, value in todo:
                self._remember(self.simp(cond), value)

    def fork(self, cond) -> bool:
        """Decide a symbolic condition on this path"""
        self._guard()
        if self.pos < len(self.prefix):
            value = self._replay("b")
            if value is True or value is False:
                self.solver.add(cond if value else z3.Not(cond))
                self.lazy.append((cond, value))
                self.learn(cond, value)
                return value
            if value in ("T", "F"):     # forced: implied by the path already
                self.lazy.append((cond, value == "T"))
                self.learn(cond, value == "T")
            return value in ("T", "t")
        self._catch_up()
        value = self.implied(cond)
        if value is not None:
            self._log("t" if value else "f")
            return value
        given = cond
        cond = self.simp(cond)
        if z3.is_true(cond) or z3.is_false(cond):
            value = z3.is_true(cond)
            self._log("t" if value else "f")
            return value
        known = self.known.get(cond.get_id())
        if known is not None:
            self._log("t" if known else "f")
            return known
        model = self.get_model()
        value = z3.is_true(model.eval(cond, model_completion=True))
        other = z3.Not(cond) if value else cond
        if self.check(other):
            self.stats["branches"] += 1
            self.spawned.append((self.decisions + [not value], self.last.model()))
            self._log(value)
            self.solver.add(cond if value else z3.Not(cond))
        else:
            self.stats["forced"] += 1
            self._log("T" if value else "F")
        self._remember(cond, value)
        self.learn(given, value)
        return value

    def entails(self, cond):
        """True if cond holds on every model of the path, False if it can fail"""
        cond = self.simp(cond)
        if z3.is_true(cond):
            return True
        return not self.check(z3.Not(cond))

    def _pin(self, expr, val):
        """Remember an expression whose value is fixed on this path"""
        core = expr
        while z3.is_app(core) and core.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
            core = core.arg(0)
        if z3.is_const(core) and core.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if core.get_id() not in self.pinned:
                self.pinned[core.get_id()] = val
                self.keep.append(core)
                self.pins.append((core, z3.BitVecVal(val, core.size())))

    def _fixed(self, expr, value):
        self.keep.append(expr)
        self.known[("v", expr.get_id())] = value
        self._pin(expr, value)

    def concretize(self, expr, what="int") -> int:
        """Fork over every feasible value of a bit-vector expression (signed)"""
        self._guard()
        if self.pos < len(self.prefix):
            tag, value = self._replay("vV")
            if tag == "v":
                self.solver.add(expr == z3.BitVecVal(value, expr.size()))
                self._fixed(z3.simplify(expr), value)
            return value
        self._catch_up()
        expr = self.simp(expr)
        known = expr.as_signed_long() if z3.is_bv_value(expr) else self.known.get(("v", expr.get_id()))
        if known is not None:
            self._log(("V", known))
            return known
        values = []
        self.solver.push()
        model = self.get_model()
        while True:
            val = model.eval(expr, model_completion=True).as_signed_long()
            values.append((val, model))
            if len(values) > self.concretize_limit:
                self.solver.pop()
                self.abort(Unsupported("%s: more than %d values to enumerate" % (what, self.concretize_limit)))
            self.solver.add(expr != z3.BitVecVal(val, expr.size()))
            if not self.check():
                break
            model = self.last.model()
        self.solver.pop()
        self.stats["concretized"] += 1
        self.stats["branches"] += len(values) - 1
        for other, mod in values[1:]:
            self.spawned.append((self.decisions + [("v", other)], mod))
        value = values[0][0]
        self._log(("v", value))
        if len(values) > 1:
            self.solver.add(expr == z3.BitVecVal(value, expr.size()))
        self._fixed(expr, value)
        return value

    def choose(self, conds):
        """Index of the first condition that holds, or None; forks over all feasible ones.

        conds: list of z3 booleans / python bools"""
        self._guard()

        def region(items, pick):
            terms = []
            for idx, cond in items:
                if idx == pick:
                    terms.append(cond)
                    break
                terms.append(z3.Not(cond))
            return z3.And(*terms) if len(terms) > 1 else terms[0]

        if self.pos < len(self.prefix):
            tag, pick = self._replay("cC")
            if tag == "c":
                items = [(i, c) for i, c in enumerate(conds) if c is not False]
                items = [(i, z3.BoolVal(True) if c is True else c) for i, c in items]
                self.solver.add(region(items, pick))
                for idx, cond in items:
                    self.lazy.append((cond, idx == pick))
                    if idx == pick:
                        self._pin_eq(z3.simplify(cond))
                        break
            return pick
        self._catch_up()
        live = []
        for idx, cond in enumerate(conds):
            if cond is True:
                live.append((idx, z3.BoolVal(True)))
                break
            if cond is False:
                continue
            cond = self.simp(cond)
            if z3.is_false(cond) or self.known.get(cond.get_id()) is False:
                continue
            if self.known.get(cond.get_id()) is True:
                cond = z3.BoolVal(True)
            live.append((idx, cond))
            if z3.is_true(cond):
                break
        if not live or z3.is_true(live[0][1]):
            pick = live[0][0] if live else None
            self._log(("C", pick))
            return pick
        picks = []
        self.solver.push()
        model = self.get_model()
        while True:
            pick = None
            for idx, cond in live:
                if z3.is_true(model.eval(cond, model_completion=True)):
                    pick = idx
                    break
            picks.append((pick, model))
            self.solver.add(z3.Not(region(live, pick)))
            if not self.check():
                break
            model = self.last.model()
        self.solver.pop()
        self.stats["branches"] += len(picks) - 1
        for other, mod in picks[1:]:
            self.spawned.append((self.decisions + [("c", other)], mod))
        pick = picks[0][0]
        self._log(("c", pick))
        if len(picks) > 1:
            self.solver.add(region(live, pick))
        for idx, cond in live:
            if idx == pick:
                self._remember(cond, True)
                self._pin_eq(cond)
                break
            self._remember(cond, False)
        return pick

    def choose_key(self, expr, keys):
        """Which of the distinct integers ``keys`` the bit-vector equals (signed), or None"""
        self._guard()
        size = expr.size()
        lo, hi = -(1 << (size - 1)), (1 << (size - 1)) - 1
        live = sorted(k for k in keys if lo <= k <= hi)

        def none(e):
            return z3.And(*[e != z3.BitVecVal(k, size) for k in live])

        if self.pos < len(self.prefix):
            tag, pick = self._replay("kK")
            if tag == "k":
                self.solver.add(none(expr) if pick is None else expr == z3.BitVecVal(pick, size))
                if pick is not None:
                    self._fixed(z3.simplify(expr), pick)
                else:
                    simple = z3.simplify(expr)
                    self.keep.append(simple)
                    self.known[("k", simple.get_id(), tuple(live))] = True
            return pick
        self._catch_up()
        expr = self.simp(expr)
        known = expr.as_signed_long() if z3.is_bv_value(expr) else self.known.get(("v", expr.get_id()))
        memo = ("k", expr.get_id(), tuple(live))
        if known is not None or not live or memo in self.known:
            pick = known if known is not None and known in live else None
            self._log(("K", pick))
            return pick
        liveset = set(live)
        picks = []
        self.solver.push()
        model = self.get_model()
        while True:
            val = model.eval(expr, model_completion=True).as_signed_long()
            if val in liveset:
                picks.append((val, model))
                self.solver.add(expr != z3.BitVecVal(val, size))
            else:
                picks.append((None, model))
                self.solver.add(z3.Not(none(expr)))
            if not self.check():
                break
            model = self.last.model()
        self.solver.pop()
        self.stats["branches"] += len(picks) - 1
        for other, mod in picks[1:]:
            self.spawned.append((self.decisions + [("k", other)], mod))
        pick = picks[0][0]
        self._log(("k", pick))
        if len(picks) > 1:
            self.solver.add(none(expr) if pick is None else expr == z3.BitVecVal(pick, size))
        if pick is None:
            self.keep.append(expr)
            self.known[memo] = True
        else:
            self._fixed(expr, pick)
        return pick

    def _pin_eq(self, cond):
        if z3.is_eq(cond):
            left, right = cond.arg(0), cond.arg(1)
            if z3.is_bv_value(left):
                left, right = right, left
            if z3.is_bv_value(right) and z3.is_bv(left):
                self._pin(left, right.as_long())


# --------------------------------------------------------------------- terms
class Term:
    """A bit-vector read as a signed integer, with an interval that contains it"""

    __slots__ = ("e", "lo", "hi", "lin")

    def __init__(self, e, lo, hi, lin=None):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.lin = lin


MAX_LIN = 12


def linear(v):
    """({key: (coefficient, leaf)}, constant)"""
    if not isinstance(v, Term):
        return {}, v
    if v.lin is None:
        e, zero = v.e, 0
        while z3.is_app(e):
            kind = e.decl().kind()
            if kind == z3.Z3_OP_ZERO_EXT:
                zero = 1
            elif kind != z3.Z3_OP_SIGN_EXT or zero:
                break
            e = e.arg(0)
        # read as signed and read as unsigned are two different numbers
        leaf = diff.Leaf(e.get_id() * 2 + 2 + zero, v, v.lo, v.hi)
        v.lin = ({leaf.key: (1, leaf)}, 0)
    return v.lin


def lin_sum(a, b, sign):
    (ta, ca), (tb, cb) = linear(a), linear(b)
    if len(ta) + len(tb) > MAX_LIN:
        return None
    out = dict(ta)
    for key, (k, leaf) in tb.items():
        k = k * sign + (out[key][0] if key in out else 0)
        if k:
            out[key] = (k, leaf)
        else:
            del out[key]
    return out, ca + sign * cb


def lin_scale(v, k):
    terms, c = linear(v)
    return {key: (q * k, leaf) for key, (q, leaf) in terms.items()}, c * k


def lin_term(terms, const):
    out = const
    for key in sorted(terms):
        k, leaf = terms[key]
        out = t_add(out, leaf.e if k == 1 else t_mul(leaf.e, k))
    return out


def nbits(lo, hi):
    """Width of a signed vector holding lo..hi"""
    return max((~lo if lo < 0 else lo).bit_length(), (~hi if hi < 0 else hi).bit_length()) + 1


def fit(e, w):
    size = e.size()
    if size < w:
        return z3.SignExt(w - size, e)
    if size > w:
        return z3.Extract(w - 1, 0, e)
    return e


def mk(e, lo, hi, lin=None):
    """Normalise: native int when the value is fixed"""
    if lo == hi:
        return lo
    return Term(fit(e, nbits(lo, hi)), lo, hi, lin)


def tv(v, w):
    """Operand as bit-vector of width w"""
    if isinstance(v, Term):
        return fit(v.e, w)
    return z3.BitVecVal(v, w)


def lim(v):
    if isinstance(v, Term):
        return v.lo, v.hi
    return v, v


def byte_term(e):
    """8 bit vector -> unsigned term"""
    e8 = z3.simplify(e)
    if z3.is_bv_value(e8):
        return e8.as_long()
    return Term(z3.ZeroExt(1, e8), 0, 255)


def t_add(a, b):
    (al, ah), (bl, bh) = lim(a), lim(b)
    lo, hi = al + bl, ah + bh
    w = nbits(lo, hi)
    w = max(w, nbits(al, ah), nbits(bl, bh))
    return mk(tv(a, w) + tv(b, w), lo, hi, lin_sum(a, b, 1))


def t_neg(a):
    return t_sub(0, a)


def t_sub(a, b):
    (al, ah), (bl, bh) = lim(a), lim(b)
    lo, hi = al - bh, ah - bl
    w = max(nbits(lo, hi), nbits(al, ah), nbits(bl, bh))
    return mk(tv(a, w) - tv(b, w), lo, hi, lin_sum(a, b, -1))


def t_mul(a, b):
    (al, ah), (bl, bh) = lim(a), lim(b)
    prods = [al * bl, al * bh, ah * bl, ah * bh]
    lo, hi = min(prods), max(prods)
    w = max(nbits(lo, hi), nbits(al, ah), nbits(bl, bh))
    lin = None
    if al == ah:
        lin = lin_scale(b, al)
    elif bl == bh:
        lin = lin_scale(a, bl)
    return mk(tv(a, w) * tv(b, w), lo, hi, lin)


def _mask_up(v):
    return (1 << v.bit_length()) - 1


def t_and(a, b):
    (al, ah), (bl, bh) = lim(a), lim(b)
    w = max(nbits(al, ah), nbits(bl, bh))
    his = []
    if al >= 0:
        his.append(ah)
    if bl >= 0:
        his.append(bh)
    if his:
        lo, hi = 0, min(his)
    else:
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return mk(tv(a, w) & tv(b, w), lo, hi)


def t_or(a, b):
    (al, ah), (bl, bh) = lim(a), lim(b)
    w = max(nbits(al, ah), nbits(bl, bh))
    if al >= 0 and bl >= 0:
        lo, hi = max(al, bl), _mask_up(max(ah, bh))
    else:
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return mk(tv(a, w) | tv(b, w), lo, hi)


def t_xor(a, b):
    (al, ah), (bl, bh) = lim(a), lim(b)
    w = max(nbits(al, ah), nbits(bl, bh))
    if al >= 0 and bl >= 0:
        lo, hi = 0, _mask_up(max(ah, bh))
    else:
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return mk(tv(a, w) ^ tv(b, w), lo, hi)


def t_cmp(op, a, b):
    """bool or z3 bool"""
    (al, ah), (bl, bh) = lim(a), lim(b)
    if op == "==":
        if ah < bl or bh < al:
            return False
        if al == ah == bl == bh:
            return True
    elif op == "<":
        if ah < bl:
            return True
        if al >= bh:
            return False
    elif op == "<=":
        if ah <= bl:
            return True
        if al > bh:
            return False
    d = lin_sum(a, b, -1)
    if d is not None:
        return cmp_zero(op, d, a, b)
    return cmp_plain(op, a, b)


def cmp_zero(op, d, a, b):
    """a - b compared with zero, in a form that is the same for the same question"""
    terms, c = d
    if not terms:
        return c == 0 if op == "==" else c < 0 if op == "<" else c <= 0
    if len(terms) <= 2 and all(k in (1, -1) for k, _l in terms.values()) and sum(
            k for k, _l in terms.values()) in ((0,) if len(terms) == 2 else (1, -1)):
        return engine().difference(op, terms, c)
    if len(terms) < len(linear(a)[0]) + len(linear(b)[0]):
        # something cancels out
        pos = {key: t for key, t in terms.items() if t[0] > 0}
        neg = {key: (-t[0], t[1]) for key, t in terms.items() if t[0] < 0}
        a, b = lin_term(pos, max(c, 0)), lin_term(neg, max(-c, 0))
    return cmp_plain(op, a, b)


def cmp_plain(op, a, b):
    (al, ah), (bl, bh) = lim(a), lim(b)
    if op == "==":
        if ah < bl or bh < al:
            return False
        if al == ah == bl == bh:
            return True
    elif op == "<":
        if ah < bl:
            return True
        if al >= bh:
            return False
    elif op == "<=":
        if ah <= bl:
            return True
        if al > bh:
            return False
    w = max(nbits(al, ah), nbits(bl, bh))
    x, y = tv(a, w), tv(b, w)
    if op == "==":
        return x == y
    if op == "<":
        return x < y
    return x <= y


def b_not(c):
    if c is True or c is False:
        return not c
    return z3.Not(c)


def b_and(items):
    out = []
    for c in items:
        if c is False:
            return False
        if c is True:
            continue
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(items):
    out = []
    for c in items:
        if c is True:
            return True
        if c is False:
            continue
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def t_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    (al, ah), (bl, bh) = lim(a), lim(b)
    lo, hi = min(al, bl), max(ah, bh)
    w = nbits(lo, hi)
    return mk(z3.If(c, tv(a, w), tv(b, w)), lo, hi)


def decide(c) -> bool:
    if c is True or c is False:
        return c
    return engine().fork(c)


MAX_SHIFT = 4096


def t_shl(a, b):
    bl, bh = lim(b)
    if bl < 0:
        if decide(t_cmp("<", b, 0)):
            raise ValueError("negative shift count")
        bl = 0
        bh = max(bh, 0)
    if not isinstance(b, Term):
        return t_mul(a, 1 << b)
    if bh > 256:
        val = engine().concretize(b.e, "shift count")
        return t_mul(a, 1 << val)
    al, ah = lim(a)
    lo, hi = min(al << bl, al << bh), max(ah << bl, ah << bh)
    w = max(nbits(lo, hi), nbits(al, ah), nbits(0, bh))
    return mk(tv(a, w) << tv(b, w), lo, hi)


def t_shr(a, b):
    bl, bh = lim(b)
    if bl < 0:
        if decide(t_cmp("<", b, 0)):
            raise ValueError("negative shift count")
        bl = 0
        bh = max(bh, 0)
    al, ah = lim(a)
    cands = [al >> bl, al >> bh, ah >> bl, ah >> bh]
    lo, hi = min(cands), max(cands)
    w = max(nbits(al, ah), nbits(0, bh))
    return mk(tv(a, w) >> tv(b, w), lo, hi)


def t_divmod(a, b):
    """Floor division and modulo, Python semantics"""
    bl, bh = lim(b)
    if bl <= 0 <= bh:
        if decide(t_cmp("==", b, 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
    if not isinstance(b, Term) and b > 0 and b & (b - 1) == 0:
        return t_shr(a, b.bit_length() - 1), t_and(a, b - 1)
    al, ah = lim(a)
    m = max(abs(al), abs(ah))
    bm = max(abs(bl), abs(bh))
    w = max(nbits(-m - 1, m + 1), nbits(-bm - 1, bm + 1)) + 1
    x, y = tv(a, w), tv(b, w)
    if al >= 0 and bl > 0:
        q = z3.UDiv(x, y)
        r = z3.URem(x, y)
        return mk(q, 0, ah // bl), mk(r, 0, min(ah, bh - 1))
    q = x / y  # truncating signed division
    r = z3.SRem(x, y)
    adjust = z3.And(r != 0, (r < 0) != (y < 0))
    q = z3.If(adjust, q - 1, q)
    r = z3.If(adjust, r + y, r)
    return mk(q, -m - 1, m + 1), mk(r, -bm, bm)


# ------------------------------------------------------------------ SymBool
class BoolMeta(type):
    def __instancecheck__(cls, obj):
        return type.__instancecheck__(cls, obj) or (cls is SymBool and isinstance(obj, bool))

    def __subclasscheck__(cls, sub):
        return type.__subclasscheck__(cls, sub) or (cls is SymBool and sub is bool)

    def __call__(cls, *args):
        if cls is SymBool:
            return to_bool(*args)
        return type.__call__(cls, *args)


class SymBool(metaclass=BoolMeta):
    """A boolean with a symbolic value. Also stands for ``bool`` in loaded code"""

    __slots__ = ("_e",)
    __slotnames__ = []
    __name__ = "bool"

    @staticmethod
    def wrap(c):
        if c is True or c is False:
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        obj = object.__new__(SymBool)
        obj._e = c
        return obj

    def __bool__(self):
        return engine().fork(self._e)

    def _int(self):
        return Term(z3.If(self._e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __index__(self):
        return 1 if self.__bool__() else 0

    __int__ = __index__

    def __float__(self):
        return 1.0 if self.__bool__() else 0.0

    def __hash__(self):
        return hash(self.__bool__())

    def __eq__(self, other):
        if isinstance(other, bool):
            return self if other else SymBool.wrap(z3.Not(self._e))
        if type(other) is SymBool:
            return SymBool.wrap(self._e == other._e)
        v = value_of(other)
        if v is NotImplemented:
            return NotImplemented
        return SymBool.wrap(t_cmp("==", self._int(), v))

    def __ne__(self, other):
        res = self.__eq__(other)
        return res if res is NotImplemented else not_(res)

    def __and__(self, other):
        if isinstance(other, (bool, SymBool)):
            return SymBool.wrap(b_and([self._e, bexpr(other)]))
        return SymInt.from_value(self._int()) & other

    __rand__ = __and__

    def __or__(self, other):
        if isinstance(other, (bool, SymBool)):
            return SymBool.wrap(b_or([self._e, bexpr(other)]))
        return SymInt.from_value(self._int()) | other

    __ror__ = __or__

    def __xor__(self, other):
        if isinstance(other, (bool, SymBool)):
            return SymBool.wrap(self._e != bexpr(other)) if type(other) is SymBool else (not_(self) if other else self)
        return SymInt.from_value(self._int()) ^ other

    __rxor__ = __xor__

    def __invert__(self):
        return ~SymInt.from_value(self._int())

    def __str__(self):
        from . import strs
        return strs.bool_token(self._int())

    __repr__ = __str__

    def __format__(self, spec):
        if not spec:
            return self.__str__()
        return format(self.__bool__(), spec)

    def to_bytes(self, *args, **kwargs):
        return SymInt.from_value(self._int()).to_bytes(*args, **kwargs)

    def bit_length(self):
        return SymInt.from_value(self._int())


def _bool_arith(name):
    def method(self, other):
        return getattr(SymInt.from_value(self._int()), name)(other)
    return method


for _n in ("__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __lshift__ __rlshift__ __rshift__ "
           "__rrshift__ __floordiv__ __rfloordiv__ __mod__ __rmod__ __lt__ __le__ __gt__ __ge__ "
           "__truediv__ __rtruediv__ __pow__ __rpow__").split():
    setattr(SymBool, _n, _bool_arith(_n))


def bexpr(x):
    """python/Sym boolean -> bool or z3 bool"""
    if x is True or x is False:
        return x
    if type(x) is SymBool:
        return x._e
    if is_symint(x) or type(x) is int:
        return b_not(t_cmp("==", value_of(x), 0))
    return bool(x)


def not_(x):
    return SymBool.wrap(b_not(bexpr(x)))


def to_bool(*args):
    if not args:
        return False
    x = args[0]
    if x is True or x is False or type(x) is SymBool:
        return x
    if is_symint(x) and type(x).__bool__ is SymInt.__bool__:
        return SymBool.wrap(b_not(t_cmp("==", x._v, 0)))
    direct = getattr(type(x), "__sx_bool__", None)
    if direct is not None:
        res = direct(x)
        if type(res) is SymBool or isinstance(res, bool):
            return res
    return bool(x)


def is_symint(x):
    """A SymInt (or subclass) instance, not a native int"""
    return type.__instancecheck__(SymInt, x)


def is_symfloat(x):
    return type.__instancecheck__(SymFloat, x)


def value_of(x):
    """Operand as native int or Term; NotImplemented when it is not an integer"""
    if type(x) is int:
        return x
    if is_symint(x):
        return x._v
    if type(x) is SymBool:
        return x._int()
    if isinstance(x, int):
        return int(x)
    return NotImplemented


# ------------------------------------------------------------------- SymInt
class IntMeta(type):
    def __instancecheck__(cls, obj):
        return type.__instancecheck__(cls, obj) or (cls is SymInt and (isinstance(obj, int) or type(obj) is SymBool))

    def __subclasscheck__(cls, sub):
        return type.__subclasscheck__(cls, sub) or (
            cls is SymInt and isinstance(sub, type) and (type.__subclasscheck__(int, sub) or sub is SymBool)
        )

    def __eq__(cls, other):
        return cls is other or (cls is SymInt and other is int)

    def __hash__(cls):
        return type.__hash__(cls)


def _is_native_int(x):
    return isinstance(x, int)


class SymInt(metaclass=IntMeta):
    """``int`` for loaded code: exact Python integers, possibly symbolic"""

    __slots__ = ("_v",)
    __slotnames__ = []

    def __init_subclass__(cls, **kwargs):
        super().__init_subclass__(**kwargs)
        cls.__slotnames__ = []

    def __new__(cls, value=0, *args, **kwargs):
        base = kwargs.get("base", args[0] if args else None)
        v = parse_int(value, base)
        if cls is SymInt and not isinstance(v, Term):
            return v
        obj = object.__new__(cls)
        obj._v = v
        return obj

    @staticmethod
    def from_value(v):
        if not isinstance(v, Term):
            return v
        obj = object.__new__(SymInt)
        obj._v = v
        return obj

    # -------------------------------------------------------- conversions
    def _concrete(self, what="int"):
        if isinstance(self._v, Term):
            val = engine().concretize(self._v.e, what)
            self._v = val
        return self._v

    def __index__(self):
        return self._concrete("index")

    def __int__(self):
        return self._concrete("int()")

    def __trunc__(self):
        return SymInt.from_value(self._v)

    __floor__ = __ceil__ = __trunc__

    def __round__(self, ndigits=None):
        if ndigits is None:
            return SymInt.from_value(self._v)
        return round(self._concrete("round"), ndigits)

    def __float__(self):
        return float(self._concrete("float()"))

    def __complex__(self):
        return complex(self._concrete("complex()"))

    def __hash__(self):
        return hash(self._concrete("hash"))

    def __bool__(self):
        return decide(b_not(t_cmp("==", self._v, 0)))

    def __str__(self):
        rep = type(self).__repr__
        return rep(self) if rep is not SymInt.__repr__ else SymInt.__repr__(self)

    def __repr__(self):
        if not isinstance(self._v, Term):
            return repr(self._v)
        from . import strs
        return strs.int_token(self._v, "")

    def __format__(self, spec):
        if not isinstance(self._v, Term):
            return format(self._v, spec) if spec else str(self)
        from . import strs
        if not spec:
            return str(self)
        return strs.int_token(self._v, spec)

    # ----------------------------------------------------------- misc API
    @property
    def real(self):
        return SymInt.from_value(self._v)

    numerator = real

    @property
    def imag(self):
        return 0

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return SymInt.from_value(self._v)

    def is_integer(self):
        return True

    def as_integer_ratio(self):
        return (SymInt.from_value(self._v), 1)

    def bit_length(self):
        v = self._v
        if not isinstance(v, Term):
            return v.bit_length()
        a = t_ite(t_cmp("<", v, 0), t_neg(v), v)
        _, hi = lim(a)
        out = 0
        for i in range(hi.bit_length()):
            out = t_ite(t_cmp("<=", 1 << i, a), i + 1, out)
        return SymInt.from_value(out)

    def bit_count(self):
        v = self._v
        if not isinstance(v, Term):
            return v.bit_count()
        a = t_ite(t_cmp("<", v, 0), t_neg(v), v)
        _, hi = lim(a)
        out = 0
        for i in range(hi.bit_length()):
            out = t_add(out, t_and(t_shr(a, i), 1))
        return SymInt.from_value(out)

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from .seq import SymBytes
        length = length.__index__()
        if length < 0:
            raise ValueError("length argument must be non-negative")
        if byteorder not in ("big", "little"):
            raise ValueError("byteorder must be either 'little' or 'big'")
        v = self._v
        if not isinstance(v, Term):
            return SymBytes(v.to_bytes(length, byteorder, signed=bool(signed)))
        signed = bool(signed)
        if signed:
            lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if length else (0, 0)
        else:
            lo, hi = 0, (1 << (8 * length)) - 1
            if decide(t_cmp("<", v, 0)):
                raise OverflowError("can't convert negative int to unsigned")
        if not decide(b_and([t_cmp("<=", lo, v), t_cmp("<=", v, hi)])):
            raise OverflowError("int too big to convert")
        if length == 0:
            return SymBytes(b"")
        w = 8 * length
        e = fit(v.e, w)
        items = [byte_term(z3.Extract(8 * i + 7, 8 * i, e)) for i in range(length)]
        if byteorder == "big":
            items.reverse()
        return SymBytes.of(items)

    @classmethod
    def from_bytes(cls, data, byteorder="big", *, signed=False):
        from .seq import byte_items
        if byteorder not in ("big", "little"):
            raise ValueError("byteorder must be either 'little' or 'big'")
        items = byte_items(data)
        signed = bool(signed)
        if all(not isinstance(i, Term) for i in items):
            v = int.from_bytes(bytes(items), byteorder, signed=signed)
        else:
            if byteorder == "little":
                items = items[::-1]
            parts = [tv(i, 9) for i in items]
            parts = [z3.Extract(7, 0, p) for p in parts]
            e = parts[0] if len(parts) == 1 else z3.Concat(*parts)
            w = 8 * len(items)
            if signed:
                v = Term(e, -(1 << (w - 1)), (1 << (w - 1)) - 1)
            else:
                v = Term(z3.ZeroExt(1, e), 0, (1 << w) - 1)
        if cls is SymInt:
            return SymInt.from_value(v)
        return cls(SymInt.from_value(v))

    # --------------------------------------------------------- arithmetic
    def __neg__(self):
        return SymInt.from_value(t_neg(self._v))

    def __pos__(self):
        return SymInt.from_value(self._v)

    def __abs__(self):
        v = self._v
        return SymInt.from_value(t_ite(t_cmp("<", v, 0), t_neg(v), v))

    def __invert__(self):
        return SymInt.from_value(t_sub(-1, self._v))

    def __eq__(self, other):
        o = value_of(other)
        if o is NotImplemented:
            return _float_cmp("==", self, other)
        return SymBool.wrap(t_cmp("==", self._v, o))

    def __ne__(self, other):
        res = self.__eq__(other)
        return res if res is NotImplemented else not_(res)

    def __lt__(self, other):
        o = value_of(other)
        if o is NotImplemented:
            return _float_cmp("<", self, other)
        return SymBool.wrap(t_cmp("<", self._v, o))

    def __le__(self, other):
        o = value_of(other)
        if o is NotImplemented:
            return _float_cmp("<=", self, other)
        return SymBool.wrap(t_cmp("<=", self._v, o))

    def __gt__(self, other):
        o = value_of(other)
        if o is NotImplemented:
            return _float_cmp(">", self, other)
        return SymBool.wrap(t_cmp("<", o, self._v))

    def __ge__(self, other):
        o = value_of(other)
        if o is NotImplemented:
            return _float_cmp(">=", self, other)
        return SymBool.wrap(t_cmp("<=", o, self._v))

    def __truediv__(self, other):
        return true_div(self, other)

    def __rtruediv__(self, other):
        return true_div(other, self)

    def __pow__(self, other, mod=None):
        o = value_of(other)
        if o is NotImplemented:
            return NotImplemented
        if mod is not None:
            return pow(self._concrete("pow"), int(other), int(mod))
        if isinstance(o, Term):
            o = engine().concretize(o.e, "exponent")
        if o < 0 or o > 64:
            return pow(self._concrete("pow"), o)
        out = 1
        for _ in range(o):
            out = t_mul(out, self._v)
        return SymInt.from_value(out)

    def __rpow__(self, other):
        return pow(other, self._concrete("exponent"))


def _binop(name, fn, swap=False):
    def method(self, other):
        o = value_of(other)
        if o is NotImplemented:
            if isinstance(other, float):
                return _float_arith(name, self, other)
            return NotImplemented
        a = self._v
        if swap:
            a, o = o, a
        return SymInt.from_value(fn(a, o))
    method.__name__ = name
    return method


def _guarded(fn, native):
    def op(a, b):
        if not isinstance(a, Term) and not isinstance(b, Term):
            return native(a, b)
        return fn(a, b)
    return op


import operator as _op

for _nm, _fn, _nat in (
    ("add", t_add, _op.add), ("sub", t_sub, _op.sub), ("mul", t_mul, _op.mul),
    ("and", t_and, _op.and_), ("or", t_or, _op.or_), ("xor", t_xor, _op.xor),
    ("lshift", t_shl, _op.lshift), ("rshift", t_shr, _op.rshift),
    ("floordiv", lambda a, b: t_divmod(a, b)[0], _op.floordiv),
    ("mod", lambda a, b: t_divmod(a, b)[1], _op.mod),
):
    _g = _guarded(_fn, _nat)
    setattr(SymInt, "__%s__" % _nm, _binop("__%s__" % _nm, _g))
    setattr(SymInt, "__r%s__" % _nm, _binop("__r%s__" % _nm, _g, swap=True))


def _divmod(self, other):
    return (self // other, self % other)


SymInt.__divmod__ = _divmod
SymInt.__rdivmod__ = lambda self, other: (other // self, other % self)


def parse_int(value, base=None):
    """What int(value, base) computes, as native int or Term"""
    if base is not None:
        base = base.__index__()
    if isinstance(value, str):
        from . import strs
        return strs.parse_int(value, 10 if base is None else base)
    if base is not None:
        from .seq import SymBytes
        if isinstance(value, SymBytes):
            return strs_parse_bytes(value, base)
        raise TypeError("int() can't convert non-string with explicit base")
    v = value_of(value) if not _has_custom_int(value) else NotImplemented
    if v is not NotImplemented:
        return v
    if isinstance(value, float):
        return int(value)
    if is_symfloat(value):
        return value._trunc()
    cls = type(value)
    for name in ("__int__", "__index__", "__trunc__"):
        method = getattr(cls, name, None)
        if method is not None:
            res = method(value)
            v = value_of(res)
            if v is NotImplemented:
                raise TypeError("%s returned non-int (type %s)" % (name, type(res).__name__))
            return v
    from .seq import SymBytes
    if isinstance(value, SymBytes):
        return strs_parse_bytes(value, 10)
    if isinstance(value, (bytes, bytearray)):
        return int(value)
    raise TypeError(
        "int() argument must be a string, a bytes-like object or a real number, not '%s'" % cls.__name__)


def _has_custom_int(value):
    return is_symint(value) and type(value).__int__ is not SymInt.__int__


def strs_parse_bytes(value, base):
    return int(bytes(value), base)


# ------------------------------------------------------------------ SymFloat
class FloatMeta(type):
    def __instancecheck__(cls, obj):
        return type.__instancecheck__(cls, obj) or (cls is SymFloat and isinstance(obj, float))

    def __subclasscheck__(cls, sub):
        return type.__subclasscheck__(cls, sub) or (
            cls is SymFloat and isinstance(sub, type) and type.__subclasscheck__(float, sub))

    def __eq__(cls, other):
        return cls is other or (cls is SymFloat and other is float)

    def __hash__(cls):
        return type.__hash__(cls)


class SymFloat(metaclass=FloatMeta):
    """``float`` for loaded code: a native float or the quotient of a symbolic
    integer and a concrete number, kept structurally (num, den)"""

    __slots__ = ("_f",)
    __slotnames__ = []

    def __init_subclass__(cls, **kwargs):
        super().__init_subclass__(**kwargs)
        cls.__slotnames__ = []

    def __new__(cls, value=0.0):
        f = parse_float(value)
        if cls is SymFloat and isinstance(f, float):
            return f
        obj = object.__new__(cls)
        obj._f = f
        return obj

    @staticmethod
    def quotient(num, den):
        if not isinstance(num, Term):
            return num / den
        obj = object.__new__(SymFloat)
        obj._f = (num, float(den))
        return obj

    def _real(self):
        if isinstance(self._f, tuple):
            num, den = self._f
            self._f = engine().concretize(num.e, "float") / den
        return self._f

    def _trunc(self):
        if not isinstance(self._f, tuple):
            return int(self._f)
        num, den = self._f
        if den != int(den) or den <= 0:
            return int(self._real())
        den = int(den)
        if max(abs(num.lo), abs(num.hi)) >= 1 << 50:
            return int(self._real())
        neg = t_cmp("<", num, 0)
        pos = t_divmod(num, den)[0]
        if neg is False:
            return pos
        return t_ite(neg, t_neg(t_divmod(t_neg(num), den)[0]), pos)

    def __float__(self):
        return self._real()

    def __trunc__(self):
        return SymInt.from_value(self._trunc())

    def __bool__(self):
        if isinstance(self._f, tuple):
            return decide(b_not(t_cmp("==", self._f[0], 0)))
        return bool(self._f)

    def __hash__(self):
        return hash(self._real())

    def __repr__(self):
        if isinstance(self._f, tuple):
            from . import strs
            return strs.float_token(self._f)
        return repr(self._f)

    def __str__(self):
        rep = type(self).__repr__
        return rep(self)

    def __format__(self, spec):
        if isinstance(self._f, tuple) and not spec:
            return str(self)
        return format(self._real(), spec)

    def is_integer(self):
        return self._real().is_integer()

    def __eq__(self, other):
        return _float_cmp("==", self, other)

    def __ne__(self, other):
        res = _float_cmp("==", self, other)
        return res if res is NotImplemented else not_(res)

    def __lt__(self, other):
        return _float_cmp("<", self, other)

    def __le__(self, other):
        return _float_cmp("<=", self, other)

    def __gt__(self, other):
        return _float_cmp(">", self, other)

    def __ge__(self, other):
        return _float_cmp(">=", self, other)

    def __neg__(self):
        if isinstance(self._f, tuple):
            return SymFloat.quotient(t_neg(self._f[0]), self._f[1])
        return -self._f

    def __truediv__(self, other):
        return true_div(self, other)

    def __rtruediv__(self, other):
        return true_div(other, self)

    def __round__(self, n=None):
        if n is None:
            return round(self._real())
        return round(self._real(), n)

    def __abs__(self):
        return abs(self._real())


def _simple_float(name):
    import operator
    fn = getattr(operator, name.strip("_").replace("r", "", 1) if name.startswith("__r") else name.strip("_"))
    swap = name.startswith("__r")

    def method(self, other):
        if not isinstance(other, (int, float, SymInt, SymFloat, SymBool)):
            return NotImplemented
        a, b = self._real(), float(other)
        return fn(b, a) if swap else fn(a, b)
    return method


for _nm in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__mod__", "__floordiv__", "__pow__"):
    setattr(SymFloat, _nm, _simple_float(_nm))


def _float_arith(name, a, b):
    """int <op> float where the int may be symbolic"""
    import operator
    if b == int(b) and name in ("__add__", "__radd__", "__sub__", "__rsub__"):
        pass
    real = float(a)
    base = name.strip("_")
    if name.startswith("__r") and base not in ("rshift",):
        base = base[1:]
        return getattr(operator, {"and": "and_", "or": "or_"}.get(base, base))(b, real)
    return getattr(operator, {"and": "and_", "or": "or_"}.get(base, base))(real, b)


def _float_parts(x):
    """(num, den) with exact rational value, or None"""
    if is_symfloat(x):
        if isinstance(x._f, tuple):
            return x._f
        return (x._f, None)
    v = value_of(x)
    if v is not NotImplemented:
        return (v, 1.0)
    if isinstance(x, float):
        return (x, None)
    return None


def _float_cmp(op, a, b):
    pa, pb = _float_parts(a), _float_parts(b)
    if pa is None or pb is None:
        return NotImplemented
    import operator
    fn = {"==": operator.eq, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[op]
    if pa[1] is None and pb[1] is None:
        return fn(pa[0], pb[0])
    # Same denominator: order of the numerators decides (|num| < 2^50, checked)
    if pa[1] is not None and pb[1] is not None and pa[1] == pb[1]:
        na, nb = pa[0], pb[0]
        for n in (na, nb):
            lo, hi = lim(n)
            if max(abs(lo), abs(hi)) >= 1 << 50:
                break
        else:
            if op in (">", ">="):
                na, nb, op = nb, na, {">": "<", ">=": "<="}[op]
            return SymBool.wrap(t_cmp(op, na, nb))
    # symbolic quotient against a concrete number: num <op> k * den when exact
    for x, y, o in ((pa, pb, op), (pb, pa, {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "=="}[op])):
        if x[1] is not None and isinstance(x[0], Term) and not isinstance(y[0], Term):
            val = y[0] / y[1] if y[1] is not None else y[0]
            if val != val or val in (float("inf"), float("-inf")):
                return fn(0.0, val) if x is pa else fn(val, 0.0)
            from fractions import Fraction
            bound = Fraction(val) * Fraction(x[1])
            # quotient rounding is monotone; decide on the integers around the bound
            num = x[0]
            if max(abs(num.lo), abs(num.hi)) >= 1 << 50:
                break
            import math
            lo = math.floor(bound)
            near = [k for k in range(lo - 2, lo + 4)]
            eqs = [k for k in near if k / x[1] == val]
            lts = [k for k in near if k / x[1] < val]
            c_eq = b_or([t_cmp("==", num, k) for k in eqs])
            c_lt = t_cmp("<=", num, max(lts))
            if o == "==":
                return SymBool.wrap(c_eq)
            if o == "<":
                return SymBool.wrap(c_lt)
            if o == "<=":
                return SymBool.wrap(b_or([c_lt, c_eq]))
            if o == ">":
                return SymBool.wrap(b_not(b_or([c_lt, c_eq])))
            return SymBool.wrap(b_not(c_lt))
    return fn(float(a), float(b))


def true_div(a, b):
    pa, pb = _float_parts(a), _float_parts(b)
    if pa is None or pb is None:
        return NotImplemented
    if isinstance(pa[0], Term):
        # symbolic / number
        if pb[1] is None:
            den = pb[0]
        else:
            num = pb[0]
            if isinstance(num, Term):
                num = engine().concretize(num.e, "divisor")
            den = num / pb[1]
        if den == 0:
            raise ZeroDivisionError("division by zero")
        if pa[1] == 1.0:
            return SymFloat.quotient(pa[0], den)
        return float(a) / den
    return (float(a)) / (float(b))


def parse_float(value):
    if is_symfloat(value):
        return value._f
    v = value_of(value)
    if v is not NotImplemented:
        return (v, 1.0) if isinstance(v, Term) else float(v)
    if isinstance(value, str):
        from . import strs
        return strs.parse_float(value)
    return float(value)
