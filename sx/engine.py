"""Symbolic execution engine.

The real code of /repo is executed by CPython itself; integers the harness
leaves open are `SymInt` proxies carrying an SMT bit-vector term plus an
interval.  Widths always cover the interval, so no term ever wraps: the
bit-vectors stand for Python's mathematical integers exactly.  Every truth test
on a symbolic condition (`if`, `and`, `in`, `==` inside dict/list code, ...)
asks the solver which sides are feasible; infeasible sides are dropped,
feasible ones are all explored (depth first, by re-execution along a recorded
decision prefix).  Harness assertions are discharged by asking the solver for
a model of  path-condition AND NOT assertion.
"""
import itertools, re, time, sys
import z3

# ---------------------------------------------------------------- engine state
_E = None


def E():
    return _E


class PathLimit(BaseException):
    """Path abandoned (too many branches / too slow); counted as not covered."""


class SymHash(BaseException):
    """A symbolic value reached hash() while a SymDict was probing a key."""


def _bits(lo, hi):
    """Signed width covering [lo, hi]."""
    a = hi.bit_length() + 1 if hi >= 0 else (-hi - 1).bit_length() + 1
    b = (-lo - 1).bit_length() + 1 if lo < 0 else lo.bit_length() + 1
    return max(a, b, 2)


# Term construction straight through the C interface: z3py's coercions dominate the run time otherwise.
_C = z3.main_ctx()
_c = _C.ref()
_BV, _BO = z3.BitVecRef, z3.BoolRef
from z3 import z3core as _zc


def _bvop(f):
    def op(a, b):
        return _BV(f(_c, a.ast, b.ast), _C)
    return op


def _boop(f):
    def op(a, b):
        return _BO(f(_c, a.ast, b.ast), _C)
    return op


t_add, t_sub, t_mul = _bvop(_zc.Z3_mk_bvadd), _bvop(_zc.Z3_mk_bvsub), _bvop(_zc.Z3_mk_bvmul)
t_and, t_or, t_xor = _bvop(_zc.Z3_mk_bvand), _bvop(_zc.Z3_mk_bvor), _bvop(_zc.Z3_mk_bvxor)
t_lt, t_le = _boop(_zc.Z3_mk_bvslt), _boop(_zc.Z3_mk_bvsle)
t_gt, t_ge = _boop(_zc.Z3_mk_bvsgt), _boop(_zc.Z3_mk_bvsge)
t_eq = _boop(_zc.Z3_mk_eq)


def _size(t):
    return _zc.Z3_get_bv_sort_size(_c, _zc.Z3_get_sort(_c, t.ast))


def _extract(hi, lo, t):
    return _BV(_zc.Z3_mk_extract(_c, hi, lo, t.ast), _C)


def t_ite(c, a, b):
    return _BV(_zc.Z3_mk_ite(_c, c.ast, a.ast, b.ast), _C)


_VALS = {}


def t_val(v, w):
    r = _VALS.get((v, w))
    if r is None:
        if len(_VALS) > 100000:
            _VALS.clear()
        r = _VALS[(v, w)] = z3.BitVecVal(v, w)
    return r


def _ext(t, w):
    d = w - _size(t)
    return _BV(_zc.Z3_mk_sign_ext(_c, d, t.ast), _C) if d > 0 else t


def _sext(t, w0, w):
    return _BV(_zc.Z3_mk_sign_ext(_c, w - w0, t.ast), _C) if w > w0 else t


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return _E.branch(self.t)

    # combinators that do not fork (used by oracles)
    def __and__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.And(self.t, o.t))
        if isinstance(o, bool):
            return self if o else False
        return self._int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.Or(self.t, o.t))
        if isinstance(o, bool):
            return True if o else self
        return self._int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.Xor(self.t, o.t))
        if isinstance(o, bool):
            return mkbool(z3.Not(self.t)) if o else self
        return self._int() ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.t == o.t)
        if isinstance(o, bool):
            return self if o else mkbool(z3.Not(self.t))
        return self._int() == o

    def __ne__(self, o):
        return b_not(self == o)

    def _int(self):
        return SymInt(z3.If(self.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return "SymBool(%s)" % self.t

    def __str__(self):
        return str(bool(self))


def _deleg(name):
    def f(self, *a):
        return getattr(self._int(), name)(*a)
    return f


for _n in ("__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __lt__ __le__ __gt__ __ge__ "
           "__lshift__ __rlshift__ __rshift__ __floordiv__ __mod__ __neg__ __invert__").split():
    setattr(SymBool, _n, _deleg(_n))


def mkbool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def b_not(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.t))
    return not x


def b_all(xs):
    """Conjunction without forking."""
    ts = []
    for x in xs:
        if isinstance(x, SymBool):
            ts.append(x.t)
        elif not x:
            return False
    if not ts:
        return True
    return SymBool(ts[0] if len(ts) == 1 else z3.And(*ts))


def b_any(xs):
    ts = []
    for x in xs:
        if isinstance(x, SymBool):
            ts.append(x.t)
        elif x:
            return True
    if not ts:
        return False
    return SymBool(ts[0] if len(ts) == 1 else z3.Or(*ts))


def b_implies(a, b):
    return b_any([b_not(a), b])


def ite(c, a, b):
    """Non-forking if-then-else over ints / SymInts / bools."""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(c.t, boolterm(a), boolterm(b)))
    a, b = lift(a), lift(b)
    lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
    w = max(_bits(lo, hi), a.w, b.w)
    return SymInt(t_ite(c.t, _sext(a.t, a.w, w), _sext(b.t, b.w, w)), lo, hi, w)


def boolterm(x):
    return x.t if isinstance(x, SymBool) else z3.BoolVal(bool(x))


def lift(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._int()
    if isinstance(x, int):
        x = int(x)
        w = _bits(x, x)
        return SymInt(t_val(x, w), x, x, w)
    return None


def norm(t, lo, hi, have=None):
    if lo == hi:
        return lo
    return SymInt(t, lo, hi, have)


class SymInt:
    """Integer proxy.  t: signed bit-vector term wide enough for [lo, hi]."""
    __slots__ = ("t", "lo", "hi", "w")

    def __init__(self, t, lo, hi, have=None):
        w = _bits(lo, hi)
        if have is None:
            have = _size(t)
        if have > w:
            t = _extract(w - 1, 0, t)
            have = w
        self.t, self.lo, self.hi, self.w = t, lo, hi, have

    # ---- arithmetic
    def _bin(self, o, f, lohi, rev=False):
        a, b = self, lift(o)
        if b is None:
            return NotImplemented
        if rev:
            a, b = b, a
        lo, hi = lohi(a, b)
        if lo == hi:
            return lo
        w = max(_bits(lo, hi), a.w, b.w)
        return SymInt(f(_sext(a.t, a.w, w), _sext(b.t, b.w, w)), lo, hi, w)

    def __add__(self, o):
        if type(o) is int and o == 0:
            return self
        return self._bin(o, t_add, lambda a, b: (a.lo + b.lo, a.hi + b.hi))

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is int and o == 0:
            return self
        return self._bin(o, t_sub, lambda a, b: (a.lo - b.hi, a.hi - b.lo))

    def __rsub__(self, o):
        return self._bin(o, t_sub, lambda a, b: (a.lo - b.hi, a.hi - b.lo), True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        if type(o) is int and o == 1:
            return self

        def lohi(a, b):
            p = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
            return min(p), max(p)
        return self._bin(o, t_mul, lohi)

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return ite(self < 0, -self, self)

    def __invert__(self):
        return -1 - self

    def _divmod(self, o, rev=False):
        a, b = self, lift(o)
        if b is None:
            return NotImplemented
        if rev:
            a, b = b, a
        if b.lo <= 0 <= b.hi:
            if b == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
        if b.lo == b.hi and b.lo > 0 and (b.lo & (b.lo - 1)) == 0:
            k = b.lo.bit_length() - 1
            if k == 0:
                return norm(a.t, a.lo, a.hi), 0
            return a >> k, a & (b.lo - 1)
        lo = min(a.lo, -abs(a.hi), -abs(a.lo)) if (a.lo < 0 or b.lo < 0) else 0
        hi = max(abs(a.lo), abs(a.hi))
        w = max(a.w, b.w) + 1
        at, bt = _ext(a.t, w), _ext(b.t, w)
        if a.lo >= 0 and b.lo >= 0:
            q, r = z3.UDiv(at, bt), z3.URem(at, bt)
            return norm(q, 0, a.hi // max(b.lo, 1)), norm(r, 0, min(a.hi, max(b.hi - 1, 0)))
        q, r = at / bt, z3.SRem(at, bt)
        zero = z3.BitVecVal(0, w)
        fix = z3.And(r != zero, (r < zero) != (bt < zero))
        q2 = z3.If(fix, q - 1, q)
        r2 = z3.If(fix, r + bt, r)
        rlo = min(0, b.lo + 1)
        rhi = max(0, b.hi - 1)
        return norm(q2, lo - 1, hi), norm(r2, rlo, rhi)

    def __divmod__(self, o):
        return self._divmod(o)

    def __rdivmod__(self, o):
        return self._divmod(o, True)

    def __floordiv__(self, o):
        r = self._divmod(o)
        return r if r is NotImplemented else r[0]

    def __rfloordiv__(self, o):
        return self._divmod(o, True)[0]

    def __mod__(self, o):
        r = self._divmod(o)
        return r if r is NotImplemented else r[1]

    def __rmod__(self, o):
        r = self._divmod(o, True)
        return r if r is NotImplemented else r[1]

    def __lshift__(self, o):
        if not isinstance(o, int):
            o = concretize(o) if isinstance(o, SymInt) else None
            if o is None:
                return NotImplemented
        if o < 0:
            raise ValueError("negative shift count")
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << concretize(self)

    def __rshift__(self, o):
        if not isinstance(o, int):
            o = concretize(o) if isinstance(o, SymInt) else None
            if o is None:
                return NotImplemented
        if o < 0:
            raise ValueError("negative shift count")
        if o == 0:
            return self
        lo, hi = self.lo >> o, self.hi >> o
        w = self.w
        if o >= w:
            return norm(ite(self < 0, -1, 0).t if lo != hi else self.t, lo, hi)
        return norm(z3.Extract(w - 1, o, self.t) if w - o >= 2 else self.t >> o, lo, hi)

    def __rrshift__(self, o):
        return o >> concretize(self)

    def __and__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        a = self
        if a.lo >= 0 and b.lo >= 0:
            lo, hi = 0, min(a.hi, b.hi)
            if b.lo == b.hi:
                m = b.lo
                if m & (m + 1) == 0 and a.hi <= m:
                    return self
                if m & (m + 1) == 0:
                    if m == 0:
                        return 0
                    return norm(z3.ZeroExt(1, z3.Extract(m.bit_length() - 1, 0, a.t)), 0, m)
        elif b.lo >= 0:
            lo, hi = 0, b.hi
        elif a.lo >= 0:
            lo, hi = 0, a.hi
        else:
            w = max(a.w, b.w)
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        w = max(a.w, b.w)
        return norm(t_and(_sext(a.t, a.w, w), _sext(b.t, b.w, w)), lo, hi, w)

    __rand__ = __and__

    def __or__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        a = self
        w = max(a.w, b.w)
        if a.lo >= 0 and b.lo >= 0:
            lo, hi = max(a.lo, b.lo), (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if a.lo < 0 and a.hi < 0 or b.lo < 0 and b.hi < 0:
                hi = -1
        return norm(t_or(_sext(a.t, a.w, w), _sext(b.t, b.w, w)), lo, hi, w)

    __ror__ = __or__

    def __xor__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        a = self
        w = max(a.w, b.w)
        if a.lo >= 0 and b.lo >= 0:
            lo, hi = 0, (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return norm(t_xor(_sext(a.t, a.w, w), _sext(b.t, b.w, w)), lo, hi, w)

    __rxor__ = __xor__

    def __pow__(self, o, m=None):
        return pow(concretize(self), concretize(o), m)

    def __rpow__(self, o):
        return o ** concretize(self)

    def __truediv__(self, o):
        if isinstance(o, (int, float)) and o:
            from .values import SymFloat
            return SymFloat(lambda v: v / o, self, o if isinstance(o, int) and o > 0 else None)
        return concretize(self) / concretize(o)

    def __rtruediv__(self, o):
        return o / concretize(self)

    # ---- comparisons
    def _cmp(self, o, f, quick):
        b = lift(o)
        if b is None:
            if isinstance(o, float):
                return quickfloat(self, o, f)
            return NotImplemented
        q = quick(self, b)
        if q is not None:
            return q
        w = max(self.w, b.w)
        return SymBool(f(_sext(self.t, self.w, w), _sext(b.t, b.w, w)))

    def __lt__(self, o):
        return self._cmp(o, t_lt,
                         lambda a, b: True if a.hi < b.lo else False if a.lo >= b.hi else None)

    def __le__(self, o):
        return self._cmp(o, t_le,
                         lambda a, b: True if a.hi <= b.lo else False if a.lo > b.hi else None)

    def __gt__(self, o):
        return self._cmp(o, t_gt,
                         lambda a, b: True if a.lo > b.hi else False if a.hi <= b.lo else None)

    def __ge__(self, o):
        return self._cmp(o, t_ge,
                         lambda a, b: True if a.lo >= b.hi else False if a.hi < b.lo else None)

    def __eq__(self, o):
        if o is self:
            return True
        return self._cmp(o, t_eq,
                         lambda a, b: False if a.hi < b.lo or b.hi < a.lo else None)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return b_not(r)

    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return not _E.branch(t_eq(self.t, t_val(0, self.w)))

    # ---- conversions: C code that insists on a machine integer gets one by
    # exhaustive case split over the feasible values
    def __index__(self):
        return concretize(self)

    __int__ = __index__

    def __float__(self):
        return float(concretize(self))

    def __hash__(self):
        if _E.probing:
            raise SymHash()
        return hash(concretize(self))

    def __round__(self, n=None):
        return self

    __trunc__ = __floor__ = __ceil__ = lambda self: self

    def bit_length(self):
        m = abs(self)
        m = lift(m)
        r = 0
        for k in range(1, m.hi.bit_length() + 1):
            r = ite(m >= (1 << (k - 1)), k, r)
        return r

    def bit_count(self):
        m = lift(abs(self))
        return sum((m >> k) & 1 for k in range(m.hi.bit_length()))

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed \
            else (0, (1 << (8 * length)) - 1)
        if self < lo or self > hi:
            raise OverflowError("int too big to convert")
        from .values import SymBytes
        els = [(self >> (8 * k)) & 0xff for k in range(length)]
        if byteorder == "big":
            els.reverse()
        return SymBytes(els)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    numerator = real

    @property
    def denominator(self):
        return 1

    def __repr__(self):
        return _E.token(("dec", self))

    __str__ = __repr__

    def __format__(self, spec):
        from .values import fmt_int
        return fmt_int(self, spec)


def quickfloat(a, f, op):
    import math
    if f == math.floor(f):
        return a._cmp(int(f), op, lambda x, y: None)
    raise TypeError("symbolic int compared with non integral float")


def concretize(x):
    """Case split over the feasible values of x (all of them get explored)."""
    if isinstance(x, SymBool):
        return int(bool(x))
    if not isinstance(x, SymInt):
        return x
    if x.lo == x.hi:
        return x.lo
    return _E.concretize(x)


def is_sym(x):
    return isinstance(x, (SymInt, SymBool))


# ---------------------------------------------------------------- exploration
class Violation(Exception):
    def __init__(self, msg, inputs):
        Exception.__init__(self, msg)
        self.msg, self.inputs = msg, inputs


class Stats:
    FIELDS = ("paths", "decisions", "forks", "queries", "solver_s", "checks", "checks_sat",
              "unknown", "limit_paths", "concretizations", "validated", "mismatch", "spurious",
              "diverged", "trivial_checks", "bad_models", "cross_agree", "cross_disagree")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def add(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + (o[f] if isinstance(o, dict) else getattr(o, f)))

    def asdict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Engine:
    def __init__(self, timeout_ms=20000, max_branches=20000, max_conc=4096):
        global _E
        _E = self
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.last_model = None
        self.cross_left = 0
        self.stats = Stats()
        self.max_branches = max_branches
        self.max_conc = max_conc
        self.probing = False
        self.stack = []          # asserted terms, one push level each
        self.work = []           # pending decision prefixes
        self.reset_path([])

    # -- per path state
    def reset_path(self, prefix):
        self.prefix = prefix     # list of (decision, hash)
        self.pos = 0
        self.trace = []
        self.nassert = 0
        self.model = None
        self.known = {}
        self.conc = {}
        self.vars = {}           # name -> (SymInt|int)
        self.tokens = []
        self.obs = []
        self.inputs_order = []
        self.labels = set()
        self.aborted = None
        self.out = []

    def token(self, payload):
        self.tokens.append(payload)
        return chr(0xF0000 + len(self.tokens) - 1)

    # -- assertion stack, aligned lazily with the previous path
    def _assert(self, t):
        i = self.nassert
        if i < len(self.stack):
            if self.stack[i].eq(t):
                self.nassert += 1
                return
            self.solver.pop(len(self.stack) - i)
            del self.stack[i:]
        self.solver.push()
        self.solver.add(t)
        self.stack.append(t)
        self.nassert += 1

    def _sync(self):
        if len(self.stack) > self.nassert:
            self.solver.pop(len(self.stack) - self.nassert)
            del self.stack[self.nassert:]

    def _check(self, *extra):
        self._sync()
        t0 = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.queries += 1
        if r == z3.sat:
            # never trust a model: every assertion is re-evaluated under it
            m = self.solver.model()
            for t in itertools.chain(self.stack, extra):
                if not z3.is_true(m.eval(t, model_completion=True)):
                    self.stats.bad_models += 1
                    r = self._fresh(extra)
                    break
            else:
                self.last_model = m
        self.stats.solver_s += time.perf_counter() - t0
        return r

    def _fresh(self, extra):
        """Non-incremental second opinion after an invalid model."""
        s = z3.SimpleSolver()
        s.set("timeout", self.timeout_ms)
        ts = list(self.stack) + list(extra)
        s.add(*ts)
        r = s.check()
        if r == z3.sat:
            m = s.model()
            if all(z3.is_true(m.eval(t, model_completion=True)) for t in ts):
                self.last_model = m
                return r
            return z3.unknown
        return r

    cross_s, cross_t0 = 0.0, None

    def cross_check(self, neg):
        now = time.time()
        if self.cross_t0 is None:
            self.cross_t0 = now
        if self.cross_s > 3 + 0.05 * (now - self.cross_t0):
            return None             # the second solver gets a twentieth of the time
        try:
            return self._cross_check(neg)
        except RuntimeError:
            return None
        finally:
            self.cross_s += time.time() - now

    def _cross_check(self, neg):
        """The same query, decided by cvc5: True agrees (unsat), False disagrees, None no answer."""
        import cvc5
        s = z3.Solver()
        s.add(*self.stack, neg)
        text = re.sub(r"\b(bv[us](?:div|rem|mod))_i\b", r"\1", s.to_smt2())   # divisors are never 0 here
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", "3000")
        slv.setLogic("QF_BV")
        ip = cvc5.InputParser(slv)
        ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = ip.getSymbolManager()
        res = None
        while True:
            c = ip.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm)
            o = str(o).strip()
            if o in ("sat", "unsat", "unknown"):
                res = o
            elif "error" in o:
                return None
        return True if res == "unsat" else False if res == "sat" else None

    def ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.last_model
            elif r == z3.unsat:
                return False
            else:
                self.stats.unknown += 1
                return None
        return True

    # -- branching
    def branch(self, t):
        h = t.hash()
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        neg = False
        if z3.is_not(t):
            t, neg = t.arg(0), True
        key = t.get_id()
        kept = self.known.get(key)
        if kept is not None:
            return kept[0] != neg
        d = self._decide(t, None, h)
        self.known[key] = (d, t)
        return d != neg

    def _decide(self, t, val=None, h=0):
        self.stats.decisions += 1
        if self.pos < len(self.prefix):
            d, hh, forced, _v = self.prefix[self.pos]
            if hh != h:
                self.stats.diverged += 1
                self.aborted = "diverged"
                raise PathLimit("path diverged on re-execution")
            self.pos += 1
            self.trace.append((d, h, forced, val))
            if not forced:
                self._assert(t if d else z3.Not(t))
            return d
        if len(self.trace) > self.max_branches:
            self.aborted = "branches"
            raise PathLimit("too many branches")
        if self.ensure_model() is False:
            self.aborted = "infeasible"
            raise PathLimit("infeasible")
        nt = z3.Not(t)
        feas = {True: None, False: None}
        mod = {}
        if self.model is not None:
            v = self.model.eval(t, model_completion=True)
            side = z3.is_true(v)
            feas[side] = True
            mod[side] = self.model
        for side in (True, False):
            if feas[side] is None:
                r = self._check(t if side else nt)
                if r == z3.sat:
                    feas[side] = True
                    mod[side] = self.last_model
                elif r == z3.unsat:
                    feas[side] = False
                else:
                    feas[side] = True
                    self.stats.unknown += 1
        self.pos += 1
        if feas[True] and feas[False]:
            self.stats.forks += 1
            d = True
            self.work.append(self.trace + [(not d, h, False, val)])
            self.trace.append((d, h, False, val))
            self._assert(t)
            self.model = mod.get(True)
            return d
        d = bool(feas[True])
        self.trace.append((d, h, True, val))
        if self.model is None:
            self.model = mod.get(d)
        return d

    def concretize(self, x):
        h = x.t.hash()
        t = z3.simplify(x.t)
        if z3.is_bv_value(t):
            return t.as_signed_long()
        key = t.get_id()
        if key in self.conc:
            return self.conc[key][0]
        self.stats.concretizations += 1
        for _ in range(self.max_conc):
            if self.pos < len(self.prefix) and self.prefix[self.pos][3] is not None:
                v = self.prefix[self.pos][3]
            else:
                ok = self.ensure_model()
                if not ok:
                    self.aborted = "infeasible" if ok is False else "unknown"
                    raise PathLimit(self.aborted)
                v = self.model.eval(t, model_completion=True).as_signed_long()
            if self._decide(t == z3.BitVecVal(v, t.size()), v, h):
                self.conc[key] = (v, t)
                return v
        self.aborted = "concretize"
        raise PathLimit("too many concrete values")

    # -- harness side
    def assume(self, c):
        if isinstance(c, SymBool):
            self._assert(z3.simplify(c.t))
            if self.model is not None:
                if not z3.is_true(self.model.eval(c.t, model_completion=True)):
                    self.model = None
            return
        if not c:
            self.aborted = "assume"
            raise PathLimit("assumption false")

    def check(self, cond):
        """None if cond holds for every input on this path, else a model."""
        self.stats.checks += 1
        if isinstance(cond, SymBool):
            t = z3.simplify(cond.t)
            if z3.is_true(t):
                self.stats.trivial_checks += 1
                return None
            if z3.is_false(t):
                if self.ensure_model():
                    self.stats.checks_sat += 1
                    return self.model
                return None
            r = self._check(z3.Not(t))
            if r == z3.unsat:
                if self.cross_left > 0:
                    self.cross_left -= 1
                    a = self.cross_check(z3.Not(t))
                    if a is True:
                        self.stats.cross_agree += 1
                    elif a is False:
                        self.stats.cross_disagree += 1
                        self.stats.unknown += 1
                        return "unknown"
                return None
            if r == z3.sat:
                self.stats.checks_sat += 1
                return self.last_model
            self.stats.unknown += 1
            return "unknown"
        if cond:
            self.stats.trivial_checks += 1
            return None
        if self.ensure_model():
            self.stats.checks_sat += 1
            return self.model
        return None

    def eval(self, x, m):
        if isinstance(x, SymInt):
            return m.eval(x.t, model_completion=True).as_signed_long()
        if isinstance(x, SymBool):
            return z3.is_true(m.eval(x.t, model_completion=True))
        return x

    def model_inputs(self, m):
        return {k: self.eval(v, m) for k, v in self.vars.items()}

    def var(self, name, lo, hi):
        if name in self.vars:
            raise RuntimeError("duplicate symbolic variable " + name)
        if lo == hi:
            v = lo
        else:
            w = _bits(lo, hi)
            if lo >= 0:
                raw = z3.BitVec(name, w - 1)
                t = z3.ZeroExt(1, raw)
            else:
                t = z3.BitVec(name, w)
            v = SymInt(t, lo, hi)
            full = (0, (1 << (w - 1)) - 1) if lo >= 0 else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            if full[0] != lo:
                self.assume(SymBool(t >= lo))
            if full[1] != hi:
                self.assume(SymBool(t <= hi))
        self.vars[name] = v
        return v
