"""What a harness sees.  The same harness function runs symbolically (SymCtx)
and, for replays and validation, natively on plain values (ConcCtx)."""
from . import engine as eng
from .engine import SymInt, SymBool, concretize


class Failure(Exception):
    """A property assertion failed."""


class Skip(BaseException):
    """Concrete inputs outside the harness's assumptions."""


class SymCtx:
    sym = True

    def __init__(self, e):
        self.e = e

    def int(self, name, lo, hi):
        return self.e.var(name, lo, hi)

    def u32(self, name):
        return self.int(name, 0, 0xffffffff)

    def s32(self, name):
        return self.int(name, -(1 << 31), (1 << 31) - 1)

    def index(self, name, n):
        """One of n alternatives, each explored."""
        return concretize(self.int(name, 0, n - 1))

    def flag(self, name):
        return bool(self.index(name, 2))

    def choice(self, name, options):
        return options[self.index(name, len(options))]

    def bytes(self, name, n):
        from .values import SymBytes
        return SymBytes([self.int("%s.%d" % (name, k), 0, 255) for k in range(n)]) if n else b""

    def chars(self, name, cps):
        """A text of len(cps) characters; cps: list of (lo, hi) code point ranges."""
        from .values import chr_tok
        return "".join(chr_tok(self.int("%s.%d" % (name, k), lo, hi)) for k, (lo, hi) in enumerate(cps))

    def assume(self, c):
        self.e.assume(c)

    def check(self, cond, msg):
        m = self.e.check(cond)
        if m is None:
            return
        if m == "unknown":
            self.e.aborted = "unknown"
            raise eng.PathLimit("solver unknown")
        raise eng.Violation(msg, self.e.model_inputs(m))

    def observe(self, v):
        self.e.obs.append(v)

    def label(self, s):
        self.e.labels.add(s)


class ConcCtx:
    sym = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.obs = []
        self.labels = set()
        self.nchecks = 0

    def int(self, name, lo, hi):
        # an input the refuting path never asked for: any value serves, it is judged natively all the same
        v = self.inputs.get(name, min(max(lo, 0), hi))
        if not lo <= v <= hi:
            raise Skip(name)
        return v

    def u32(self, name):
        return self.int(name, 0, 0xffffffff)

    def s32(self, name):
        return self.int(name, -(1 << 31), (1 << 31) - 1)

    def index(self, name, n):
        return self.int(name, 0, n - 1)

    def flag(self, name):
        return bool(self.index(name, 2))

    def choice(self, name, options):
        return options[self.index(name, len(options))]

    def bytes(self, name, n):
        return bytes([self.int("%s.%d" % (name, k), 0, 255) for k in range(n)])

    def chars(self, name, cps):
        return "".join(chr(self.int("%s.%d" % (name, k), lo, hi)) for k, (lo, hi) in enumerate(cps))

    def assume(self, c):
        if not c:
            raise Skip("assume")

    def check(self, cond, msg):
        self.nchecks += 1
        if not cond:
            raise Failure(msg)

    def observe(self, v):
        self.obs.append(v)

    def label(self, s):
        self.labels.add(s)


def freeze(v, ev=lambda x: x):
    """JSON-able normal form of an observation; ev resolves symbolic scalars."""
    from .values import SymBytes, SymSet, FinVal, has_tok, is_tok, tok
    if isinstance(v, (SymInt, SymBool)):
        return freeze(ev(v))
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, str):
        if has_tok(v):
            return "".join(_tok(tok(c), ev) if is_tok(c) else c for c in v)
        return v
    if v is None or isinstance(v, (int, float)):
        return v
    if isinstance(v, (bytes, bytearray, SymBytes)):
        return ["b"] + [freeze(x, ev) for x in v]
    if isinstance(v, (list, tuple)):
        return [freeze(x, ev) for x in v]
    if isinstance(v, (set, frozenset, SymSet)):
        return ["s"] + sorted((freeze(x, ev) for x in v), key=repr)
    if isinstance(v, FinVal):
        return freeze(v.tab[ev(v.key)], ev)
    if isinstance(v, dict):
        return [[freeze(k, ev), freeze(x, ev)] for k, x in v.items()]
    if hasattr(type(v), "__int__"):
        return freeze(type(v).__int__(v), ev)
    return repr(type(v).__name__)


def _tok(p, ev):
    k, v = p[0], p[1]
    if k == "fin":
        return str(v.tab[ev(v.key)])
    x = ev(v)
    return {"chr": chr, "dec": str, "hex": hex, "hexplain": "{:x}".format, "HEXplain": "{:X}".format}[k](x)


class Instance:
    """One harness with fixed parameters; bounds: text stating what is symbolic and how far."""

    def __init__(self, name, fn, bounds, params=None, reach=(), max_branches=20000):
        self.name, self.fn, self.bounds = name, fn, bounds
        self.params = params or {}
        self.reach = reach
        self.max_branches = max_branches
