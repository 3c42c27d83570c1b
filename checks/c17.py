"""Units carry each dimension's exponent where the standard puts it."""
from sx.ctx import Instance
from sx.engine import b_all, b_not, concretize, ite
from sx.hid import ival, mk
from .c06 import UNITS

DIMS = {"length": 1, "mass": 2, "time": 3, "temperature": 4, "current": 5, "luminousintensity": 6}


def nibble(x):
    return ite(x < 0, x + 16, x)


def one(ctx, dim):
    from hrdc.descriptor import Unit
    x = ctx.int("x", -1000, 1000)
    try:
        v = getattr(Unit, dim)(x)
    except (AssertionError, ValueError, OverflowError):
        ctx.label("refused")
        ctx.check(b_not(b_all([x >= -8, x <= 7])), "an exponent that fits is refused")
        return
    ctx.label("ok")
    ctx.observe(ival(v))
    ctx.check(b_all([x >= -8, x <= 7]), "an exponent that does not fit is accepted")
    ctx.check(ival(v) == nibble(x) * (1 << (4 * DIMS[dim])), "the exponent is not in its place")


def combined(ctx, a, b, c):
    """Dimensions combine without touching each other"""
    from hrdc.descriptor import Unit
    s = ctx.choice("system", ["SILinear", "SIRotation", "EnglishLinear", "EnglishRotation"])
    x, y, z = [ctx.int("x%d" % k, -8, 7) for k in range(3)]
    v = getattr(Unit, s) | getattr(Unit, a)(x) | getattr(Unit, b)(y) | getattr(Unit, c)(z)
    ctx.observe(ival(v))
    want = {"SILinear": 1, "SIRotation": 2, "EnglishLinear": 3, "EnglishRotation": 4}[s]
    for d, e in ((a, x), (b, y), (c, z)):
        want = want + nibble(e) * (1 << (4 * DIMS[d]))
    ctx.check(ival(v) == want, "a combined unit has other exponents")
    it = mk("Unit", v)
    ctx.check(ival(it.value) == want, "the unit item holds something else")
    el = it.bytes()
    n = len(el) - 1
    ctx.check(sum(el[1 + k] * (1 << (8 * k)) for k in range(n)) == want, "the unit is encoded as something else")


def usual(ctx):
    """The named units are those of the standard"""
    from hrdc.descriptor import Unit
    t = {n: v for v, n in UNITS.items() if n != "Velocity"}
    t["CmPerSec"] = 0xf011
    n = ctx.choice("unit", sorted(t))
    u = getattr(Unit, n)
    ctx.check(ival(u) == t[n], "%s is another unit" % n)
    it = mk("Unit", u)
    ctx.check(ival(it.value) == t[n], "the item of %s holds something else" % n)


def instances(tier):
    r = [Instance(d, one, "exponents -1000..1000", dict(dim=d), reach=("ok", "refused")) for d in DIMS]
    D = sorted(DIMS)
    tr = [(D[k], D[(k + 1) % 6], D[(k + 2) % 6]) for k in range(6)]
    if tier == "thorough":
        import itertools
        tr = list(itertools.combinations(D, 3))
    for t in tr:
        r.append(Instance("-".join(t), combined, "three dimensions, every exponent, every system", dict(a=t[0], b=t[1], c=t[2])))
    r.append(Instance("usual", usual, "every named unit"))
    return r
