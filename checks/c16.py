"""Named constants stand for their number."""
from sx.ctx import Instance
from sx.engine import b_all, b_not, concretize
from sx.hid import ival

OPS = {"add": lambda a, b: a + b, "mul": lambda a, b: a * b, "and": lambda a, b: a & b, "or": lambda a, b: a | b}
SIDES = ("constant-constant", "constant-int")
BOTH = SIDES + ("int-constant",)


def arith(ctx, op, side, lo, hi):
    from hrdc.util import NamedConstant
    a, b = ctx.int("a", lo, hi), ctx.int("b", lo, hi)
    x = NamedConstant("a", a) if side.startswith("constant") else a
    y = NamedConstant("b", b) if side.endswith("constant") else b
    r = OPS[op](x, y)
    ctx.observe(ival(r))
    ctx.check(ival(r) == OPS[op](a, b), "%s of named constants is not that of their numbers" % op)
    ctx.check(b_all([ival(x) == a, ival(y) == b]), "an operand changed")


def shift(ctx, left):
    from hrdc.util import NamedConstant
    a, n = ctx.int("a", 0, 0xffffffff), ctx.int("n", 0, 16)
    k = concretize(n)
    x = NamedConstant("a", a)
    y = NamedConstant("n", k) if ctx.flag("named") else k
    r = x << y if left else x >> y
    ctx.observe(ival(r))
    ctx.check(ival(r) == (a << k if left else a >> k), "a shifted constant is not its shifted number")


def invert(ctx):
    from hrdc.util import NamedConstant
    a = ctx.int("a", -(1 << 31), 0xffffffff)
    r = ~NamedConstant("a", a)
    ctx.check(ival(r) == -a - 1, "an inverted constant is not its inverted number")


def compare(ctx, other):
    """Equality, order and hashing follow the numbers, names play no role"""
    from hrdc.util import NamedConstant
    from hrdc.usage import Usage
    a, b = ctx.int("a", 0, 0xffffffff), ctx.int("b", 0, 0xffffffff)
    x = NamedConstant("a", a)
    y = {"int": lambda: b, "constant": lambda: NamedConstant(ctx.choice("name", ["a", "b"]), b),
         "usage": lambda: Usage("u", b, register=False)}[other]()
    e, l = bool(x == y), bool(x < y)
    ctx.observe([e, l])
    ctx.check((a == b) if e else b_not(a == b), "equality is not that of the numbers")
    ctx.check((a < b) if l else b_not(a < b), "order is not that of the numbers")
    ctx.check(bool(x != y) == (not e), "both equal and different")
    ctx.check(bool(y == x) == e, "equality is not symmetric")
    ctx.check(bool(y > x) == l, "order is not antisymmetric")


def key(ctx):
    """A constant and its number are the same key"""
    from hrdc.util import NamedConstant
    a = ctx.int("a", 0, 20)
    b = ctx.int("b", 0, 20)
    x, y = NamedConstant("a", concretize(a)), NamedConstant("b", concretize(b))
    d = {x: 1}
    ctx.check(d.get(y) == (1 if ival(x) == ival(y) else None), "constants of a number are not one key")
    ctx.check(d.get(concretize(b)) == (1 if ival(x) == ival(y) else None), "a constant is not found by its number")


def text(ctx):
    from hrdc.util import NamedConstant
    from sx.text import text as txt, text_eq
    a = ctx.int("a", 0, 0xffffffff)
    n = ctx.chars("n", [(33, 126)] * 3)
    x = NamedConstant(n, a)
    ctx.check(text_eq(txt(x), n), "a constant does not go by its name")
    ctx.check(ival(x) == a, "a constant is not its number")


#: HID 1.11 6.2.2.5
FLAGS = dict(Data=0, Constant=1, Array=0, Variable=2, Absolute=0, Relative=4, NoWrap=0, Wrap=8, Linear=0, NonLinear=16,
             PreferredState=0, NoPreferred=32, NoNullPosition=0, NullState=64, NonVolatile=0, Volatile=128, BitField=0,
             BufferedBytes=256)
KINDS = dict(Physical=0, Application=1, Logical=2, Report=3, NamedArray=4, UsageSwitch=5, UsageModifier=6)
WAYS = dict(Input=8, Output=9, Feature=11)


def flags(ctx):
    """Flags combine to the bits the standard gives them"""
    from hrdc.descriptor import Value
    from sx.engine import ite
    names = sorted(FLAGS)
    v, want = 0, 0
    for k in range(3):
        n = ctx.choice("f%d" % k, names)
        v, want = v | getattr(Value, n), want | FLAGS[n]
    ctx.check(ival(v) == want, "flags combine to other bits")
    for n in names:
        ctx.check(ival(want & getattr(Value, n)) == want & FLAGS[n], "a flag tests other bits")


def standard(ctx, table, where):
    import importlib
    o = importlib.import_module("hrdc." + where[0])
    for w in where[1:]:
        o = getattr(o, w)
    n = ctx.choice("name", sorted(table))
    ctx.check(ival(getattr(o, n)) == table[n], "%s.%s is not the standard's" % (where[-1], n))


def foreign(ctx):
    """What is no number is no operand"""
    from hrdc.util import NamedConstant
    import operator
    c = NamedConstant("c", ctx.u32("value"))
    x = ctx.choice("operand", ["x", None, (), {}])
    op = getattr(operator, ctx.choice("op", ["add", "mul", "and_", "or_", "lshift", "rshift"]))
    a, b = (c, x) if ctx.flag("left") else (x, c)
    try:
        r = op(a, b)
        ok = True
    except Exception:
        ok = False
    ctx.check(not ok, "an operation with what is no number gives a result")


def instances(tier):
    r = []
    for op in OPS:
        for s in (BOTH if op in ("and", "or") else SIDES):
            lo, hi = (0, 0xffffffff) if op in ("and", "or") else (-0x80000000, 0xffffffff) if op == "add" else (-0x8000, 0xffff)
            r.append(Instance("%s-%s" % (op, s), arith, "operands %d..%d" % (lo, hi), dict(op=op, side=s, lo=lo, hi=hi)))
    r += [Instance("shift-left", shift, "32 bit values, shifts of 0..16", dict(left=True)),
          Instance("shift-right", shift, "32 bit values, shifts of 0..16", dict(left=False)),
          Instance("invert", invert, "32 bit values"), Instance("key", key, "values 0..20"),
          Instance("text", text, "names of 3 characters"),
          Instance("foreign", foreign, "any value; text, None, a tuple or a table on either side"),
          Instance("flags", flags, "three flags, any of them")]
    for k, (t, w) in enumerate(((WAYS, ("descriptor", "Value")), (KINDS, ("descriptor", "Collection")), (FLAGS, ("descriptor", "Value")),
                                (FLAGS, ("stream.item", "DataItem")), (KINDS, ("stream.item", "Collection")))):
        r.append(Instance("standard-%d" % k, standard, "%d constants of %s" % (len(t), w[-1]), dict(table=t, where=w)))
    r += [Instance("compare-" + o, compare, "32 bit values", dict(other=o)) for o in ("int", "constant", "usage")]
    return r
