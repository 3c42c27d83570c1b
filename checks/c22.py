"""Declarations are completed with the documented defaults, or refused."""
from sx.ctx import Instance
from sx import hid
from sx.engine import b_all
from . import trees

V = trees.VENDOR
#: doc/descriptor.rst: arguments of Value, in order, after way, usage and size
ARGS = ["flags", "logicalMin", "logicalMax", "physicalMin", "physicalMax", "namedArray", "unit", "unitExponent",
        "designator", "string", "count", "alignment"]
DEFAULT = dict(flags=2, logicalMin=1, logicalMax=None, physicalMin=None, physicalMax=None, namedArray=None, unit=0,
               unitExponent=0, designator=0, string=0, count=1, alignment=None)


def compiled(ctx, tree, spec, what):
    sink = hid.compile_items(tree, False)
    ctx.observe(sink.items)
    got, gt = hid.meaning(sink.items, layout=True)
    want, wt = hid.declared(spec)
    ctx.check([e[0] for e in got] == [e[0] for e in want], "%s: declares %s instead of %s"
              % (what, hid.describe(got), hid.describe(want)))
    ctx.check(hid.same(got, want), "%s: other attributes are declared" % what)
    ctx.check(hid.same(gt, wt), "%s: other lengths" % what)


def some(ctx, given):
    d = dict(logicalMax=ctx.int("logicalMax", 0, 300))
    for n in given:
        if n == "flags":
            f = ctx.int("flags", 0, 0x1ff if len(given) == 1 else 15)
            ctx.assume((f & 1) == 0)
            d[n] = f
        elif n in ("count", "alignment"):
            d[n] = ctx.int(n, 0, 3 if n == "count" else 9)
        else:
            d[n] = ctx.int(n, -3, 300) if "M" in n or n == "unitExponent" else ctx.int(n, 0, 300)
    return d


def omitted(ctx, given):
    """Arguments not given are as if their default was given"""
    from hrdc.descriptor import Value, Collection
    d = some(ctx, given)
    way = ctx.choice("way", ["Input", "Output", "Feature"])
    size = ctx.int("size", 1, 16)
    full = dict(DEFAULT, **d)
    spec = trees.app(("val", dict(way=way, usage=V + 1, size=3, logicalMax=1)),
                     ("val", dict({k: v for k, v in full.items() if v is not None}, way=way, usage=V + 2, size=size)))
    first = Value(getattr(Value, way), V + 1, 3, logicalMax=1)
    style = ctx.index("style", 3) if len(given) < 2 else 0
    w = getattr(Value, way)
    if style == 0:
        v = Value(w, V + 2, size, **d)
    elif style == 1:
        v = Value(way=w, usage=V + 2, size=size, **d)
    else:
        v = Value(w, V + 2, size, *[full[n] for n in ARGS])
    compiled(ctx, Collection(1, trees.APP, first, v), spec, "given %s" % (sorted(d),))


def array(ctx, how):
    """Named arrays set their own flags and upper bound"""
    from hrdc.descriptor import Value, Collection
    from hrdc.usage import UsageRange
    n = 1 + ctx.index("n", 4)
    base = ctx.int("base", V, V + 0xff00)
    d = {}
    if ctx.flag("with minimum"):
        d["logicalMin"] = ctx.int("logicalMin", -300, 300)
    if ctx.flag("with maximum"):
        d["logicalMax"] = ctx.int("logicalMax", -300, 300)
    if ctx.flag("with flags"):
        d["flags"] = ctx.int("flags", 0, 15)
    d["count"] = ctx.int("count", 1, 3)
    names = [base + k for k in range(n)]
    spec = trees.app(("val", dict(d, way="Input", usage=None, size=8, namedArray=names)))
    arr = {"list": names, "tuple": tuple(names), "range": UsageRange(base, base + n - 1)}[how]
    compiled(ctx, Collection(1, trees.APP, Value(Value.Input, None, 8, namedArray=arr, **d)), spec, "named array")


def refused(ctx):
    """Neither logical bounds nor a named array"""
    from hrdc.descriptor import Value
    f = ctx.int("flags", 0, 0x1ff)
    d = {}
    for n in ("logicalMin", "logicalMax"):
        k = ctx.index(n + " given", 3)
        if k:
            d[n] = None if k == 1 else ctx.int(n, -300, 300)
    size = ctx.int("size", 1, 300)
    names = ctx.choice("names", ["omitted", "None", "list", "tuple"])
    if names != "omitted":
        # an array that names nothing is none
        d["namedArray"] = {"None": None, "list": [], "tuple": ()}[names]
    lacking = d.get("logicalMin", 1) is None or d.get("logicalMax") is None
    try:
        Value(Value.Input, V, size, flags=f, **d)
        ok = True
    except ValueError:
        ok = False
    ctx.observe(ok)
    ctx.label("accepted" if ok else "refused")
    ctx.check(ok if not lacking else ((f & 1) != 0) == ok, "bounds %s: %s" % (sorted(d.items(), key=str) if not ctx.sym else "",
                                                                     "accepted" if ok else "refused"))


def containers(ctx, kind):
    """Trees built member by member are those built at once"""
    from hrdc.descriptor import Value, Collection, Report, TopLevel
    n = ctx.index("n", 4)

    def member(k):
        return Value(Value.Input, V + k, ctx_size[k], logicalMin=0, logicalMax=1)
    ctx_size = [ctx.int("size%d" % k, 1, 16) for k in range(n + 1)]
    make = {"collection": lambda *m: Collection(ctx.choice("kind", [0, 1, 2]), trees.APP, *m), "report": lambda *m: Report(rid, *m),
            "toplevel": lambda *m: TopLevel(*m)}[kind]
    rid = ctx.int("id", 1, 5) if kind == "report" else 0
    whole = make(*[member(k) for k in range(n)])
    if kind == "collection":
        chosen = whole.kind
        make = lambda *m: Collection(chosen, trees.APP, *m)
    at = ctx.index("at", n + 1)
    step = make(*[member(k) for k in range(at)])
    for k in range(at, n):
        step.append(member(k))
    if ctx.flag("pop"):
        step.append(member(n))
        ctx.check(len(step) == n + 1, "length after append")
        step.pop()
    ctx.check(len(step) == n and len(whole) == n, "number of members")
    ctx.check(b_all([m.usage == V + k for k, m in enumerate(step)]), "members in another order")
    for k in range(n):
        ctx.check(step[k].usage == V + k, "member %d is another" % k)
    a, b = hid.compile_items(TopLevel(step), False).items, hid.compile_items(TopLevel(whole), False).items
    ctx.observe(a)
    ctx.check(hid.same([list(x) for x in a], [list(x) for x in b]), "a tree built in steps declares something else")


def instances(tier):
    r = []
    opt = [n for n in ARGS if n not in ("logicalMax", "namedArray")]
    sets = [[]] + [[n] for n in opt] + [["physicalMin", "physicalMax"], ["logicalMin", "physicalMin"], ["logicalMin", "physicalMax"],
                                        ["unit", "unitExponent"], ["designator", "string"], ["count", "alignment"],
                                        ["flags", "count"], ["logicalMin", "physicalMin", "physicalMax"]]
    if tier == "thorough":
        sets += [[a, b] for k, a in enumerate(opt) for b in opt[k + 1:] if [a, b] not in sets]
    for s in sets:
        r.append(Instance("given-" + ("-".join(s) or "none"), omitted, "arguments %s and logicalMax given" % s, dict(given=s)))
    for h in ("list", "tuple", "range"):
        r.append(Instance("array-" + h, array, "named arrays of 1 to 4, as %s" % h, dict(how=h)))
    r.append(Instance("refused", refused, "logical bounds None, omitted or given; flags 0..0x1ff", reach=("accepted", "refused")))
    for k in ("collection", "report", "toplevel"):
        r.append(Instance("members-" + k, containers, "0 to 3 members, appended or given", dict(kind=k)))
    return r
