"""Any selection of optimizers preserves what a descriptor means."""
from sx.ctx import Instance
from sx import hid
from . import c10, trees

#: precedences in use; other ones would only make the bounds select other sets of optimizers
PRECEDENCES = [10, 20, 30, 35, 40, 50, 60, 70]


def windows():
    """Bounds that select each optimizer alone, and each run of them from either end"""
    p = PRECEDENCES
    w = [(x - 1, x + 1) for x in p]
    w += [(0, x) for x in p] + [(x, 100) for x in p]
    return w


def alone():
    return [(x - 1, x + 1) for x in PRECEDENCES]


def run(ctx, objs, w, sink=None):
    from hrdc.stream.optimizer import Optimizer
    sink = sink or hid.Sink()
    lo, hi = ctx.choice("bounds", w)
    o = Optimizer.new(sink, lo, hi)
    for i in objs:
        o.append(i)
    o.close()
    return sink


def some(ctx, objs):
    return run(ctx, objs, windows())


def one(ctx, objs):
    return run(ctx, objs, alone())


def everything(ctx):
    """Items of which each optimizer changes something"""
    v, d = ctx.int("v", 0, 255), ctx.int("d", 0, 1)
    r = [("UsagePage", 0xff00), ("ReportSize", 8), ("ReportSize", 8), ("ReportCount", 1)]
    r += [("LogicalMinimum", 0), ("LogicalMaximum", v), ("PhysicalMinimum", 0), ("PhysicalMaximum", v)]
    r += [("Usage", 0xff000001), ("Collection", 1), ("UsagePage", 0xff00), ("DesignatorIndex", d), ("Usage", 0xff000002), ("Input", 2)]
    r += [("Usage", 0xff000002), ("Input", 2), ("Usage", 0xff000005), ("Usage", 0xff000006), ("Usage", 0xff000007), ("ReportCount", 3), ("Input", 2)]
    r += [("StringIndex", 1), ("StringIndex", 2), ("StringIndex", 3), ("DesignatorIndex", 1), ("DesignatorIndex", 2), ("DesignatorIndex", 3)]
    r += [("UsagePage", 1), ("Usage", 0xff000003), ("Output", 2), ("DesignatorIndex", 0), ("Feature", 2)]
    return r + [("EndCollection", 0)]


def order(ctx):
    """With bounds that hold none, items go straight through"""
    from hrdc.stream.optimizer import Optimizer
    lo = ctx.int("min", 0, 100)
    hi = ctx.int("max", 0, 100)
    ctx.assume(lo + 1 >= hi)
    sink = hid.Sink()
    items = everything(ctx)
    o = Optimizer.new(sink, lo, hi)
    for n, v in items:
        o.append(hid.mk(n, v))
    o.close()
    ctx.check([n for n, x in sink.items] == [n for n, x in items], "optimized although no optimizer was asked for")
    ctx.check(hid.b_all([x == v for (n, x), (m, v) in zip(sink.items, items)]), "items changed although no optimizer was asked for")


def selected(ctx):
    """Bounds select the optimizers in between, neither more nor less"""
    from hrdc.stream.optimizer import Optimizer
    lo, hi = ctx.int("min", 0, 100), ctx.int("max", 0, 100)
    items = everything(ctx)
    got, want = hid.Sink(), hid.Sink()
    o, w = Optimizer.new(got, lo, hi), want
    for p in PRECEDENCES:
        if lo < p and p < hi:
            w = Optimizer.new(w, p - 1, p + 1)
    for n, v in items:
        o.append(hid.mk(n, v))
        w.append(hid.mk(n, v))
    o.close()
    w.close()
    ctx.check([n for n, x in got.items] == [n for n, x in want.items], "other optimizers than those within the bounds are used")
    ctx.check(hid.b_all([x == v for (n, x), (m, v) in zip(got.items, want.items)]), "other optimizers than those within the bounds are used (values)")


#: templates that are small enough for every selection
EVERY = ("page-late", "page-range", "locals-string", "locals-designator", "locals-usage", "physical-stack", "runs-edge", "ways",
         "padding", "trailing", "nested-stack", "collections", "delimiter-merge", "reports", "first-Unit", "first-UsagePage")
SLOW = ("free", "free2", "page-extended", "counts", "delimiter")


def instances(tier):
    r = [Instance("none", order, "bounds 0..100 between which there is no optimizer"),
         Instance("selected", selected, "bounds 0..100 each, on items of which each optimizer changes something")]
    for n, d, s, kw in c10.templates("quick"):
        if n in EVERY or tier == "thorough":
            r.append(Instance("some-" + n, c10.preserved, d + ", each optimizer, and those below and above each",
                              dict(slots=s, window=some, **kw)))
        elif n not in SLOW:
            r.append(Instance("one-" + n, c10.preserved, d + ", each optimizer alone", dict(slots=s, window=one, **kw)))
    return r


BUDGET = {"quick": 300, "thorough": 3000}
