"""Report layout: every element sits where its declaration says, per way and report id."""
from sx.ctx import Instance
from sx import hid
from sx.engine import b_all
from . import trees


def layout(ctx, shape, optimize):
    spec = shape(ctx)
    sink = hid.compile_items(hid.build(spec), optimize)
    ctx.observe(sink.items)
    got, gt = hid.meaning(sink.items, layout=True)
    want, wt = hid.declared(spec)
    g = [e[:3] + e[4:6] for e in got if e[0] in ("control", "array")]
    w = [e[:3] + e[4:6] for e in want if e[0] in ("control", "array")]
    ctx.check(len(g) == len(w), "%d elements laid out instead of %d" % (len(g), len(w)))
    ctx.check(hid.same(g, w), "an element is not at its place")
    ctx.check(hid.same(gt, wt), "report lengths differ")


def aligned(ctx, n):
    """Default alignment: whole bytes start on a byte, smaller ones on a multiple of their size."""
    ways = ["Input", "Output"]
    ds = []
    for k in range(n):
        ds.append(trees.val(trees.VENDOR + 1 + k, size=ctx.int("size%d" % k, 1, 32), way=ctx.choice("way%d" % k, ways)))
    spec = trees.app(*ds)
    sink = hid.compile_items(hid.build(spec), False)
    ctx.observe(sink.items)
    got, _ = hid.meaning(sink.items, layout=True)
    g = [e for e in got if e[0] == "control"]
    ctx.check(len(g) == n, "elements lost")
    for e, d in zip(g, ds):
        size = d[1]["size"]
        from sx.engine import ite, SymInt
        a = ite(size < 8, size, 8)
        ctx.check(e[1] % a == 0, "value not aligned on its natural boundary")
    for a, b in zip(g, g[1:]):
        if a[2] == b[2]:
            ctx.check(b[1] >= a[1] + a[5], "values overlap")


SHAPES = [trees.sizes, trees.sizes_wide, trees.aligned, trees.aligns, trees.counts, trees.counts_array,
          trees.reports, trees.report_any, trees.reports_again, trees.reports_nested, trees.reports_ways, trees.ways,
          trees.flags_constant, trees.array_range, trees.gamepad, trees.far, trees.outside, trees.many, trees.deep, trees.reports_many, trees.varied,
          trees.aligned_counts, trees.constant_aligned, trees.reports_deep]


def instances(tier):
    r = []
    for s in SHAPES:
        r.append(Instance(s.__name__, layout, (s.__doc__ or s.__name__).strip(), dict(shape=s, optimize=False)))
        if tier == "thorough" or s in (trees.sizes, trees.counts, trees.reports_again, trees.aligns):
            r.append(Instance(s.__name__ + "-optimized", layout, (s.__doc__ or s.__name__).strip() + ", optimized",
                              dict(shape=s, optimize=True)))
    n = 2 if tier == "quick" else 3
    r.append(Instance("natural", aligned, "%d values of 1..32 bits, each way" % n, dict(n=n)))
    return r
