"""Optimization preserves the meaning of compiled descriptors."""
from sx.ctx import Instance
from sx import hid
from . import trees


def preserved(ctx, shape):
    spec = shape(ctx)
    tree = hid.build(spec)
    sink = hid.compile_items(tree, True)
    ctx.observe(sink.items)
    ctx.check(sink.closed == 1, "stream closed %d times" % sink.closed)
    got, gt = hid.meaning(sink.items, layout=True, strict=True)
    ctx.check(all(b == (True, True) for b in gt.pop("bounds")), "logical bounds are not declared")
    want, wt = hid.declared(spec)
    ctx.check([e[0] for e in got] == [e[0] for e in want], "optimized structure differs: %s instead of %s"
              % (hid.describe(got), hid.describe(want)))
    ctx.check(hid.same(got, want), "optimized meaning differs from the declaration")
    ctx.check(hid.same(gt, wt), "report lengths differ")


def instances(tier):
    return [Instance(s.__name__, preserved, (s.__doc__ or s.__name__).strip(), dict(shape=s)) for s in trees.QUICK + trees.LONG + trees.ALIKE]
