"""Compilation without optimization is faithful to the declaration."""
from sx.ctx import Instance
from sx import hid
from . import trees


def strip(ev):
    """Events without bit offsets (those are C08's)."""
    return [(e[0],) + e[2:] if e[0] in ("control", "array") else e for e in ev]


def faithful(ctx, shape):
    spec = shape(ctx)
    tree = hid.build(spec)
    sink = hid.compile_items(tree, False)
    ctx.observe(sink.items)
    ctx.check(sink.closed == 1, "stream closed %d times" % sink.closed)
    got, gt = hid.meaning(sink.items, layout=True, strict=True)
    ctx.check(all(b == (True, True) for b in gt["bounds"]), "logical bounds are not declared")
    want, _ = hid.declared(spec)
    got, want = strip(got), strip(want)
    ctx.check([e[0] for e in got] == [e[0] for e in want], "compiled structure differs: %s instead of %s"
              % (hid.describe(got), hid.describe(want)))
    ctx.check(hid.same(got, want), "compiled meaning differs from the declaration")


def instances(tier):
    return [Instance(s.__name__, faithful, (s.__doc__ or "").strip() + " [" + s.__name__ + "]", dict(shape=s))
            for s in trees.QUICK + trees.LONG + trees.ALIKE]
