"""Optimized descriptors have no redundancy left."""
from sx.ctx import Instance
from sx import hid
from sx.engine import b_all, b_any, b_not, concretize, ite
from . import trees, c10

KEPT = ("Unit", "UnitExponent", "PhysicalMinimum", "PhysicalMaximum")      # nothing declared means 0
SAME = ("LogicalMinimum", "LogicalMaximum", "PhysicalMinimum", "PhysicalMaximum", "Unit", "UnitExponent", "ReportSize",
        "ReportID")


def groups(items):
    """(main item, value, locals before it, globals in force) of a stream"""
    g = dict.fromkeys(KEPT, 0)
    loc, out, stack = [], [], []
    for name, v in items:
        kind = hid.SPEC[name][0]
        if name == "Push":
            stack.append(dict(g))
        elif name == "Pop":
            g = stack.pop()
        elif kind == 1:
            g[name] = v
        elif kind == 2:
            loc.append((name, v))
        else:
            out.append((name, v, loc, dict(g)))
            loc = []
    return out


def single(loc, n):
    """One usage, string and designator each, ranges expanded: (usages, designators, strings), None when there
    are other things"""
    r = []
    for key, idx in (("Usage", "Usage"), ("Designator", "DesignatorIndex"), ("String", "StringIndex")):
        lo = [v for m, v in loc if m == key + "Minimum"]
        hi = [v for m, v in loc if m == key + "Maximum"]
        one = [v for m, v in loc if m == idx]
        if lo or hi:
            if one or len(lo) != 1 or len(hi) != 1:
                return None
            one = hid.expand(lo[0], hi[0])
        if one and len(one) != n:
            return None
        r.append(one)
    return r


def page(u, g):
    return ite(u >= 0x10000, u // 65536, g.get("UsagePage", 0))


def canonical(ctx, items, merged=True, ranges=True):
    g = dict.fromkeys(KEPT, 0)
    stack = []
    bad = []
    for name, v in items:
        if name == "Push":
            stack.append(dict(g))
        elif name == "Pop":
            g = stack.pop()
        elif hid.SPEC[name][0] == 1:
            if name in g:
                bad.append(g[name] == v)
            g[name] = v
    ctx.check(b_not(b_any(bad)), "a global is set to the value it has already")
    gs = groups(items)
    for name, v, loc, g in gs:
        d = [(m, u) for m, u in loc if m.startswith("Designator")]
        if len(d) == 1 and d[0][0] == "DesignatorIndex":
            ctx.check(d[0][1] != 0, "a designator of zero stands alone")
    for name, v, loc, g in gs:
        if name in hid.WAYS:
            lmin, lmax, pmin, pmax = [g.get(k, 0) for k in SAME[:4]]
            ctx.check(b_not(b_all([lmin == pmin, lmax == pmax, b_not(b_all([pmin == 0, pmax == 0]))])),
                      "physical bounds that are the logical ones are declared")
        us = [u for m, u in loc if m.startswith("Usage")]
        pages = [page(u, g) for u in us]
        one = b_all([p == pages[0] for p in pages])
        ctx.check(b_not(b_all([one, b_any([u >= 0x10000 for u in us])])), "a usage carries its page though one page would do")
        for key, idx in (("Usage", "Usage"), ("Designator", "DesignatorIndex"), ("String", "StringIndex")):
            one = [u for m, u in loc if m == idx]
            if not ranges and key == "Usage":
                continue
            if len(one) >= 3 and not any(m in (key + "Minimum", key + "Maximum", "Delimiter") for m, u in loc):
                run = b_all([one[0] != 0] + [b_all([b == a + 1, b % 65536 != 0]) for a, b in zip(one, one[1:])])
                ctx.check(b_not(run), "successive %s indexes are not a range" % key.lower())
    if not merged:
        return
    for a, b in zip(gs, gs[1:]):
        if a[0] != b[0] or a[0] not in hid.WAYS:
            continue
        na, nb = concretize(a[3]["ReportCount"]), concretize(b[3]["ReportCount"])
        la, lb = single(a[2], na), single(b[2], nb)
        if la is None or lb is None or any(bool(x) != bool(y) for x, y in zip(la, lb)) or not na or not nb:
            continue
        cond = [a[1] == b[1], b_any([a[1] & hid.VARIABLE != 0, a[1] & hid.CONSTANT != 0])]
        cond += [a[3].get(k, 0) == b[3].get(k, 0) for k in SAME]
        if la[0]:
            cond += [page(u, a[3]) == page(lb[0][0], b[3]) for u in la[0]]
            cond += [page(u, b[3]) == page(lb[0][0], b[3]) for u in lb[0]]
        ctx.check(b_not(b_all(cond)), "two data items that only differ in their usages are not merged")


def length(items):
    """Bytes a stream takes"""
    n = 0
    for name, v in items:
        if name not in ("Push", "Pop", "EndCollection"):
            f1, f2 = hid.enc_sizes(name, v)
            n = n + ite(f1, 2, ite(f2, 3, 5))
        else:
            n = n + 1
    return n


def compiled(ctx, shape, merged=True):
    tree = hid.build(shape(ctx))
    sink = hid.compile_items(tree, True)
    ctx.observe(sink.items)
    canonical(ctx, sink.items, merged=merged)
    plain = hid.compile_items(tree, False)
    ctx.check(length(sink.items) <= length(plain.items), "the optimized descriptor is longer than the plain one")


def again(ctx, shape):
    """Optimizing what is optimized saves nothing more"""
    sink = hid.compile_items(hid.build(shape(ctx)), True)
    ctx.observe(sink.items)
    twice = hid.optimize_items(sink.objs)
    ctx.check(len(twice.items) == len(sink.items), "optimizing twice gives %d items, once %d" % (len(twice.items), len(sink.items)))


def stream(ctx, slots, mixed=False):
    """mixed: usages with and without a page follow each other; only a reader tells which of them are successive"""
    items = c10.stream(ctx, slots)
    try:
        hid.meaning(items)
    except hid.Ill:
        ctx.assume(False)
    sink = hid.optimize_items([hid.mk(n, v) for n, v in items])
    ctx.observe(sink.items)
    canonical(ctx, sink.items, merged=False, ranges=not mixed)


COUNTED = ("counts", "counts_array", "aligned", "aligns", "aligned_counts", "constant_aligned")     # declared with a count: those items may stay apart


def instances(tier):
    r = []
    for s in trees.LONG + trees.ALIKE:
        r.append(Instance("tree-" + s.__name__, compiled, s.__doc__.strip(), dict(shape=s, merged=s.__name__ not in COUNTED)))
    for s in trees.QUICK:
        d = (s.__doc__ or s.__name__).strip()
        r.append(Instance("tree-" + s.__name__, compiled, d, dict(shape=s, merged=s.__name__ not in COUNTED)))
        r.append(Instance("again-" + s.__name__, again, d + ", optimized twice", dict(shape=s)))
    for n, d, s, kw in c10.templates(tier):
        if n.startswith("stack-") or n in ("nested-stack", "reports", "padding", "trailing", "counts", "collections", "locals-designator",
                                        "locals-string", "locals-usage", "list-string", "list-designator", "runs", "runs-array", "runs-edge",
                                        "page-late", "page-range", "page-push", "page-extended", "physical-stack", "physical-partial",
                                        "delimiter", "long-Usage", "long-StringIndex"):
            r.append(Instance("stream-" + n, stream, d, dict(slots=s, mixed=n in ("page-late", "page-range", "page-push", "page-extended"))))
    return r


BUDGET = {"quick": 300, "thorough": 3000}
