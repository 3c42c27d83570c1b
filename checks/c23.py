"""Descriptors whose collections or pushes do not match are refused by the decompiler, others are not."""
from sx.ctx import Instance
from sx import hid
from sx.hid import mk

V = 0xff010000
MENU = ["collection", "end", "push", "pop", "input", "report"]
MORE = MENU + ["anonymous"]


def sequence(ctx, n, fmt=None, menu=MENU, levels=(0,), pushes=(0,), closed=False):
    """n steps, after some levels and pushes, closed afterwards or not"""
    objs = [mk("LogicalMinimum", 0), mk("LogicalMaximum", 1), mk("ReportSize", 1), mk("ReportCount", 1)]
    depth, stack = ctx.choice("levels", list(levels)), ctx.choice("pushes", list(pushes))
    ill = None
    some = depth > 0
    for k in range(depth):
        objs += [mk("Usage", ctx.int("outer%d" % k, V + 1, V + 0xffff)), mk("Collection", 2 if k else 1)]
    for k in range(stack):
        objs += [mk("Push"), mk("LogicalMaximum", 2 + k)]
    for k in range(n):
        c = ctx.choice("step%d" % k, menu)
        if c == "collection":
            objs += [mk("Usage", ctx.int("usage%d" % k, V + 1, V + 0xffff)), mk("Collection", ctx.int("kind", 0, 7) if not some else 1)]
            depth += 1
            some = True
        elif c == "anonymous":
            ctx.assume(depth > 0)
            objs.append(mk("Collection", ctx.int("kind%d" % k, 0, 7)))
            depth += 1
        elif c == "end":
            objs.append(mk("EndCollection"))
            depth -= 1
        elif c == "push":
            objs.append(mk("Push"))
            stack += 1
        elif c == "pop":
            objs.append(mk("Pop"))
            stack -= 1
        elif c == "report":
            objs.append(mk("ReportID", ctx.choice("id%d" % k, [1, 2])))
        elif c == "input":
            # data outside of collections is not decided here
            ctx.assume(depth > 0 or ill is not None)
            objs += [mk("Usage", V), mk("Input", 2)]
        elif c == "data":
            ctx.assume(depth > 0)
            objs.append(mk("ReportSize", ctx.int("size%d" % k, 0, 3)))
            if ctx.flag("named%d" % k):
                objs.append(mk("Usage", ctx.int("usage%d" % k, V + 1, V + 0xffff)))
            objs.append(mk("Input", ctx.choice("flags%d" % k, [0, 2])))
        if depth < 0 or stack < 0:
            ill = ill or ("an end without a collection" if depth < 0 else "Pop without Push")
            break
    if closed and not ill:
        # two reports, then whatever is open ends, but for one of them or not
        for k in range(2):
            if depth > 0:
                objs += [mk("ReportID", 1 + k), mk("Usage", V + 1 + k), mk("Input", 2)]
        left = ctx.choice("left", [0, 1])
        ctx.assume(left <= depth)
        objs += [mk("EndCollection") for k in range(depth - left)]
        depth = left
    if stack < 0:
        # nothing else is wrong with it
        objs += [mk("EndCollection") for k in range(depth)]
        depth = 0
    if depth > 0:
        ill = ill or "a collection without an end"
    ctx.assume(some or ill is not None)
    ctx.label("ill" if ill else "well")
    tree, err = None, None
    try:
        if fmt:
            from hrdc.stream.parser import Parser
            from hrdc.descriptor.extractor import Extractor
            from sx.files import mem
            from .c04 import fmt as write
            x = Extractor()
            Parser.get(fmt)(mem(fmt, write(fmt, objs)), x).read()
            tree = x.root
        else:
            from .c12 import extract
            tree = extract(ctx, objs)
    except Exception as e:
        err = type(e).__name__
    ctx.observe([err])
    if ill:
        ctx.check(err is not None, "a stream with %s is accepted" % ill)
    else:
        ctx.check(err is None, "a well formed stream is refused (%s)" % err)
        names = [hid.item_of(o)[0] for o in objs]
        spec = hid.spec_of(tree)
        for what, kind in (("Collection", "col"), ("Input", "val")):
            ctx.check(count(spec, kind) == names.count(what), "%d of %d %s items are in the tree" % (count(spec, kind), names.count(what), what))


def far(ctx):
    """Deep nesting, with one thing too few or too many"""
    n = ctx.choice("depth", [9, 17, 34])
    what = ctx.choice("what", ["collection", "stack"])
    err = ctx.choice("error", ["none", "missing", "extra"])
    objs = [mk("LogicalMinimum", 0), mk("LogicalMaximum", 1), mk("ReportSize", 1), mk("ReportCount", 1)]
    v = ctx.int("v", 0, 0xffff)
    if what == "stack":
        objs += [mk("Usage", V), mk("Collection", 1)]
    for k in range(n):
        objs += [mk("Usage", V + k), mk("Collection", 2)] if what == "collection" else [mk("Push"), mk("LogicalMaximum", k)]
    objs += [mk("LogicalMaximum", v), mk("Usage", V + 1), mk("Input", 2)]
    m = n + {"none": 0, "missing": -1, "extra": 1}[err]
    objs += [mk("EndCollection" if what == "collection" else "Pop") for k in range(m)]
    if what == "stack":
        objs.append(mk("EndCollection"))
    ill = err == "extra" or err == "missing" and what == "collection"
    from .c12 import extract
    tree, exc = None, None
    try:
        tree = extract(ctx, objs)
    except Exception as e:
        exc = type(e).__name__
    ctx.observe([exc])
    if ill:
        ctx.check(exc is not None, "a stream with an end %s is accepted" % err)
    else:
        ctx.check(exc is None, "a well formed stream is refused (%s)" % exc)
        spec = hid.spec_of(tree)
        ctx.check(count(spec, "col") == (n if what == "collection" else 1) and count(spec, "val") == 1, "the tree lacks collections or values")


def count(spec, kind):
    n = spec[0] == kind
    return n + sum(count(m, kind) for m in spec[-1]) if spec[0] in ("top", "rep", "col") else int(n)


def instances(tier):
    n = 4 if tier == "quick" else 6
    r = [Instance("steps-%d" % k, sequence, "any %d steps out of %s" % (k, ", ".join(MENU)), dict(n=k),
                  reach=("ill", "well") if k > 1 else ("ill",)) for k in range(1, n + 1)]
    r.append(Instance("inner", sequence, "any %d steps within 1 to 4 collections and after 0 to 2 pushes, then the ends, or one too few" % (n - 2),
                      dict(n=n - 2, menu=MORE, levels=(1, 2, 3, 4), pushes=(0, 1, 2), closed=True), reach=("ill", "well")))
    r.append(Instance("reports", sequence, "any %d steps of collections, with a usage or without, data and report ids, then two reports" % (n - 1),
                      dict(n=n - 1, menu=["anonymous", "collection", "end", "input", "report"], levels=(1, 2), closed=True), reach=("ill", "well")))
    r.append(Instance("data", sequence, "any %d steps of collections, data of 0 to 3 bits, with a usage or without, and report ids" % (n - 1),
                      dict(n=n - 1, menu=["collection", "end", "data", "report"], levels=(1,), closed=True), reach=("ill", "well")))
    r.append(Instance("far", far, "9 to 34 levels of collections or pushes, one end missing, too many, or none"))
    for f in ("binary", "hex"):
        r.append(Instance("read-" + f, sequence, "any 4 steps, read as " + f, dict(n=4, fmt=f, menu=MENU[:4]), reach=("ill", "well")))
    r.append(Instance("deep", sequence, "8 or 10 steps of collections and ends", dict(n=8 if tier == "quick" else 10, menu=["collection", "end"]), reach=("ill", "well")))
    return r
