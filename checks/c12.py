"""Decompiling a descriptor gives a tree with the same meaning."""
from sx.ctx import Instance
from sx import hid
from sx.hid import mk
from sx.engine import b_all, concretize
from . import trees, c10

V = c10.V


def normal(ctx, ev, given=False):
    """Events of a stream as a tree can declare them.  What the high level language cannot tell is outside
    the property: several usages (or strings, designators) for one control, strings and designators of
    collections, arrays of several usages that are not as many as the logical range.  Only the given stream is
    restricted to that: what was made out of it has to compare equal."""
    assume = ctx.assume if given else (lambda c: None)
    out = []
    for e in ev:
        if e[0] == "end":
            out.append(e)
        elif e[0] == "collection":
            assume(len(e[2]) <= 1 and len(e[3]) <= 1 and len(e[4]) <= 1)
            assume(b_all([len(u) <= 1 for u in e[2]]))
            assume(b_all([e[3][0] == 0, e[4][0] == 0]))
            out.append(e)
        elif e[0] == "control":
            us, ds, ss = e[12:]
            assume(len(us) <= 1 and len(ds) <= 1 and len(ss) <= 1 and all(len(u) == 1 for u in us))
            # usage 0 is no usage
            out.append(e[:12] + (ctxus(us), ds, ss))
        else:
            n, us, ds, ss = e[12:]
            assume(len(ds) <= 1 and len(ss) <= 1 and all(len(u) == 1 for u in us))
            size, lmin, lmax, flags = e[5], e[6], e[7], e[3]
            # the bounds of an empty range mean nothing
            assume(lmin <= lmax)
            named = concretize(b_all([lmax - lmin + 1 == len(us), flags == 0]))
            if not named:
                assume(len(us) <= 1)
            for k in range(n):
                r = ("array", e[1] + size * k) + e[2:8]
                # physical bounds of a choice mean nothing
                r += (0, 0) if named else (e[8], e[9])
                out.append(r + e[10:12] + (1, us, ds, ss))
    return out


def ctxus(us):
    return us


def structure(ctx, items):
    """Streams that are no descriptors, and data outside of collections, are outside the property."""
    try:
        ev, tot = hid.meaning(items, layout=True)
    except hid.Ill:
        ctx.assume(False)
    depth = 0
    for e in ev:
        depth += {"collection": 1, "end": -1}.get(e[0], 0)
        ctx.assume(e[0] in ("collection", "end") or depth > 0)
    return ev, tot


def extract(ctx, objs):
    from hrdc.descriptor.extractor import Extractor
    x = Extractor()
    for i in objs:
        x.append(i)
    x.close()
    return x.root


def compare(ctx, got, gt, want, wt, what):
    ctx.check([e[0] for e in got] == [e[0] for e in want], "%s: structure differs: %s instead of %s"
              % (what, hid.describe(got), hid.describe(want)))
    ctx.check(hid.same(got, want), "%s: meaning differs" % what)
    ctx.check(hid.same(gt, wt), "%s: report lengths differ" % what)


def objects(ctx, source, arg):
    if source == "tree":
        return hid.compile_items(hid.build(arg(ctx)), False).objs
    if source == "optimized":
        return hid.compile_items(hid.build(arg(ctx)), True).objs
    items = c10.stream(ctx, arg)
    return [mk(n, v) for n, v in items]


def decompiled(ctx, source, arg, recompile=None, fmt=None):
    objs = objects(ctx, source, arg)
    items = [hid.item_of(o) for o in objs]
    ev, wt = structure(ctx, items)
    want = normal(ctx, ev, True)
    if fmt:
        from hrdc.stream.parser import Parser
        from hrdc.descriptor.extractor import Extractor
        from sx.files import mem
        from .c04 import fmt as write
        x = Extractor()
        Parser.get(fmt)(mem(fmt, write(fmt, objs)), x).read()
        root = x.root
    else:
        root = extract(ctx, objs)
    if recompile is None:
        spec = hid.spec_of(root)
        got, gt = hid.declared(spec)
        compare(ctx, normal(ctx, got), gt, want, wt, "decompiled")
        return
    sink = hid.compile_items(root, recompile)
    ctx.observe(sink.items)
    try:
        got, gt = hid.meaning(sink.items, layout=True)
    except hid.Ill as e:
        ctx.check(False, "recompiled stream is not a valid descriptor: %s" % e)
    compare(ctx, normal(ctx, got), gt, want, wt, "recompiled")


APP = [("Usage", V + 99, V + 99), ("Collection", 1, 1)]
END = ("EndCollection",)
INT = ("Input", 2, 2)
HEAD = [("LogicalMinimum", 0, 0), ("LogicalMaximum", 1, 1), ("ReportSize", 1, 1), ("ReportCount", 1, 1)]
NARY = 0xb0001      # replaced below by a usage of the tables that is a named array


def use(k, n=1):
    return ("Usage", V + k, V + k + n - 1)


def nary():
    """A usage whose declared type is a named array."""
    from hrdc.usage import usage as U
    return min(v for v, u in U.Usage.reverse.items() if U.NAry in u.kinds)


def templates(tier):
    T = []

    def t(name, doc, slots):
        T.append((name, doc, APP + slots + [END]))

    S8 = ("ReportSize", 1, 12)
    t("sizes", "three items of 1 to 12 bits, any way", HEAD + [x for k in range(3) for x in (
        S8, use(1 + k), [[("Input", 2, 2)], [("Output", 2, 2)]])])
    t("fields", "arrays, buffers and values of 1 to 4 fields of 1 to 12 bits, one of full bytes after them", HEAD + [
        ("ReportSize", 1, 4), ("ReportCount", 1, 4), use(1), [[("Input", 0x102, 0x102)], [("Input", 1, 1)], [INT]],
        ("ReportSize", 2, 8), ("ReportCount", 1, 2), use(1), [[("Input", 0x102, 0x102)], [("Input", 0, 0)]],
        [[("ReportSize", 8, 8)], [("ReportSize", 16, 16)]], ("ReportCount", 1, 1), use(2), INT])
    t("anonymous", "collections without a usage, empty or not, reports around them", HEAD + [
        [[("Collection", 0, 3), use(1), INT, END], [("Collection", 0, 3), END], []], ("ReportID", 1, 2), use(2), INT,
        ("Collection", 0, 3), [[use(3), INT], [("ReportID", 1, 2), use(3), INT], [("Collection", 0, 1), END], []], END,
        [[("ReportID", 1, 3), use(4), INT], []]])
    t("counts", "items of 0 to 3 controls with up to two usages, strings and designators", HEAD + [
        ("ReportCount", 0, 3), use(1, 2), [[use(3, 2)], []], [[("StringIndex", 0, 3)], []], [[("StringIndex", 0, 3)], []],
        [[("DesignatorIndex", 0, 3)], []], INT, ("ReportCount", 1, 2), use(5), INT])
    t("bounds", "any 32 bit bounds, unit and exponent", HEAD + [
        ("LogicalMinimum",) + c10.S32, ("LogicalMaximum",) + c10.S32, ("PhysicalMinimum",) + c10.S32,
        ("PhysicalMaximum",) + c10.S32, ("Unit", 0, 0xffffffff), ("UnitExponent",) + c10.S32, use(1), INT])
    t("globals", "globals kept by later items", HEAD + [
        ("PhysicalMaximum", 0, 3), ("Unit", 0, 3), use(1), INT, [[("LogicalMaximum", 0, 3)], []], [[("PhysicalMaximum", 0, 3)], []],
        [[("Unit", 0, 3)], []], use(2), INT])
    t("stack", "globals around Push and Pop", HEAD + [
        ("Unit", 0, 3), ("Push",), [[("Unit", 0, 3)], [("LogicalMaximum", 1, 3)], [("ReportSize", 1, 3)],
                                  [("UsagePage", 0xff02, 0xff03)], [("ReportCount", 1, 2)]],
        [[use(1)], [("Usage", 1, 3)]], INT, ("Pop",), [[use(2)], [("Usage", 1, 3)]], INT])
    pg = ("UsagePage", 0xff02, 0xff03)
    t("pages", "short usages, page before or after", [pg] + HEAD + [
        [[("Usage", 1, 3)], [use(1)]], [[pg], []], INT, ("Usage", 1, 3), INT])
    t("ranges", "usage ranges, mixed with usages", [pg] + HEAD + [
        [[("UsageMinimum", 1, 2), ("UsageMaximum", 2, 3)], [("Usage", 7, 8)]],
        [[("UsageMinimum", 4, 4), ("UsageMaximum", 4, 6)], [("Usage", 9, 9)], []],
        ("ReportCount", 1, 5), INT])
    t("ranges-extended", "usage ranges that carry their page", HEAD + [
        ("UsageMinimum", V + 1, V + 3), ("UsageMaximum", V + 3, V + 5), ("ReportCount", 1, 5), INT, use(7), INT])
    for kind, idx, mn, mx in (("string", "StringIndex", "StringMinimum", "StringMaximum"),
                              ("designator", "DesignatorIndex", "DesignatorMinimum", "DesignatorMaximum")):
        t("ranges-" + kind, "%s ranges, mixed with indexes" % kind, HEAD + [
            use(1), use(2), use(3), [[(mn, 0, 2), (mx, 2, 3)], [(idx, 0, 3)]], [[(mn, 4, 4), (mx, 4, 5)], [(idx, 0, 3)], []],
            ("ReportCount", 3, 3), INT, use(4), ("ReportCount", 1, 1), INT])
        t("wide-" + kind, "%s ranges and indexes beyond 16 bits" % kind, HEAD + [
            use(1), use(2), use(3), [[(mn, 0xfffe, 0xffff), (mx, 0x10000, 0x10001)], [(mn, 0x1fffe, 0x1ffff), (mx, 0x20000, 0x20000)],
                                     [(idx, 0, 0xffffffff), (idx, 0, 0xffffffff)]],
            ("ReportCount", 3, 3), INT, use(4), (idx, 0, 0xffffffff), ("ReportCount", 1, 1), INT])
    t("constant", "constant items between controls", HEAD + [
        S8, use(1), INT, S8, ("ReportCount", 0, 3), [[("Input", 1, 1)], [("Input", 3, 3)], [("Output", 3, 3)]], ("ReportSize", 8, 8),
        ("ReportCount", 1, 1), use(2), INT])
    t("flags", "flags of a data item", HEAD + [use(1), ("Input", 0, 511), use(2), INT])
    t("reports", "report ids before items, in any order", HEAD + [x for k in range(3) for x in (
        [[("ReportID", 1, 3)], []], use(1 + k), [[INT], [("Output", 2, 2)]])])
    t("report-nested", "report ids and collections", HEAD + [
        ("ReportID", 1, 2), use(1), INT, use(9), ("Collection", 2, 2), [[("ReportID", 1, 3)], []], use(2), INT,
        [[("ReportID", 1, 3), use(3), INT], []], END, [[("ReportID", 1, 3)], []], use(4), INT])
    t("collections", "nested collections, with values or without", HEAD + [
        use(1), ("Collection", 0, 255), [[use(2), INT], []], END, [[use(3)], []], ("Collection", 0, 255),
        use(4), ("Collection", 2, 2), [[use(5), INT], []], END, END, use(6), INT])
    t("stray", "local items right before the end of a collection or a constant", HEAD + [
        use(1), ("Collection", 0, 2), [[use(2), INT], []],
        [[use(3, 2)], [("UsageMinimum", V + 1, V + 2), ("UsageMaximum", V + 2, V + 3)], [("StringIndex", 1, 2)], [("DesignatorIndex", 1, 2)]],
        [[END], [("Input", 3, 3), END]], [[use(7)], [("StringIndex", 1, 2), use(7)]], INT, use(8), INT])
    A = ("Input", 0, 0)
    t("array", "arrays of 1 to 3 usages, any one byte range, counts 0 to 3", [
        ("LogicalMinimum", 0, 1), ("LogicalMaximum", 0, 3), ("ReportSize", 8, 8), ("ReportCount", 0, 3),
        use(1, 3), [[use(2)], []], [[use(3), use(5)], []], [[("StringIndex", 0, 2)], [("DesignatorIndex", 0, 2)], []],
        [[("Unit", 0, 1)], [("UnitExponent", -8, 7)]], A,
        ("LogicalMaximum", 3, 3), ("ReportCount", 1, 1), use(7), INT])
    t("array-offset", "arrays that start anywhere", [
        ("LogicalMinimum",) + c10.S32, ("LogicalMaximum",) + c10.S32, ("ReportSize", 8, 8), ("ReportCount", 1, 2),
        [[use(1), use(2)], [("UsageMinimum", V + 1, V + 2), ("UsageMaximum", V + 3, V + 3)]], A, use(7), INT])
    t("array-range", "arrays over usage ranges", [
        ("LogicalMinimum", 0, 0), ("LogicalMaximum", 0, 4), ("ReportSize", 8, 8), ("ReportCount", 1, 2),
        ("UsageMinimum", V + 1, V + 2), ("UsageMaximum", V + 2, V + 4), A, use(7), INT])
    t("array-globals", "arrays with any unit, exponent, physical bounds, string, designator and flags", [
        ("LogicalMinimum", 0, 1), ("LogicalMaximum", 2, 2), ("ReportSize", 8, 8), ("ReportCount", 1, 1),
        ("PhysicalMinimum",) + c10.S32, ("PhysicalMaximum",) + c10.S32, ("Unit", 0, 0xffffffff), ("UnitExponent",) + c10.S32,
        use(1), use(2), [[("StringIndex", 0, 255), ("DesignatorIndex", 0, 255)], []],
        [[A], [("Input", 0x40, 0x40)], [("Feature", 0x80, 0x80)], [("Output", 4, 4)]], use(7), INT])
    t("apps", "two or three top level collections that share reports, of any sizes", HEAD + [
        [[("ReportID", 1, 2)], []], S8, use(1), INT, END, use(90), ("Collection", 1, 1), [[("ReportID", 1, 2)], []],
        S8, use(2), [[INT], [("Output", 2, 2)], [("Input", 3, 3), ("ReportSize", 8, 8), use(5), INT]], END,
        [[use(91), ("Collection", 1, 1), ("ReportSize", 8, 8), use(3), INT, END], []], use(92), ("Collection", 1, 1), use(4), INT])
    t("wide", "values, constants and arrays of 1 to 300 bits", HEAD + [
        ("ReportSize", 1, 300), use(1), [[INT], [("Input", 3, 3)], [("Input", 0x102, 0x102)], [A]], [[("ReportSize", 30, 66)], [("ReportSize", 1, 1)]],
        use(2), [[INT], [("Output", 2, 2)]]])
    t("report-wide", "report ids up to 255", HEAD + [
        [[("ReportID", 127, 129)], [("ReportID", 254, 255)], [("ReportID", 1, 2)]], use(1), INT,
        [[("ReportID", 128, 129)], [("ReportID", 254, 255)], []], use(2), [[INT], [("Output", 2, 2)]],
        [[("ReportID", 1, 1)], [("ReportID", 254, 255)]], use(3), INT])
    t("deep-stack", "Push nested twelve times, one of bounds, page, unit or size symbolic",
      [("UsagePage", 0xff01, 0xff01)] + HEAD
      + [x for k in range(12) for x in (("Push",), ("LogicalMaximum", 2 + k % 3, 2 + k % 3), ("UsagePage", 0xff02 + k, 0xff02 + k))]
      + [[[("LogicalMaximum", 1, 4)], [("UsagePage", 0xff05, 0xff0e)], [("Unit", 0, 1)], [("ReportSize", 1, 2)]], ("Usage", 5, 5), INT]
      + [x for k in range(12) for x in (("Pop",), ("Usage", 2 + k % 2, 2 + k % 2), INT)] + [("Usage", 9, 9), INT])
    t("long-range", "260 or 300 controls over a usage range, strings and designators for some", HEAD + [
        [[("ReportCount", 260, 260)], [("ReportCount", 300, 300)]],
        ("UsageMinimum", V + 0xf0, V + 0xf0), [[("UsageMaximum", V + 0x1f2, V + 0x1f5)], [("UsageMaximum", V + 0x220, V + 0x221)]],
        [[("StringMinimum", 1, 1), ("StringMaximum", 255, 257)], [("DesignatorMinimum", 2, 2), ("DesignatorMaximum", 256, 258)], []],
        INT, ("ReportCount", 1, 1), use(3), INT])
    t("long-reports", "40, 130 or 300 controls of a report, then controls of other ones", HEAD + [
        use(9), ("Collection", 1, 1), ("ReportID", 1, 1), [[("ReportCount", 40, 40)], [("ReportCount", 130, 130)], [("ReportCount", 300, 300)]],
        use(1), INT, ("ReportCount", 1, 1), [[("ReportID", 1, 3)], []], use(2), [[INT], [("Output", 2, 2)]],
        [[("ReportID", 1, 3)], [END, use(8), ("Collection", 1, 1)]], use(3), INT, END])
    t("long-array", "arrays over up to 300 usages", [
        ("LogicalMinimum", 0, 1), [[("LogicalMaximum", 255, 257)], [("LogicalMaximum", 300, 300)]], ("ReportSize", 16, 16),
        ("ReportCount", 1, 2), ("UsageMinimum", V + 1, V + 1), ("UsageMaximum", V + 256, V + 257), A, use(7), INT])
    t("long-constant", "constants of thousands of bits", HEAD + [
        use(1), INT, [[("ReportCount", 255, 257)], [("ReportCount", 2, 2)], [("ReportCount", 3000, 3001)]],
        [[("ReportSize", 31, 33)], [("ReportSize", 255, 257)]],
        [[("Input", 1, 1)], [("Output", 1, 1)]], ("ReportSize", 1, 2), ("ReportCount", 1, 1), use(2), INT])
    t("buffers", "buffers of any length, with a string and a designator or neither", HEAD + [
        [[("ReportCount", 0, 3)], [("ReportCount", 15, 17)], [("ReportCount", 254, 258)], [("ReportCount", 4095, 4097)], [("ReportCount", 65534, 65537)]],
        ("ReportSize", 8, 9), use(1), [[("StringIndex", 0, 3), ("DesignatorIndex", 0, 3)], []], [[("Feature", 0x102, 0x103)], [("Input", 0x102, 0x102)]],
        ("ReportCount", 1, 1), use(2), INT])
    t("empty", "items of no bits or of no fields, controls, arrays or constants", [("LogicalMinimum", 0, 0), ("LogicalMaximum", 1, 1)] + [
        x for k in range(2) for x in (("ReportSize", 0, 2), ("ReportCount", 0, 2), use(1 + k), [[INT], [("Input", 0, 1)], [("Output", 0x102, 0x103)]])]
      + HEAD + [use(9), INT])
    t("many-reports", "20 reports in turns", HEAD + [x for k in range(20) for x in (("ReportID", k + 1, k + 1), use(k), INT)]
      + [("ReportID", 1, 21), use(50), INT, [[("Output", 2, 2)], [("ReportID", 20, 21), use(51), INT]]])
    t("many-items", "40 data items with other globals each, then a symbolic one", HEAD + [x for k in range(40) for x in (
        (("LogicalMaximum", 2 + k, 2 + k), ("Unit", k, k), ("ReportSize", 1 + k % 9, 1 + k % 9),
         ("PhysicalMaximum", k % 5, k % 5), ("StringIndex", k, k), ("UnitExponent", k % 7, k % 7))[k % 6], use(2 * k), INT)]
      + [[[("LogicalMaximum", 36, 43)], [("Unit", 36, 39)], [("PhysicalMaximum", 0, 4)]], use(200), INT])
    return T


def special(tier):
    """Collections that stand for a named array."""
    n = nary()
    N = ("Usage", n, n)
    L = [("LogicalMinimum", 1, 1), ("LogicalMaximum", 1, 2), ("ReportSize", 8, 8), ("ReportCount", 1, 1)]
    arr = [use(1), use(2), ("Input", 0, 0)]
    one = [use(1), INT]
    return [("named", "a named array collection with one array, values or both, any of them first",
             APP + L + [N, ("Collection", 2, 2), [arr, one, []], [arr, one, [use(4), ("Collection", 0, 0), END], []], END,
                        [[use(5), INT], []], END]),
            ("named-nested", "collections inside a named array collection",
             APP + L + [N, ("Collection", 2, 2), use(3), ("Collection", 0, 2), [arr, one, []], END, [arr, []], END, END]),
            ("named-twice", "a named array collection inside another one",
             APP + L + [N, ("Collection", 2, 2), [[N], [use(3)]], ("Collection", 2, 2), [arr, one, []], END, END, [[use(5), INT], []], END]),
            ("named-anonymous", "collections without a usage",
             APP + L + [[[N], []], ("Collection", 2, 2), [arr, [use(1), INT]], END, END])]


def aligns_few(ctx):
    """Align and padding of up to 8 bits between values of up to 4 bits"""
    return trees.app(trees.val(trees.VENDOR + 1, size=ctx.int("size0", 1, 4)), ("align", "Input", ctx.int("b0", 0, 8)),
                     ("pad", ctx.choice("w1", ["Input", "Output"]), ctx.int("p1", 1, 4)),
                     trees.val(trees.VENDOR + 2, size=ctx.int("size1", 1, 4)), ("align", "Input", 8))


TREES = list(trees.QUICK) + [aligns_few] + trees.LONG
# thousands of paths once optimized: C09 decides those, quick runs leave their decompilation to C12's plain ones
HEAVY = ("physical_default", "physical", "aligns", "aligned_counts", "constant_aligned")


def instances(tier, recompile=None):
    r = []
    for o in ("tree", "optimized"):
        for t in TREES:
            if recompile is not None and o == "optimized":
                continue
            if tier == "quick" and t.__name__ in HEAVY and (o == "optimized" or recompile or t.__name__ == "aligns"):
                continue
            r.append(Instance("%s-%s" % (o, t.__name__), decompiled, (t.__doc__ or t.__name__).strip(),
                              dict(source=o, arg=t, recompile=recompile)))
    for n, d, s in templates(tier) + special(tier):
        r.append(Instance("stream-" + n, decompiled, d, dict(source="stream", arg=s, recompile=recompile)))
    if recompile is None:
        for n, d, s in templates(tier):
            if n in ("pages", "counts", "stack", "reports"):
                r.append(Instance("binary-" + n, decompiled, d + ", read from binary", dict(source="stream", arg=s, fmt="binary")))
    return r


BUDGET = {"quick": 300, "thorough": 3000}
