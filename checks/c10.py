"""Optimization preserves the meaning of any valid item stream."""
from sx.ctx import Instance
from sx import hid
from sx.hid import mk

V = 0xff010000
NONE = ()
DATA = [("Input", 2, 2)]
S32 = (-(1 << 31), (1 << 31) - 1)
HEAD = [("LogicalMinimum", 0, 0), ("LogicalMaximum", 1, 1), ("ReportSize", 1, 1), ("ReportCount", 1, 1)]
INT = ("Input", 2, 2)


def stream(ctx, slots):
    """Items of a template: a slot is an item (name, lo, hi), or a list of alternatives, each a list of items."""
    out = []
    for k, s in enumerate(slots):
        alts = s if isinstance(s, list) else [[s]]
        alt = ctx.choice("alt%d" % k, alts) if len(alts) > 1 else alts[0]
        for j, it in enumerate(alt):
            name = it[0]
            if len(it) == 1:
                out.append((name, None))
            else:
                out.append((name, ctx.int("%s%d.%d" % (name, k, j), it[1], it[2])))
    return out


def alike(n, v):
    """Item whose value goes by a name, the same for all values (counts are numbers)"""
    from hrdc.util import NamedConstant
    return mk(n, v if v is None or n == "ReportCount" else NamedConstant("Mine.this", v))


def preserved(ctx, slots, parsed=False, window=None, named=False):
    """window: picks which optimizers to use (C21)"""
    items = stream(ctx, slots)
    pairs = [(n, 0 if v is None else v) for n, v in items]
    try:
        want, wt = hid.meaning(pairs, layout=True, strict=True)
    except hid.Ill:
        ctx.assume(False)
        return
    objs = [(alike if named else mk)(n, v) for n, v in items]
    if parsed:
        from hrdc.stream.parser import Parser
        from hrdc.stream.optimizer import Optimizer
        from .c04 import fmt
        from sx.files import mem
        sink = hid.Sink()
        Parser.get(parsed)(mem(parsed, fmt(parsed, objs)), Optimizer.new(sink)).read()
    elif window:
        sink = window(ctx, objs)
    else:
        sink = hid.optimize_items(objs)
    ctx.observe(sink.items)
    ctx.check(sink.closed == 1, "stream closed %d times" % sink.closed)
    try:
        got, gt = hid.meaning(sink.items, layout=True, strict=True)
    except hid.Ill as e:
        ctx.check(False, "optimized stream is not a valid descriptor: %s" % e)
    ctx.check([e[0] for e in got] == [e[0] for e in want], "optimized structure differs: %s instead of %s"
              % (hid.describe(got), hid.describe(want)))
    ctx.check(hid.same(got, want), "optimized stream has another meaning")
    ctx.check(gt.pop("bounds") == wt.pop("bounds"), "logical bounds are declared for other items")
    ctx.check(hid.same(gt, wt), "report lengths differ")
    if len(sink.items) < len(pairs):
        ctx.label("shrunk")


def use(k, n=1):
    return ("Usage", V + k, V + k + n - 1)


def glob2(name, lo, hi):
    """A global changed around Push and Pop."""
    it = (name, lo, hi)
    return HEAD + [it, use(1), INT, [[("Push",)], []], [[it], []], [[use(2)], []], INT, [[("Pop",)], []],
                   [[it], []], use(5), INT]


def glob_first(name, lo, hi):
    """Push before anything was set."""
    it = (name, lo, hi)
    return [("Push",)] + HEAD + [[[it], []], use(1), INT, ("Pop",)] + HEAD[1:] + [[[it], []], use(2), INT]


# what may happen between two main items
def menu(tier):
    m = [[], [("Push",)], [("Pop",)], [("UsagePage", 0xff02, 0xff03)], [("Usage", 1, 2)], [("Usage", V + 3, V + 4)],
         [("StringIndex", 1, 3)], [("DesignatorIndex", 0, 2)], [("LogicalMaximum", 1, 2)],
         [("ReportCount", 0, 3)], [("Input", 2, 2)], [("Input", 0, 0)]]
    return m


def templates(tier):
    T = []

    F = 15 if tier == "quick" else 63

    def t(name, doc, slots, **kw):
        T.append((name, doc, slots, kw))

    small = {"LogicalMinimum": (-2, 1), "LogicalMaximum": (0, 3), "PhysicalMinimum": (-2, 1), "PhysicalMaximum": (0, 3),
             "UnitExponent": (-2, 1), "Unit": (0, 3), "ReportSize": (0, 3), "ReportCount": (0, 3), "ReportID": (1, 3),
             "UsagePage": (0xff01, 0xff03)}
    wide = {"LogicalMinimum": S32, "LogicalMaximum": S32, "PhysicalMinimum": S32, "PhysicalMaximum": S32,
            "UnitExponent": S32, "Unit": (0, 0xffffffff), "ReportSize": (0, 256), "ReportCount": (0, 4),
            "ReportID": (1, 3), "UsagePage": (0, 0xffff)}
    for n, (lo, hi) in (wide if tier == "thorough" else small).items():
        t("stack-" + n, "%s %d..%d set up to three times, with Push and Pop possibly in between" % (n, lo, hi),
          glob2(n, lo, hi))
    for n, (lo, hi) in wide.items():
        it = (n, lo, hi)
        t("wide-" + n, "%s of any value from %d to %d, set up to three times" % it,
          HEAD + [it, ("Usage", 1, 1), INT, it, [[("Usage", 2, 2)], [use(3)]], INT, [[it], []], ("Usage", 5, 5), INT])
    for n, m in (("LogicalMinimum", "PhysicalMinimum"), ("LogicalMaximum", "PhysicalMaximum")):
        t("equal-" + n, "%s and %s of any 32 bit value, either set again" % (n, m),
          HEAD + [(n,) + S32, (m,) + S32, use(1), INT, [[(n,) + S32], [(m,) + S32]], use(2), INT])
    for n in ("LogicalMaximum", "PhysicalMaximum", "Unit", "ReportID", "UsagePage", "ReportSize"):
        t("first-" + n, "Push at the very beginning, then %s %d..%d" % ((n,) + small[n]), glob_first(n, *small[n]))
    t("physical-stack", "physical bounds against logical ones around Push/Pop",
      [("LogicalMinimum", 0, 0), ("LogicalMaximum", 1, 2), ("ReportSize", 1, 1), ("ReportCount", 1, 1),
       ("PhysicalMinimum", 0, 0), ("PhysicalMaximum", 0, 2), use(1), INT, ("Push",), [[("PhysicalMaximum", 0, 2)], []],
       [[("LogicalMaximum", 1, 2)], []], use(3), INT, ("Pop",), [[("LogicalMaximum", 1, 2)], []], use(5), INT])
    t("physical-partial", "bounds set one at a time over three main items",
      HEAD + [[[("PhysicalMinimum", 0, 1)], []], [[("PhysicalMaximum", 0, 1)], []], INT,
              [[("LogicalMinimum", 0, 1)], [("LogicalMaximum", 0, 1)]], INT,
              [[("PhysicalMinimum", 0, 1)], [("PhysicalMaximum", 0, 1)], []], INT])
    pg = ("UsagePage", 1, 3)
    t("page-late", "usage page given after the usages, or between them",
      [pg] + HEAD + [[[("Usage", 1, 3)], [("Usage", 0x10001, 0x30003)]], [[pg], []],
                     [[("Usage", 1, 3)], [("Usage", 0x20001, 0x20003)], []], [[pg], []], INT,
                     ("Usage", 1, 3), INT])
    t("page-range", "usage range in any page, page before, between or after",
      HEAD + [[[pg], []], ("UsageMinimum", 1, 2), [[pg], []], ("UsageMaximum", 2, 4), [[pg], []],
              ("ReportCount", 1, 3), INT, ("Usage", 1, 4), INT])
    t("page-push", "short usages around Push and Pop of the usage page",
      HEAD + [pg, [[("Usage", 1, 2)], []], ("Push",), [[("Usage", 2, 3)], []], pg, [[("Usage", 3, 4)], []], [[INT], []],
              ("Pop",), ("Usage", 1, 4), INT])
    t("page-extended", "extended and short usages of several pages",
      HEAD + [("UsagePage", 1, 2)] + [[[("Usage", 1, 2)], [("Usage", 0x10001, 0x10003)], [("Usage", 0x20001, 0x20002)]]] * 3
      + [("ReportCount", 1, 3), INT, [[("Usage", 3, 3)], [("Usage", 0x20003, 0x20003)]], INT])
    t("locals-usage", "sequences of usages and usage ranges in front of one or two main items",
      HEAD + [[[use(1, 3)], [("UsageMinimum", V + 1, V + 2), ("UsageMaximum", V + 2, V + 4)]],
              [[use(2, 3)], [("UsageMinimum", V + 3, V + 4), ("UsageMaximum", V + 4, V + 5)], []],
              ("ReportCount", 1, 3), INT, [[use(2, 3), INT], []]])
    for kind, idx, mn, mx in (("string", "StringIndex", "StringMinimum", "StringMaximum"),
                              ("designator", "DesignatorIndex", "DesignatorMinimum", "DesignatorMaximum")):
        t("locals-" + kind, "%s indexes and ranges" % kind,
          HEAD + [use(1), [[(idx, 0, 3)], [(mn, 0, 2), (mx, 2, 4)]],
                  [[(idx, 0, 3)], [(mn, 3, 3), (mx, 4, 4)], []],
                  ("ReportCount", 1, 3), INT, use(2), [[(idx, 0, 3)], []], ("ReportCount", 1, 1), INT])
        t("wide-" + kind, "two %s indexes of any 32 bit value" % kind,
          HEAD + [use(1), (idx, 0, 0xffffffff), INT, use(2), (idx, 0, 0xffffffff), INT])
        t("list-" + kind, "three %s indexes in one main item" % kind,
          HEAD + [use(1), (idx, 0, 3), (idx, 0, 3), (idx, 0, 3), ("ReportCount", 1, 3), INT])
    D1, D0 = ("Delimiter", 1, 1), ("Delimiter", 0, 0)
    t("delimiter", "usages inside and outside delimiters",
      HEAD + [[[use(1, 2)], []], D1, use(1, 3), use(2, 3), [[use(3, 3)], []], D0, [[use(4, 2)], []],
              ("ReportCount", 1, 2), INT, [[use(1)], []], ("ReportCount", 1, 1), INT])
    t("delimiter-merge", "delimiter sets in main items that look mergeable",
      HEAD + [[[D1, use(1, 2), use(2), D0], [use(1)]], INT, [[D1, use(3), use(4), D0], [use(2), use(3)], [use(2)]], INT])
    t("runs", "three usages anywhere in a page, every order",
      HEAD + [("ReportCount", 3, 3), ("Usage", V, V + 0xffff), ("Usage", V, V + 0xffff), ("Usage", V, V + 0xffff), INT])
    t("runs-array", "same, as an array",
      HEAD + [("ReportCount", 1, 2), ("Usage", V, V + 0xffff), ("Usage", V, V + 0xffff), ("Usage", V, V + 0xffff),
              ("Input", 0, 0)])
    t("runs-edge", "usages across the end of a page",
      HEAD + [("ReportCount", 2, 2), ("Usage", V + 0xfffd, V + 0x10002), ("Usage", V + 0xfffd, V + 0x10002), INT])
    t("flags", "data flags of two consecutive items",
      HEAD + [use(1), ("Input", 0, F), use(2), ("Input", 0, F)])
    t("flags-high", "flags above bit 7, nine bit values",
      HEAD + [use(1), [[("Input", 2, 2)], [("Input", 256, 258)], [("Input", 130, 130)], [("Input", 510, 511)]],
              use(2), [[("Input", 2, 2)], [("Input", 256, 258)], [("Input", 130, 130)], [("Input", 510, 511)]]])
    t("ways", "items of any way, one after the other",
      HEAD + [x for k in range(3) for x in (use(1 + k), [[("Input", 2, 2)], [("Output", 2, 2)], [("Feature", 2, 2)]])])
    t("counts", "report counts of 0 to 3 around merged items",
      HEAD[:3] + [x for k in range(3) for x in (("ReportCount", 0, 3), [[use(1 + k)], []], [[INT], [("Input", 3, 3)]])])
    t("collections", "collections between main items, with locals of their own",
      HEAD + [use(1), [[("StringIndex", 0, 2)], []], ("Collection", 0, 255), use(1, 2), [[("DesignatorIndex", 0, 1)], []], INT,
              [[("EndCollection",), use(2), INT], [use(2), INT, ("EndCollection",)],
               [use(3), ("Collection", 2, 2), use(2), INT, ("EndCollection",), ("EndCollection",)]]])
    t("reports", "report ids changing between items, values in any order",
      HEAD + [x for k in range(3) for x in ([[("ReportID", 1, 2)], []], use(1 + k), [[INT], [("Output", 2, 2)]])])
    t("padding", "constant items between controls",
      HEAD + [use(1), INT, [[("Input", 3, 3)], [("Input", 1, 1)]], [[("ReportSize", 1, 7)], []], [[("Input", 1, 1)], []],
              [[("ReportSize", 1, 1)], []], use(2), INT])
    t("trailing", "globals after the last main item",
      HEAD + [use(1), INT, [[("ReportCount", 2, 2)], [("LogicalMaximum", 1, 3)], [("Push",), ("Pop",)], []],
              [[("UsagePage", 1, 2)], [("ReportID", 1, 2)], []]])
    t("nested-stack", "Push nested twice",
      HEAD + [use(1), ("Push",), ("LogicalMaximum", 1, 2), INT, ("Push",), ("LogicalMaximum", 1, 3), use(2), INT, ("Pop",),
              use(3), INT, ("Pop",), use(4), INT])
    deep = [use(1)] + [x for k in range(12) for x in (("Push",), ("LogicalMaximum", 2 + k % 3, 2 + k % 3), ("UsagePage", 0xff02 + k, 0xff02 + k))]
    t("deep-stack", "Push nested twelve times, one of bounds, page, unit or size symbolic",
      [("UsagePage", 0xff01, 0xff01)] + HEAD + deep
      + [[[("LogicalMaximum", 1, 4)], [("UsagePage", 0xff05, 0xff0e)], [("Unit", 0, 1)], [("ReportSize", 1, 2)]], ("Usage", 5, 5), INT]
      + [x for k in range(12) for x in (("Pop",), ("Usage", 2 + k % 2, 2 + k % 2), INT)] + [("Usage", 9, 9), INT])
    for kind, n in (("Usage", 40), ("StringIndex", 40), ("DesignatorIndex", 40)):
        b = V if kind == "Usage" else 0
        t("long-" + kind, "%d %s items in a row, one of them symbolic, in one main item" % (n, kind),
          HEAD + [(kind, b + k, b + k) for k in range(1, 20)] + [(kind, b + 18, b + 23)] + [(kind, b + k, b + k) for k in range(21, n + 1)]
          + ([use(77)] if kind != "Usage" else []) + [("ReportCount", n - 1, n), INT, [[use(3)], []], ("ReportCount", 1, 1), INT])
    t("long-merge", "300 alike data items, the second and last but one with any count, flags or usage",
      HEAD + [use(1), INT, [[("ReportCount", 1, 2)], []], use(2), [[INT], [("Input", 2, 7)]]]
      + [x for k in range(296) for x in (("ReportCount", 1, 1), use(3 + k), INT)] + [("Usage", V + 298, V + 300), INT, use(301), INT])
    t("far-globals", "40 data items with other globals each, then one symbolic",
      HEAD + [x for k in range(40) for x in ((("LogicalMaximum", 2 + k, 2 + k), ("Unit", k, k), ("ReportSize", 1 + k % 9, 1 + k % 9),
                                              ("PhysicalMaximum", k % 5, k % 5), ("ReportID", 1 + k // 4, 1 + k // 4),
                                              ("UnitExponent", k % 7, k % 7))[k % 6], use(2 * k), INT)]
      + [[[("LogicalMaximum", 36, 43)], [("Unit", 36, 39)], [("ReportID", 1, 12)], [("PhysicalMaximum", 0, 4)]], use(200), INT])
    slots = 3 if tier == "quick" else 4
    t("free", "%d successive items out of %d kinds, then a data item" % (slots, len(menu(tier))),
      [("UsagePage", 0xff02, 0xff02)] + HEAD + [("Usage", 5, 5)] + [menu(tier)] * slots + [[[INT], [("Pop",), INT]]])
    t("free2", "data item, then %d successive items, then a data item" % slots,
      [("UsagePage", 0xff02, 0xff02)] + HEAD + [("Usage", 5, 5), INT, ("Usage", 6, 6)] + [menu(tier)] * (slots - 1)
      + [[[INT], [("Pop",), INT]]])
    return T


BUDGET = {"quick": 200, "thorough": 3000}
PARSED = ("page-late", "delimiter", "locals-usage", "stack-LogicalMaximum", "nested-stack", "flags")

NAMED = ("stack-Unit", "stack-ReportSize", "stack-UsagePage", "stack-PhysicalMaximum", "physical-partial", "runs", "page-extended", "list-string",
         "reports", "flags")


def instances(tier):
    r = [Instance(n, preserved, d, dict(slots=s, **kw)) for n, d, s, kw in templates(tier)]
    for n, d, s, kw in templates(tier):
        if n in PARSED:
            r.append(Instance(n + "-binary", preserved, d + ", read from binary", dict(slots=s, parsed="binary", **kw)))
        if n in NAMED:
            r.append(Instance(n + "-named", preserved, d + ", all values under one name", dict(slots=s, named=True, **kw)))
    return r
