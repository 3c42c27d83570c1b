"""Conversion between formats without optimization."""
from sx.ctx import Instance
from sx.hid import SPEC, mk, Sink, item_of
from sx.files import mem, content
from sx.engine import b_all
from sx.text import text_eq

FORMATS = ("binary", "hex", "code")


def eq(a, b):
    if isinstance(a, str):
        return text_eq(a, b)
    return (a == b) if len(a) == len(b) else False


def fmt(name, items):
    from hrdc.stream.formatter import Formatter
    f = mem(name)
    s = Formatter.get(name)(f)
    for i in items:
        s.append(i)
    s.close()
    return content(f)


def conv(a, b, data):
    from hrdc.stream.formatter import Formatter
    from hrdc.stream.parser import Parser
    out = mem(b)
    Parser.get(a)(mem(a, data), Formatter.get(b)(out)).read()
    return content(out)


def parse(a, data):
    from hrdc.stream.parser import Parser
    s = Sink()
    Parser.get(a)(mem(a, data), s).read()
    return s


def convert(ctx, classes, a, b, lims):
    items, want = [], []
    for k, c in enumerate(classes):
        if c in ("Push", "Pop", "EndCollection"):
            items.append(mk(c))
            want.append((c, 0))
            continue
        lo, hi = lims.get(c) or ((-(1 << 31), (1 << 31) - 1) if SPEC[c][2] else (0, 0xffffffff))
        v = ctx.int("v%d" % k, 0, (1 << 23) - 1) * 512 + hi if lo == "high" else ctx.int("v%d" % k, lo, hi)
        items.append(mk(c, v))
        want.append((c, v))
    first = fmt(a, items)
    second = conv(a, b, first)
    got = parse(b, second)
    ctx.observe(first)
    ctx.observe(got.items)
    ctx.check(got.closed == 1, "stream closed %d times" % got.closed)
    ctx.check([n for n, v in got.items] == [n for n, v in want], "%s to %s changed the items" % (a, b))
    ctx.check(b_all([x[1] == y[1] for x, y in zip(got.items, want)]), "%s to %s changed a value" % (a, b))
    # converting what was converted changes nothing any more
    third = conv(b, b, second)
    ctx.check(eq(third, second), "converting %s to itself changes it" % b)
    back = conv(b, a, second)
    ctx.check(eq(conv(a, a, back), back), "converting %s to itself changes it" % a)


def long(ctx, a, b):
    """Many items, of any kind and width"""
    n = ctx.choice("items", [70, 300])
    names = sorted(x for x in SPEC if x not in ("Push", "Pop", "EndCollection", "Collection"))
    items, want = [], []
    for k in range(n):
        c = names[k % len(names)]
        v = (k, 200 + k, 70000 + k)[k % 3] if c != "UsagePage" else 0xff20 + k
        if c in ("Usage", "UsageMinimum", "UsageMaximum"):
            v = 0xff010000 + k
        if k in (0, n // 2, n - 1):
            c, v = "StringIndex", ctx.int("v%d" % k, 0, 0xffff)
        items.append(mk(c, v))
        want.append((c, v))
    got = parse(b, conv(a, b, fmt(a, items)))
    ctx.observe(got.items)
    ctx.check(got.closed == 1, "stream closed %d times" % got.closed)
    ctx.check([n for n, v in got.items] == [n for n, v in want], "%s to %s changed the items" % (a, b))
    ctx.check(b_all([x[1] == y[1] for x, y in zip(got.items, want)]), "%s to %s changed a value" % (a, b))


def deep(ctx, a, b):
    """Collections and pushes nested deeply"""
    n = ctx.choice("depth", [6, 10, 18, 35])
    items, want = [], []

    def add(c, v=0):
        items.append(mk(c, v) if c not in ("Push", "Pop", "EndCollection") else mk(c))
        want.append((c, v))
    for k in range(n):
        add("UsagePage", 0xff01 + k)
        add("Push")
        add("Usage", ctx.int("u", 0xff010000, 0xff01ffff) if k == n - 1 else 0xff010000 + k)
        add("Collection", k % 7)
    for k in range(n):
        add("EndCollection")
        add("Pop")
        add("LogicalMaximum", ctx.int("v", -128, 0xffff) if k == n - 1 else k)
    got = parse(b, conv(a, b, fmt(a, items)))
    ctx.observe(got.items)
    ctx.check(got.closed == 1, "stream closed %d times" % got.closed)
    ctx.check([n for n, v in got.items] == [n for n, v in want], "%s to %s changed the items" % (a, b))
    ctx.check(b_all([x[1] == y[1] for x, y in zip(got.items, want)]), "%s to %s changed a value" % (a, b))


SEQS = [
    (["LogicalMinimum", "LogicalMaximum"], {}),
    (["ReportSize", "StringIndex"], {}),
    (["UsagePage", "Usage"], {"UsagePage": (0xff01, 0xffff)}),
    (["Collection", "Unit", "EndCollection"], {}),
    (["Push", "UnitExponent", "Pop"], {}),
    (["Input", "ReportID"], {"Input": (0, 7)}),
    (["DesignatorMinimum", "DesignatorMaximum"], {}),
    (["UsagePage", "UsageMinimum", "UsageMaximum"], {"UsagePage": (0xff01, 0xffff), "UsageMinimum": (0, 0xffff), "UsageMaximum": (0, 0xffff)}),
    (["Output", "Feature"], {"Output": (0, 3), "Feature": (254, 259)}),
    (["PhysicalMinimum", "PhysicalMaximum", "ReportCount"], {"PhysicalMinimum": (-200, 0), "PhysicalMaximum": (1, 0x7fffffff), "ReportCount": (0, 255)}),
    (["StringMinimum", "StringMaximum", "DesignatorIndex"], {"StringMinimum": (0, 9), "StringMaximum": (10, 0xffff), "DesignatorIndex": (1, 255)}),
    (["Usage", "Delimiter"], {"Delimiter": (0, 1), "Usage": (0xff010000, 0xffffffff)}),
    (["Collection", "Collection", "EndCollection", "EndCollection"], {"Collection": (0, 6)}),
]
MORE = [
    (["UsagePage", "Usage"], {}),
    (["UsagePage", "UsageMinimum", "UsageMaximum"], {"UsagePage": (0, 0xffff), "UsageMinimum": (0, 0xffff), "UsageMaximum": (0, 0xffff)}),
    (["Input", "Output"], {"Input": (0, 511), "Output": (0, 511)}),
    (["Feature"], {}),
    (["PhysicalMinimum", "PhysicalMaximum", "ReportCount"], {}),
    (["Usage", "Usage", "Delimiter"], {"Delimiter": (0, 1)}),
    (["StringMinimum", "StringMaximum", "DesignatorIndex"], {}),
    (["Collection", "Collection", "EndCollection", "EndCollection"], {}),
]


def instances(tier):
    r = []
    for cl, lims in SEQS + (MORE if tier == "thorough" else MORE[:1]):
        for a in FORMATS:
            for b in FORMATS:
                r.append(Instance("%s-%s-%s%s" % (a, b, "-".join(cl), "" if lims or "UsagePage" not in cl else "-any"),
                                  convert, "items %s, every value%s" % (", ".join(cl),
                                  " of the field" if not lims else "; " + ", ".join("%s %d..%d" % (k, *v) for k, v in lims.items())),
                                  dict(classes=cl, a=a, b=b, lims=lims)))
    # every kind of item, every value of its field
    ends = dict(ReportSize=(1, 255), StringIndex=(1, 255))
    for c in sorted(set(SPEC) - set(ends)):
        for a, b in (("binary", "code"), ("code", "hex"), ("hex", "binary")):
            def each(name, what, lims, c=c, a=a, b=b):
                r.append(Instance("%s-%s-%s-%s" % (a, b, name, c), convert, "a report size, then one %s, %s, then a string index" % (c, what),
                                  dict(classes=["ReportSize", c, "StringIndex"], a=a, b=b, lims=dict(ends, **lims))))
            if c not in ("Input", "Output", "Feature"):
                each("each", "every value of the field", {})
                continue
            for low in (2, 0x1ff):
                each("high-%x" % low, "low bits 0x%x and any higher ones" % low, {c: ("high", low)})
            if tier == "thorough":
                each("each", "every value of the field", {})
    for a in FORMATS:
        for b in FORMATS:
            r.append(Instance("%s-%s-long" % (a, b), long, "70 or 300 items of every kind, three of them with any 16 bit value", dict(a=a, b=b)))
            r.append(Instance("%s-%s-deep" % (a, b), deep, "6 to 35 levels of collections and pushes, the innermost usage and last bound symbolic",
                              dict(a=a, b=b)))
    return r
