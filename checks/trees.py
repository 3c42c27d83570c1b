"""Declarations with symbolic fields, shared by the compiler, optimizer and decompiler checks.

A shape is a function ctx -> declaration (see sx.hid.build).  Usages default to a vendor page so
that names play no role; the shapes called *registered* use the pages the package knows."""
from sx.engine import b_all, b_any, b_not

S32 = (-(1 << 31), (1 << 31) - 1)
VENDOR = 0xff010000
APP = 0x00010006
IDS = [1, 2, 5, 255]


def vusage(ctx, name, lo=1, hi=0xffff):
    return ctx.int(name, VENDOR + lo, VENDOR + hi)


def val(usage, size=8, way="Input", **kw):
    d = dict(way=way, usage=usage, size=size, logicalMin=0, logicalMax=255)
    d.update(kw)
    return ("val", d)


def app(*m):
    return ("col", 1, APP, list(m))


def bounds(ctx, n=2):
    """Values that differ in their logical bounds only."""
    vs = [val(VENDOR + 1 + k, logicalMin=ctx.int("lmin%d" % k, *S32), logicalMax=ctx.int("lmax%d" % k, *S32))
          for k in range(n)]
    return app(*vs)


def physical(ctx, n=3, r=(-2, 2)):
    """Physical bounds appear, change and disappear."""
    return app(*[val(VENDOR + 1 + k, logicalMin=ctx.int("lmin%d" % k, *r), logicalMax=1,
                     physicalMin=ctx.int("pmin%d" % k, *r), physicalMax=ctx.int("pmax%d" % k, *r)) for k in range(n)])


def physical_wide(ctx, n=2):
    return app(*[val(VENDOR + 1 + k, logicalMin=-5, logicalMax=5, physicalMin=ctx.int("pmin%d" % k, *S32),
                     physicalMax=ctx.int("pmax%d" % k, *S32)) for k in range(n)])


def physical_default(ctx):
    """Physical bounds given for some values only."""
    out = []
    for k in range(3):
        kw = {}
        if ctx.flag("given%d" % k):
            kw = dict(physicalMin=ctx.int("pmin%d" % k, -3, 300), physicalMax=ctx.int("pmax%d" % k, -3, 300))
        out.append(val(VENDOR + 1 + k, logicalMin=ctx.int("lmin%d" % k, -3, 300), logicalMax=255, **kw))
    return app(*out)


def units(ctx, n=2):
    return app(*[val(VENDOR + 1 + k, unit=ctx.u32("unit%d" % k), unitExponent=ctx.int("exp%d" % k, -128, 127))
                 for k in range(n)])


def strings(ctx, n=3, hi=3):
    return app(*[val(VENDOR + 1 + k, string=ctx.int("string%d" % k, 0, hi),
                     designator=ctx.int("desig%d" % k, 0, hi)) for k in range(n)])


def strings_wide(ctx):
    return app(*[val(VENDOR + 1 + k, string=ctx.int("string%d" % k, 0, 0xffffffff)) for k in range(2)])


def designators_wide(ctx):
    return app(*[val(VENDOR + 1 + k, designator=ctx.int("desig%d" % k, 0, 0xffffffff)) for k in range(2)])


def usages(ctx, n=3):
    """Usages contiguous or not."""
    return app(*[val(vusage(ctx, "usage%d" % k), size=1, logicalMax=1) for k in range(n)])


def usages_pages(ctx):
    """Two usages of any pages other than the registered ones."""
    return app(*[val(ctx.int("usage%d" % k, 0xff010000, 0xffffffff), size=1, logicalMax=1) for k in range(2)])


def usages_registered(ctx):
    return app(val(ctx.int("usage0", 0x10001, 0x10090)), val(ctx.int("usage1", 0x10001, 0x200ff)))


def usage_missing(ctx):
    """Values without a usage between values with one."""
    return app(val(VENDOR + 1), val(VENDOR + 2 if ctx.flag("a") else None), val(VENDOR + 3 if ctx.flag("b") else None))


def flags(ctx):
    """Any flags, two values."""
    return app(val(VENDOR + 1, flags=ctx.int("flags0", 0, 255) * 2), val(VENDOR + 2, flags=ctx.choice("flags1", [0, 2, 6])))


def flags_constant(ctx):
    """Constant data between variables."""
    return app(val(VENDOR + 1, size=ctx.int("s0", 1, 8)),
               val(None, size=ctx.int("s1", 1, 16), flags=ctx.choice("f", [1, 3])),
               val(VENDOR + 2, size=8))


def ways(ctx):
    w = ["Input", "Output", "Feature"]
    return app(*[val(VENDOR + 1 + k, way=ctx.choice("way%d" % k, w), size=ctx.int("size%d" % k, 8, 16))
                 for k in range(3)])


def sizes(ctx, n=3):
    return app(*[val(VENDOR + 1 + k, size=ctx.int("size%d" % k, 1, 12)) for k in range(n)])


def sizes_wide(ctx):
    return app(val(VENDOR + 1, size=ctx.int("size0", 1, 0xffff)), val(VENDOR + 2, size=ctx.int("size1", 1, 0xffff)))


def aligned(ctx):
    return app(val(VENDOR + 1, size=ctx.int("size0", 1, 20), alignment=1),
               val(VENDOR + 2, size=ctx.int("size1", 1, 20), alignment=ctx.int("a1", 0, 33)),
               val(VENDOR + 3, size=8, alignment=ctx.int("a2", 0, 33)))


def aligns(ctx):
    w = ["Input", "Output"]
    return app(val(VENDOR + 1, size=ctx.int("size0", 1, 9)),
               ("align", ctx.choice("w0", w), ctx.int("b0", 0, 32)),
               ("pad", ctx.choice("w1", w), ctx.int("p1", 1, 40)),
               val(VENDOR + 2, size=ctx.int("size1", 1, 9)),
               ("align", "Input", 8))


def counts(ctx):
    return app(val(VENDOR + 1, size=ctx.int("size0", 1, 9), count=ctx.int("count0", 1, 3)),
               val(VENDOR + 2, size=ctx.int("size1", 1, 9), count=ctx.int("count1", 1, 3)),
               val(VENDOR + 3, size=8))


def counts_array(ctx):
    return app(val(VENDOR + 1, size=ctx.int("size0", 1, 9), flags=0, count=ctx.int("count0", 1, 3)),
               val(VENDOR + 2, size=8, flags=ctx.choice("f", [0, 2, 256, 258]), count=ctx.int("count1", 1, 2)),
               val(VENDOR + 3, size=8, flags=0))


def reports(ctx):
    return app(("rep", ctx.choice("id0", IDS), [val(VENDOR + 1, size=ctx.int("size0", 1, 9))]),
               ("rep", ctx.choice("id1", IDS), [val(VENDOR + 2, size=ctx.int("size1", 1, 9)),
                                                val(VENDOR + 3, size=8)]))


def report_any(ctx):
    """Any report id."""
    return app(("rep", ctx.int("id0", 1, 255), [val(VENDOR + 1, size=3)]), ("rep", 7, [val(VENDOR + 2, size=8)]))


def reports_again(ctx):
    """A report that continues after another one."""
    a, b = 5, ctx.choice("id1", IDS)
    return app(("rep", a, [val(VENDOR + 1, size=ctx.int("size0", 1, 9))]),
               ("rep", b, [val(VENDOR + 2, size=8)]),
               ("rep", a, [val(VENDOR + 3, size=ctx.int("size1", 1, 9))]))


def reports_nested(ctx):
    return app(("rep", ctx.choice("id0", IDS), [
        val(VENDOR + 1, size=8),
        ("col", 2, VENDOR + 9, [("rep", ctx.choice("id1", IDS), [val(VENDOR + 2, size=ctx.int("size1", 1, 9))])]),
        val(VENDOR + 3, size=8)]))


def reports_ways(ctx):
    w = ["Input", "Output", "Feature"]
    return app(("rep", 1, [val(VENDOR + 1, way=ctx.choice("w0", w), size=ctx.int("s0", 1, 9)),
                           val(VENDOR + 2, way=ctx.choice("w1", w), size=ctx.int("s1", 1, 9))]),
               ("rep", 2, [val(VENDOR + 3, way=ctx.choice("w2", w), size=8)]))


def collections(ctx):
    return ("top", [("col", ctx.int("kind0", 0, 255), ctx.int("cu0", 0xff010000, 0xff01ffff), [
        ("col", ctx.int("kind1", 0, 255), ctx.int("cu1", 0xff010000, 0xff02ffff), [val(VENDOR + 1)]),
        val(VENDOR + 2)])])


def collections_usage(ctx):
    """A collection without a usage, after values."""
    return app(val(VENDOR + 1), ("col", 2, VENDOR + 7 if ctx.flag("cu") else None, [val(VENDOR + 2)]),
               val(VENDOR + 3))


def toplevel(ctx):
    return ("top", [app(val(VENDOR + 1, logicalMax=ctx.int("m0", 0, 70000), unit=ctx.int("u0", 0, 300))),
                    app(val(VENDOR + 2, logicalMax=ctx.int("m1", 0, 70000), unit=ctx.int("u1", 0, 300)))])


def array_list(ctx):
    """A named array of listed usages."""
    n = ctx.index("n", 3) + 1
    us = [vusage(ctx, "name%d" % k) for k in range(n)]
    return app(val(VENDOR + 9 if ctx.flag("cu") else None, namedArray=us, logicalMin=ctx.int("lmin", -5, 300)),
               val(VENDOR + 5))


def array_range(ctx):
    lo = vusage(ctx, "first", 1, 0xff00)
    n = ctx.index("n", 4)
    return app(val(None, namedArray=(lo, lo + n), logicalMin=ctx.int("lmin", 0, 1), count=ctx.int("count", 1, 3),
                   string=ctx.int("string", 0, 2)), val(VENDOR + 5, string=ctx.int("string1", 0, 2)))


def array_two(ctx):
    """Named arrays next to each other, values around."""
    a = vusage(ctx, "a", 1, 20)
    b = vusage(ctx, "b", 1, 20)
    return app(val(None, namedArray=[a, a + 1], logicalMin=1), val(None, namedArray=[b, b + 1], logicalMin=1),
               val(vusage(ctx, "c", 1, 20), logicalMin=1, logicalMax=2))


def array_values(ctx):
    """Physical bounds, units and designators around a named array."""
    return app(val(VENDOR + 1, physicalMin=ctx.int("p0", -3, 3), physicalMax=3, unit=ctx.int("u0", 0, 20)),
               val(VENDOR + 9, namedArray=[VENDOR + 2, VENDOR + 3], unit=ctx.int("u1", 0, 20),
                   designator=ctx.int("d1", 0, 2)),
               val(VENDOR + 4, physicalMin=ctx.int("p2", -3, 3), physicalMax=3, unit=ctx.int("u2", 0, 20),
                   designator=ctx.int("d2", 0, 2)))


def mixed_pages(ctx):
    """Values of two pages in turn."""
    pg = [0xff010000, 0xff020000]
    return app(*[val(ctx.choice("page%d" % k, pg) + ctx.int("u%d" % k, 1, 3), size=1, logicalMax=1) for k in range(4)])


def array_pages(ctx):
    """A named array over two pages."""
    return app(val(None, namedArray=[0xff010001 + ctx.int("a", 0, 9), 0xff020001 + ctx.int("b", 0, 9), 0xff010005]),
               val(0xff020003))


def page_edge(ctx):
    """Consecutive usage numbers across a page boundary."""
    u = ctx.int("u", 0xff01fffc, 0xff02ffff)
    return app(val(u, size=1, logicalMax=1), val(u + 1, size=1, logicalMax=1), val(u + 2, size=1, logicalMax=1))


def alternate(ctx):
    """A, B, A: a parameter comes back to an earlier value."""
    a = dict(logicalMin=0, logicalMax=1, unit=0x11, unitExponent=1, string=2, physicalMin=0, physicalMax=9)
    b = dict(a)
    k = ctx.choice("field", ["logicalMin", "logicalMax", "unit", "unitExponent", "string", "physicalMin", "physicalMax"])
    b[k] = ctx.int("v", 0, 300)
    return app(val(VENDOR + 1, **a), val(VENDOR + 2, **b), val(VENDOR + 3, **a))


def merge_break(ctx):
    """Identical values but for one field of the second."""
    base = dict(size=1, logicalMin=0, logicalMax=1)
    k = ctx.choice("field", ["flags", "way", "size", "string", "designator", "count", "usage", "none"])
    m = dict(base)
    us = VENDOR + 2
    if k == "flags":
        m["flags"] = ctx.choice("f", [0, 6, 258])
    elif k == "way":
        m["way"] = "Output"
    elif k == "size":
        m["size"] = 2
    elif k in ("string", "designator"):
        m[k] = ctx.int("ix", 1, 3)
    elif k == "count":
        m["count"] = 2
    elif k == "usage":
        us = None
    return app(val(VENDOR + 1, **base), val(us, **m), val(VENDOR + 3, **base))


def gamepad(ctx):
    """A realistic descriptor: axes, buttons, hat, feature report."""
    n = ctx.index("buttons", 3) + 1
    return ("top", [("col", 1, 0x00010005, [("rep", ctx.choice("id", IDS), [
        ("col", 0, 0x00010001, [
            val(0x00010030, size=ctx.int("axis", 8, 16), logicalMin=ctx.int("lmin", -32768, -1),
                logicalMax=ctx.int("lmax", 1, 32767)),
            val(0x00010031, size=8, logicalMin=-127, logicalMax=127)])] +
        [val(0x00090001 + k, size=1, logicalMax=1) for k in range(n)] +
        [("align", "Input", 8),
         val(0x00010039, size=4, logicalMin=1, logicalMax=8, physicalMin=0, physicalMax=ctx.int("deg", 1, 315), unit=0x14,
             flags=0x42)])])])


def array_long(ctx):
    """Named arrays of many usages, across powers of two"""
    n = ctx.choice("n", [17, 255, 256, 257, 258, 300])
    return app(("val", dict(way="Input", usage=None, size=16, namedArray=[VENDOR + 5 + k for k in range(n)],
                            logicalMin=ctx.int("lmin", 0, 1))), val(VENDOR + 1, logicalMax=ctx.int("lmax", 0, 255)))


def many(ctx):
    """Many values alike, with usages in a row"""
    n = ctx.choice("n", [17, 255, 256, 257, 258])
    top = ctx.int("lmax", 1, 3)
    return app(*[val(VENDOR + 2 + k, size=2, logicalMax=top, string=7) for k in range(n)])


def far(ctx):
    """Positions far into a report, with 17 bit values in between"""
    n = ctx.choice("n", [15, 16, 241, 256, 300])
    return app(val(VENDOR + 1, size=ctx.int("size", 1, 40), alignment=1), val(VENDOR + 2, size=17, count=n, alignment=1),
               val(VENDOR + 3, size=32, alignment=ctx.choice("alignment", [8, 32, 64])))


def outside(ctx):
    """A value before the first report, which has any id"""
    return app(val(VENDOR + 1, size=ctx.int("size0", 1, 9), way=ctx.choice("way", ["Input", "Feature"])),
               ("rep", ctx.choice("id", IDS), [val(VENDOR + 2, size=ctx.int("size1", 1, 9)), val(VENDOR + 3, size=8)]))


def deep(ctx):
    """Collections nested deeply, values at every level on the way out"""
    n = ctx.choice("n", [5, 9, 17, 34])
    top = ctx.int("lmax", 1, 300)
    t = val(VENDOR + 1, logicalMax=top)
    for k in range(n):
        t = ("col", 2, VENDOR + 0x100 + k, [t, val(VENDOR + 0x200 + k, size=1 + k % 8, logicalMax=ctx.int("m", 1, 3) if not k else 1)])
    return app(t)


def reports_many(ctx):
    """Many reports, the first ones continued at the end"""
    n = ctx.choice("n", [10, 17, 40])
    size = ctx.int("size", 1, 9)
    return app(*[("rep", 3 * k + 1, [val(VENDOR + 1 + k, size=size if k in (0, n - 1) else 3)]) for k in range(n)]
               + [("rep", 3 * k + 1, [val(VENDOR + 0x100 + k, size=5)]) for k in (0, 1, n - 1)])


def varied(ctx):
    """Many values, each changing some attribute of the one before"""
    n = ctx.choice("n", [12, 40])
    v = ctx.int("v", 0, 3)
    out, kw = [], {}
    for k in range(n):
        f = ("unit", "logicalMax", "string", "physicalMin", "size", "unitExponent", "designator", "physicalMax", "logicalMin")[k * 5 % 9]
        kw[f] = {"size": 1 + k % 11, "logicalMax": 300 + k, "physicalMax": 40 + k}.get(f, k + v if k > n - 10 else k)
        a = dict(kw)
        if "physicalMin" in a:
            a.setdefault("physicalMax", 1000)
        out.append(val((VENDOR if k % 4 else 0xff070000) + 3 + k, **a))
    return app(*out)


def siblings(ctx):
    """Many collections side by side"""
    n = ctx.choice("n", [9, 17, 40])
    top = ctx.int("lmax", 1, 300)
    return ("top", [("col", 1, VENDOR + 0x100 + k, [val(VENDOR + 1, logicalMax=top if k in (0, n - 1) else 1)]) for k in range(n)])


def alike(ctx):
    """Usages, units, exponents, strings and designators given as constants of the same name"""
    f = ctx.choice("field", ["unit", "unitExponent", "designator", "string", "usage", "array"])
    if f == "usage":
        return app(*[val(VENDOR + ctx.int("u%d" % k, 1, 0x1ffff), alias=True) for k in range(3)])
    if f == "array":
        return app(("val", dict(way="Input", usage=None, size=8, namedArray=[VENDOR + ctx.int("u%d" % k, 1, 0xffff) for k in range(3)], alias=True)),
                   val(VENDOR + 1))
    return app(*[val(VENDOR + 1 + k, alias=True, **{f: ctx.int("v%d" % k, 0, 0x1ffff if f != "unitExponent" else 127)}) for k in range(2)])


def array_turned(ctx):
    """Named arrays of consecutive usages but for two that trade places, or one that is another"""
    n = ctx.choice("n", [3, 9, 10, 17, 33])
    us = [VENDOR + 5 + k for k in range(n)]
    i = ctx.choice("i", [0, 1, n // 2, n - 2])
    if ctx.flag("turned"):
        us[i], us[i + 1] = us[i + 1], us[i]
    else:
        us[i] = vusage(ctx, "other", 1, 0x60)
    return app(("val", dict(way="Input", usage=None, size=16, namedArray=us, logicalMin=ctx.int("lmin", 0, 1))),
               val(VENDOR + 1, logicalMax=3))


def aligned_counts(ctx):
    """Several fields of a few bits, aligned to any few bits"""
    return app(val(VENDOR + 1, size=ctx.int("size0", 1, 9), alignment=1),
               val(VENDOR + 2, size=ctx.int("size1", 1, 4), count=ctx.int("count1", 1, 4), alignment=ctx.int("a1", 0, 17)),
               val(VENDOR + 3, size=8))


def constant_aligned(ctx):
    """A constant of up to 24 bits, arrays of any count, then values aligned to more than 8 bits"""
    w = ["Input", "Feature"]
    return app(val(VENDOR + 1, size=ctx.int("s0", 1, 9), alignment=1),
               val(None, size=ctx.int("s1", 1, 24), flags=ctx.choice("f", [1, 3]), count=ctx.int("c1", 1, 2), alignment=1)
               if ctx.flag("constant") else val(None, size=ctx.choice("s2", [4, 8]), namedArray=[VENDOR + 5, VENDOR + 7], count=ctx.int("c2", 1, 3)),
               val(VENDOR + 2, way=ctx.choice("way", w), size=16, alignment=ctx.choice("a", [16, 32, 64])))


def reports_deep(ctx):
    """Reports within reports within reports, values after each"""
    a, b, c = ctx.choice("id0", [1, 2]), ctx.choice("id1", [1, 2, 3]), ctx.choice("id2", [1, 2, 3])
    return app(("rep", a, [val(VENDOR + 1), ("rep", b, [val(VENDOR + 2, size=ctx.int("s", 1, 9)), ("rep", c, [val(VENDOR + 3)]),
                                                       ("col", 2, VENDOR + 9, [val(VENDOR + 4)])]), val(VENDOR + 5)]))


def array_indexes(ctx):
    """Any unit, exponent, string and designator of a named array and of the value after it"""
    return app(*[val(VENDOR + 9 + k, namedArray=None if k else [VENDOR + 2, VENDOR + 4, VENDOR + 3], unit=ctx.u32("unit%d" % k),
                     unitExponent=ctx.int("exp%d" % k, -8, 7), string=ctx.int("string%d" % k, 0, 255),
                     designator=ctx.int("designator%d" % k, 0, 255)) for k in range(2)])


QUICK = [bounds, physical, physical_wide, physical_default, units, strings, strings_wide, designators_wide, usages,
         usages_pages, usages_registered, usage_missing, flags, flags_constant, ways, sizes, sizes_wide, aligned,
         aligns, counts, counts_array, reports, report_any, reports_again, reports_nested, reports_ways, collections,
         collections_usage, toplevel, array_list, array_range, array_two, array_values, mixed_pages, array_pages,
         page_edge, alternate, merge_break, gamepad]
LONG = [array_long, many, deep, reports_many, varied, siblings, array_turned, array_indexes, aligned_counts, constant_aligned, reports_deep]
ALIKE = [alike]
