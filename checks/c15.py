"""Usages: values, names, pages."""
from sx.ctx import Instance
from sx import hid
from sx.engine import b_all, b_not, concretize
from sx.text import text_eq, text
from sx.hid import ival, MODULES, usage_table, among, name_of

PAGES = [1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 32, 89, 144, 0xff00, 0xff01]


def find(ctx, lo, hi):
    """Looking a value up gives that value, under a name that denotes it."""
    from hrdc.usage import Usage
    v = ctx.int("v", lo, hi)
    u = Usage.lookup(v)
    ctx.check(ival(u) == v, "lookup gives another value")
    t = usage_table()
    if among(v, [k for k in t if lo <= k <= hi]):
        ctx.label("known")
        ctx.observe(text(u))
        ctx.check(text_eq(text(u), name_of(v, t)), "the name of a usage does not denote it")
    else:
        ctx.label("unknown")
        ctx.observe(text(u))
        ctx.check(text_eq(text(u), hex_text(v)), "an unknown usage is not named by its value")
    p, s = u.split()
    ctx.check(ival(p) == v >> 16, "split gives another page")
    ctx.check(ival(s) == v & 0xffff, "split gives another usage")
    ctx.observe(text(p))
    ctx.observe(text(s))
    w = Usage.lookup(u)
    ctx.check(ival(w) == v, "lookup of a usage gives another value")
    again = Usage.lookup(v)
    ctx.check(text_eq(text(again), text(u)), "two lookups give different names")


def hex_text(v):
    from sx.values import fmt_int
    from sx.engine import SymInt
    return fmt_int(v, "#x") if isinstance(v, SymInt) else hex(v)


def own_page(ctx, page):
    """Usages of a page are those its module defines, and no other module's."""
    from hrdc.usage import Usage
    mod = {v: k for k, v in MODULES.items()}.get(page)
    v = ctx.int("v", page << 16, (page << 16) + 0xffff)
    t = usage_table()
    u = Usage.lookup(v)
    if among(v, [k for k in t if k >> 16 == page]):
        ctx.label("known")
        name = text(u)
        m = name_of(v, {k: n.split(".")[0] for k, n in t.items() if k >> 16 == page})
        ctx.observe(m)
        ctx.check(mod is not None and text_eq(m, mod), "page 0x%x holds usages of another page's module" % page)
    ctx.check(ival(u) >> 16 == page, "page")


def in_page(ctx, lo, hi):
    from hrdc.usage import Usage
    page, no = ctx.int("page", lo, hi), ctx.int("no", 0, 0xffff)
    u = Usage.inpage(page, no)
    ctx.check(ival(u) == no, "inpage changes the usage")
    ctx.check(ival(Usage.page(page)) == page, "page changes the page number")
    t = {k: n.split(".", 1)[1] for k, n in usage_table().items()}
    full = page * 65536 + no
    ctx.observe(text(u))
    if among(full, [k for k in t if lo <= k >> 16 <= hi]):
        ctx.label("known")
        ctx.check(text_eq(text(u), name_of(full, t)), "inpage names another usage")
    else:
        ctx.check(text_eq(text(u), dec_text(no)), "inpage names an unknown usage")


def dec_text(v):
    from sx.values import fmt_int
    from sx.engine import SymInt
    return fmt_int(v, "") if isinstance(v, SymInt) else str(v)


def ranges(ctx, n, lo, hi):
    """A range stands for its usages in order."""
    from hrdc.usage import UsageRange
    a = ctx.int("min", lo, hi)
    r = UsageRange(a, a + (n - 1))
    ctx.check(len(r) == n, "length of a range")
    got = [ival(u) for u in r]
    ctx.observe(got)
    ctx.check(len(got) == n, "a range yields another number of usages")
    ctx.check(b_all([g == a + k for k, g in enumerate(got)]), "a range yields other usages")
    ctx.check(b_all([ival(r[k]) == a + k for k in range(n)]), "indexing a range yields other usages")
    if n >= 2:
        from hrdc.usage import Usage
        s = UsageRange.from_array([Usage.lookup(x) for x in got])
        ctx.check(b_all([ival(s.min) == a, ival(s.max) == a + n - 1]), "a range does not come back from its usages")


def from_array(ctx, n, lo, hi):
    """An array is a range exactly when its usages follow each other."""
    from hrdc.usage import UsageRange, Usage
    vs = [ctx.int("u%d" % k, lo, hi) for k in range(n)]
    cont = b_all([b == a + 1 for a, b in zip(vs, vs[1:])]) if n >= 2 else False
    try:
        r = UsageRange.from_array([Usage.lookup(v) for v in vs])
    except ValueError:
        ctx.label("refused")
        ctx.check(b_not(cont), "contiguous usages refused as a range")
        return
    ctx.label("range")
    ctx.check(cont, "a range was made of usages that do not follow each other")
    ctx.check(b_all([x == y for x, y in zip([ival(u) for u in r], vs)]), "a range of other usages")
    ctx.check(len(r) == n, "a range of another length")


def makers(ctx, mod, base, name, types):
    """button.Button(n), ordinal.Ordinal(n)"""
    import importlib
    m = importlib.import_module("hrdc.usage." + mod)
    n = ctx.int("n", 0, 0xffff)
    u = getattr(m, name)(n)
    ctx.check(ival(u) == base + n, "%s(n) is another usage" % name)
    ctx.observe(text(u))
    ctx.check(text_eq(text(u), "%s.%s(" % (mod, name) + dec_text(n) + ")"), "the name of a usage does not denote it")
    from hrdc.usage import usage as U
    for y in ("CA", "CL", "CP", "RTC", "LC", "MC", "OSC", "Sel", "SV", "SF", "DF", "DV", "NAry", "US", "UM", "OOC"):
        got = getattr(U, y).test(u)
        got = concretize(got) if not isinstance(got, bool) else got
        ctx.check(got == (y in types), "%s.test of a %s" % (y, name))


#: pages that have a name
NAMED = {1: "GenericDesktop", 2: "Simulation", 3: "VR", 5: "Game", 6: "Device", 7: "Keyboard", 8: "Led", 9: "Button",
         10: "Ordinal", 11: "TelephonyDevice", 12: "Consumer", 13: "Digitizers", 15: "PID", 32: "Sensors",
         89: "Lighting", 144: "Camera", 0xff00: "Arcade"}


def page_names(ctx):
    """A page goes by its own name or by its number."""
    from hrdc.usage import Usage
    a = ctx.int("a", 0, 0xffff)
    p = Usage.page(a)
    ctx.check(ival(p) == a, "page number")
    ctx.observe(text(p))
    if among(a, NAMED):
        ctx.check(text_eq(text(p), name_of(a, NAMED)), "a page goes by another page's name")
    else:
        ctx.check(text_eq(text(p), dec_text(a)), "a page without a name does not go by its number")


def kinds(ctx):
    """A usage type test tells exactly the usages declared of that type."""
    from hrdc.usage import usage as U, desktop
    v = ctx.int("v", 0x10000, 0x1ffff)
    types = dict(CA=U.CA, DV=U.DV, OOC=U.OOC, CP=U.CP, MC=U.MC, OSC=U.OSC, SV=U.SV, DF=U.DF, Sel=U.Sel)
    for n, t in types.items():
        have = [int(u.value) for u in vars(desktop).values() if type(u).__name__ == "Usage" and t in u.kinds]
        got = t.test(v)
        got = concretize(got) if not isinstance(got, bool) else got
        ctx.check(hid.among(v, have) == got, "%s.test" % n)


def assigned(ctx, mod):
    """Usages have the codes that the USB-IF usage tables assign them"""
    import importlib
    from .hut import TABLE
    t = TABLE[mod]
    m = importlib.import_module("hrdc.usage." + mod)
    for n in t:
        u = getattr(m, n, None)
        if u is not None:
            ctx.check(ival(u) == MODULES[mod] * 65536 + t[n][0], "%s.%s has another value than the usage tables assign" % (mod, n))


def looked_up(ctx, mod):
    """A code that the usage tables assign is that usage, of its types, and of no other"""
    from hrdc.usage import usage as U
    from .hut import TABLE
    t = {MODULES[mod] * 65536 + x[0]: (n, x[1:]) for n, x in TABLE[mod].items()}
    v = ctx.int("v", MODULES[mod] * 65536, MODULES[mod] * 65536 + 0xffff)
    ctx.assume(hid.among(v, sorted(t)))
    u = U.Usage.lookup(v)
    ctx.check(text_eq(text(u), name_of(v, {k: mod + "." + n for k, (n, x) in t.items()})), "a code is another usage than the usage tables say")
    if any(x for n, x in t.values()):
        for y in ("CA", "CL", "CP", "RTC", "LC", "MC", "OSC", "Sel", "SV", "SF", "DF", "DV", "NAry", "US", "UM", "OOC"):
            got = getattr(U, y).test(v)
            got = concretize(got) if not isinstance(got, bool) else got
            ctx.check(hid.among(v, [k for k, (n, x) in t.items() if y in x]) == got, "%s.test tells wrong" % y)


def instances(tier):
    r = []
    for p in PAGES:
        r.append(Instance("page-%x" % p, find, "every usage of page 0x%x" % p, dict(lo=p << 16, hi=(p << 16) + 0xffff)))
        if p != 0xff01:
            r.append(Instance("own-%x" % p, own_page, "every usage of page 0x%x" % p, dict(page=p)))
    r.append(Instance("any", find, "every 32 bit value", dict(lo=0, hi=0xffffffff), reach=("known", "unknown")))
    r.append(Instance("inpage", in_page, "every page and usage", dict(lo=0, hi=0xffff), reach=("known",)))
    r.append(Instance("inpage-desktop", in_page, "pages 0 to 3, every usage", dict(lo=0, hi=3)))
    for n in range(1, 6 if tier == "quick" else 12):
        r.append(Instance("range-%d" % n, ranges, "ranges of %d usages anywhere" % n, dict(n=n, lo=0, hi=0xffffffff - n)))
    for n in (0, 1, 2, 3) + ((4, 5, 6) if tier == "thorough" else ()):
        r.append(Instance("from-array-%d" % n, from_array, "arrays of %d usages, any value" % n, dict(n=n, lo=0, hi=0xffffffff)))
    r.append(Instance("button", makers, "n 0..65535", dict(mod="button", base=0x90000, name="Button", types=("Sel", "OOC", "MC", "OSC"))))
    r.append(Instance("ordinal", makers, "n 0..65535", dict(mod="ordinal", base=0xa0000, name="Ordinal", types=("CL",))))
    r.append(Instance("page-names", page_names, "every page"))
    r.append(Instance("kinds", kinds, "every generic desktop usage"))
    from .hut import TABLE
    for m in sorted(TABLE):
        r.append(Instance("assigned-" + m, assigned, "the %d usages of page %s that checks/hut.py lists" % (len(TABLE[m]), m), dict(mod=m)))
        r.append(Instance("types-" + m, looked_up, "every code that checks/hut.py lists for page " + m, dict(mod=m)))
    return r
