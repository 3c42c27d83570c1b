"""The annotated listing says what the bytes say."""
from sx.ctx import Instance
from sx import hid
from sx.engine import b_all, concretize
from sx.text import text_eq, text
from sx.hid import SPEC, mk, ival, among, name_of, usage_table
from .c15 import dec_text, hex_text, NAMED

FLAGS = ["Constant", "Variable", "Relative", "Wrap", "NonLinear", "NoPreferred", "NullState", "Volatile", "BufferedBytes"]
KINDS = {0: "Physical", 1: "Application", 2: "Logical", 3: "Report", 4: "NamedArray", 5: "UsageSwitch", 6: "UsageModifier"}
#: system, length, mass, time, temperature, current, luminous intensity
UNITS = {0x11: "Centimeter", 0x12: "Radian", 0x13: "Inch", 0x14: "Degree", 0x101: "Gram", 0x103: "Slug", 0x1000: "Second",
         0x10001: "Kelvin", 0x10003: "Fahrenheit", 0x100000: "Ampere", 0x1000000: "Candela", 0xf011: "Velocity",
         0xf111: "Momentum", 0xe011: "G", 0xe111: "Newton", 0xe121: "Joule", 0xf0d121: "Volt"}


class Lines:
    """Text output, kept as written."""

    def __init__(self):
        self.out = ""

    def write(self, s):
        self.out += s
        return len(s)

    def flush(self):
        pass


def listing(items):
    from hrdc.stream.formatter import Formatter
    f = Lines()
    s = Formatter.get("code")(f)
    for i in items:
        s.append(i)
    s.close()
    return f.out


def rows(ctx, out, n):
    """(code words, indentation, annotation) of every line"""
    ls = out.split("\n")
    ctx.check(len(ls) == n + 1 and ls[-1] == "", "a listing has one line per item")
    r = []
    for l in ls[:-1]:
        ctx.check("//" in l, "a line has no annotation")
        code, note = l.split("//", 1)
        r.append((code, len(note) - len(note.lstrip(" ")), note.strip(" ")))
    return r


def words(ctx, code):
    """Bytes of the code part"""
    from sx.values import parse_int_text
    out = []
    for w in code.split(","):
        w = w.strip(" ")
        if w:
            ctx.check(w[:2] == "0x", "not a C literal")
            out.append(parse_int_text(w[2:], 16) if ctx.sym else int(w[2:], 16))
    return out


def same_bytes(ctx, code, it):
    got, want = words(ctx, code), it.bytes()
    ctx.check(len(got) == len(want), "the code of a line is not the item's")
    ctx.check(b_all([a == b for a, b in zip(got, want)]), "the code of a line is not the item's")


def said(ctx, note, name, values):
    """The annotation is `name (value)`, value one of those; a null value may be left out."""
    for cond, v in values:
        ctx.observe(note)
        ctx.check(text_eq(note, name + " (" + v + ")") if v is not None else text_eq(note, name),
                  "annotation does not tell the item's value")


def number(ctx, cls):
    lo, hi = (-(1 << 31), (1 << 31) - 1) if SPEC[cls][2] else (0, 0xffffffff)
    v = ctx.int("v", lo, hi)
    it = mk(cls, v)
    (code, ind, note), = rows(ctx, listing([it]), 1)
    ctx.observe(note)
    ctx.check(text_eq(note, cls + " (" + dec_text(v) + ")"), "annotation does not tell the item's value")
    same_bytes(ctx, code, it)


def flags(ctx, cls, hi=0x3ff):
    """Exactly the flags that are set are named"""
    v = ctx.int("v", 0, hi)
    it = mk(cls, v)
    (code, ind, note), = rows(ctx, listing([it]), 1)
    ctx.observe(note)
    got = note[len(cls):].strip(" ").strip("()")
    ctx.check(note[:len(cls)] == cls, "annotation names another item")
    names = set(got.split("|")) if got and got != "Array" else set()
    ctx.check(names <= set(FLAGS), "annotation names unknown flags")
    ctx.check(b_all([((v >> k) & 1) == (1 if n in names else 0) for k, n in enumerate(FLAGS)]),
              "annotation names other flags than those set")
    same_bytes(ctx, code, it)


def collection(ctx, hi):
    v = ctx.int("v", 0, hi)
    it = mk("Collection", v)
    import warnings
    (code, ind, note), = rows(ctx, listing([it]), 1)
    ctx.observe(note)
    want = name_of(v, KINDS) if among(v, KINDS) else dec_text(v)
    ctx.check(text_eq(note, "Collection (" + want + ")"), "annotation does not tell the collection's kind")
    same_bytes(ctx, code, it)


def unit(ctx):
    v = ctx.int("v", 0, 0xffffffff)
    it = mk("Unit", v)
    (code, ind, note), = rows(ctx, listing([it]), 1)
    ctx.observe(note)
    if among(v, UNITS):
        ctx.label("known")
        w = name_of(v, UNITS)
        alt = dict(UNITS)
        alt[0xf011] = "CmPerSec"
        from sx.engine import b_any
        ctx.check(b_any([text_eq(note, "Unit (" + w + ")"), text_eq(note, "Unit (" + name_of(v, alt) + ")")]),
                  "annotation names another unit")
    else:
        ctx.check(text_eq(note, "Unit (" + dec_text(v) + ")"), "annotation does not tell the unit")
    same_bytes(ctx, code, it)


def page(ctx):
    from hrdc.usage import Usage
    v = ctx.int("v", 0, 0xffff)
    it = mk("UsagePage", Usage.page(v))
    (code, ind, note), = rows(ctx, listing([it]), 1)
    ctx.observe(note)
    want = name_of(v, NAMED) if among(v, NAMED) else dec_text(v)
    ctx.check(text_eq(note, "UsagePage (" + want + ")"), "annotation names another page")


def extended(ctx, cls, lo, hi):
    """Usages that carry their page"""
    v = ctx.int("v", lo, hi)
    it = mk(cls, v)
    (code, ind, note), = rows(ctx, listing([it]), 1)
    ctx.observe(note)
    t = usage_table()
    want = name_of(v, t) if among(v, [k for k in t if lo <= k <= hi]) else hex_text(v)
    ctx.check(text_eq(note, cls + " (" + want + ")"), "annotation names another usage")
    same_bytes(ctx, code, it)


def in_page(full, no):
    """How a short usage is called, full: with the page in force"""
    t = {k: n.split(".", 1)[1] for k, n in usage_table().items()}
    if among(full, t):
        return name_of(full, t)
    return dec_text(no)


def convert(ctx, blob, n):
    """Listing of a binary descriptor"""
    from hrdc.stream.parser import Parser
    from hrdc.stream.formatter import Formatter
    from sx.files import mem
    f = Lines()
    Parser.get("binary")(mem("binary", blob), Formatter.get("code")(f)).read()
    return rows(ctx, f.out, n)


def blob_of(items):
    from sx.values import mkbytes
    b = []
    for n, *els in items:
        k, t, s = SPEC[n]
        b.append(t << 4 | k << 2 | {0: 0, 1: 1, 2: 2, 4: 3}[len(els)])
        b += els
    return mkbytes(b) if any(not isinstance(x, int) for x in b) else bytes(b)


def read_usage(ctx, pages, stack):
    """Short usages are named after the page in force, whatever came before"""
    seq = []
    p = [ctx.choice("page%d" % k, pages) for k in range(2)]
    u = [ctx.int("u%d" % k, 0, 255) for k in range(2)]
    pg = lambda x: ("UsagePage", x) if x < 256 else ("UsagePage", x & 255, x >> 8)
    cls = ctx.choice("class", ["Usage", "UsageMinimum", "UsageMaximum"])
    if stack:
        items = [pg(p[0]), ("Push", 0), pg(p[1]), (cls, u[0]), ("Pop", 0), (cls, u[1])]
        force = [None, None, None, (p[1], u[0]), None, (p[0], u[1])]
    else:
        items = [pg(p[0]), (cls, u[0]), pg(p[1]), (cls, u[1])]
        force = [None, (p[0], u[0]), None, (p[1], u[1])]
    rs = convert(ctx, blob_of(items), len(items))
    for r, f, it in zip(rs, force, items):
        ctx.observe(r[2])
        if it[0] == "UsagePage":
            v = it[1] if len(it) == 2 else it[1] | it[2] << 8
            ctx.check(text_eq(r[2], "UsagePage (" + (NAMED.get(v) or str(v)) + ")"), "annotation names another page")
        elif f:
            ctx.check(text_eq(r[2], cls + " (" + in_page(f[0] * 65536 + f[1], f[1]) + ")"),
                      "a usage is named after a page that is not in force")


def signed(ctx, cls, n):
    """Payloads of any width are told as the value they hold"""
    el = [ctx.int("b%d" % k, 0, 255) for k in range(n)]
    (r,) = convert(ctx, blob_of([(cls,) + tuple(el)]), 1)
    v = hid.payload_value(el, SPEC[cls][2])
    ctx.observe(r[2])
    ctx.check(text_eq(r[2], cls + " (" + dec_text(v) + ")"), "annotation does not tell the item's value")


def nesting(ctx, n):
    """Lines are indented after the collections they are in"""
    items, depth, depths = [], 0, []
    for k in range(n):
        c = ctx.choice("item%d" % k, ["Collection", "EndCollection", "ReportSize"])
        if c == "EndCollection":
            ctx.assume(depth > 0)
            depth -= 1
            items.append(mk(c))
        else:
            items.append(mk(c, k))
        depths.append(depth)
        if c == "Collection":
            depth += 1
    while depth:
        depth -= 1
        items.append(mk("EndCollection"))
        depths.append(depth)
    rs = rows(ctx, listing(items), len(items))
    ctx.observe([r[1] for r in rs])
    ctx.check(all((a[1] < b[1]) == (da < db) for a, da in zip(rs, depths) for b, db in zip(rs, depths)),
              "indentation does not follow the collections")


def nested(ctx):
    """Indentation goes on at any depth"""
    n = ctx.choice("depth", [5, 9, 17, 33])
    v = ctx.int("v", 0, 255)
    items = [mk("Collection", 1 if k else v) for k in range(n)] + [mk("ReportSize", v)] + [mk("EndCollection") for k in range(n)] + [mk("ReportSize", v)]
    rs = rows(ctx, listing(items), len(items))
    ctx.observe([r[1] for r in rs])
    ind = [r[1] for r in rs]
    ctx.check(all(a < b for a, b in zip(ind[:n], ind[1:n + 1])), "indentation does not follow the collections")
    ctx.check(ind[:n] == ind[n + 1:2 * n + 1][::-1] and ind[0] == ind[-1], "ends are not at the level of what they end")
    for r in (rs[n], rs[-1]):
        ctx.check(text_eq(r[2], "ReportSize (" + dec_text(v) + ")"), "annotation does not tell the item's value")
        same_bytes(ctx, r[0], items[-1])


def stacked(ctx):
    """The page in force through deep pushes"""
    n = ctx.choice("depth", [3, 5, 9, 17])
    u = ctx.int("u", 0, 255)
    pages = [1, 7, 9, 12, 2]
    items, force = [], []
    for k in range(n):
        items += [("UsagePage", pages[k % 5]), ("Push", 0)]
    items += [("UsagePage", 8), ("Usage", u)]
    force = [None] * (2 * n + 1) + [8]
    for k in reversed(range(n)):
        items += [("Pop", 0), ("Usage", u) if k in (0, n - 1) else ("Usage", 1)]
        force += [None, pages[k % 5]]
    items = [(a,) if a in ("Push", "Pop") else (a, b) for a, b in items]
    rs = convert(ctx, blob_of(items), len(items))
    for r, f, it in zip(rs, force, items):
        ctx.observe(r[2])
        if f:
            ctx.check(text_eq(r[2], "Usage (" + in_page(f * 65536 + it[1], it[1]) + ")"), "a usage is named after a page that is not in force")


def instances(tier):
    r = []
    for c in ("LogicalMinimum", "LogicalMaximum", "PhysicalMinimum", "PhysicalMaximum", "UnitExponent", "ReportSize", "ReportID",
              "ReportCount", "DesignatorIndex", "DesignatorMinimum", "DesignatorMaximum", "StringIndex", "StringMinimum",
              "StringMaximum", "Delimiter"):
        r.append(Instance("number-" + c, number, "every 32 bit value", dict(cls=c)))
        for n in (1, 2, 4):
            r.append(Instance("read-%s-%d" % (c, n), signed, "every payload of %d bytes" % n, dict(cls=c, n=n)))
    for c in ("Input", "Output", "Feature"):
        r.append(Instance("flags-" + c, flags, "flags 0..0x3ff", dict(cls=c)))
    r.append(Instance("collection", collection, "every 32 bit kind", dict(hi=0xffffffff)))
    r.append(Instance("unit", unit, "every 32 bit unit", reach=("known",)))
    r.append(Instance("page", page, "every page"))
    for c in ("Usage", "UsageMinimum", "UsageMaximum"):
        r.append(Instance("extended-" + c, extended, "every 32 bit usage beyond page 0", dict(cls=c, lo=0x10000, hi=0xffffffff)))
    small = [1, 7, 9, 4, 0xff00]
    for st in (False, True):
        r.append(Instance("usage-stack" if st else "usage-page", read_usage,
                          "two one byte usages in two pages out of %s" % (small if tier == "quick" else "all known"),
                          dict(pages=small if tier == "quick" else sorted(NAMED) + [0, 4, 255, 0xff01], stack=st)))
    r.append(Instance("nested", nested, "5 to 33 levels of collections"))
    r.append(Instance("stacked", stacked, "3 to 17 pushes of usage pages, any one byte usage"))
    n = 4 if tier == "quick" else 6
    r.append(Instance("nesting", nesting, "%d items, any nesting" % n, dict(n=n)))
    return r
