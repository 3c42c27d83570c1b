"""What a report descriptor means, written from the HID 1.11 specification and
the project's documentation, independently of the package under test.

Everything here works on plain integers and on symbolic ones: values are never
branched on, only structure (item kinds, concretized counts) is.
"""
from .engine import SymInt, SymBool, ite, b_all, b_any, b_not, concretize

# HID 1.11 section 6.2.2: (kind, tag, signed)
SPEC = {
    "Input": (0, 0x8, False), "Output": (0, 0x9, False), "Feature": (0, 0xb, False),
    "Collection": (0, 0xa, False), "EndCollection": (0, 0xc, False),
    "UsagePage": (1, 0x0, False), "LogicalMinimum": (1, 0x1, True), "LogicalMaximum": (1, 0x2, True),
    "PhysicalMinimum": (1, 0x3, True), "PhysicalMaximum": (1, 0x4, True), "UnitExponent": (1, 0x5, True),
    "Unit": (1, 0x6, False), "ReportSize": (1, 0x7, False), "ReportID": (1, 0x8, False),
    "ReportCount": (1, 0x9, False), "Push": (1, 0xa, False), "Pop": (1, 0xb, False),
    "Usage": (2, 0x0, False), "UsageMinimum": (2, 0x1, False), "UsageMaximum": (2, 0x2, False),
    "DesignatorIndex": (2, 0x3, False), "DesignatorMinimum": (2, 0x4, False),
    "DesignatorMaximum": (2, 0x5, False), "StringIndex": (2, 0x7, False),
    "StringMinimum": (2, 0x8, False), "StringMaximum": (2, 0x9, False), "Delimiter": (2, 0xa, False),
}
NAMES = {(k, t): n for n, (k, t, s) in SPEC.items()}
WAYS = ("Input", "Output", "Feature")
MAXCOUNT = 1024

CONSTANT, VARIABLE = 1, 2


def ival(x):
    if isinstance(x, (int, SymInt, SymBool)):
        return x
    return type(x).__int__(x)


def item_of(it):
    """(name, value) of an item object of the package."""
    return NAMES[(concretize(ival(it.kind)), concretize(ival(it.tag)))], ival(it.value)


class Sink:
    """End of an item stream: records (name, value) pairs."""

    def __init__(self):
        self.items, self.closed, self.objs = [], 0, []

    def append(self, it):
        if self.closed:
            raise RuntimeError("item after close")
        self.objs.append(it)
        self.items.append(item_of(it))

    def close(self):
        self.closed += 1


def mk(name, value=None):
    """An item object of the package."""
    from hrdc.stream import item
    c = getattr(item, name)
    return c() if value is None else c(value)


# ------------------------------------------------------------------ encoding
def enc_sizes(name, v):
    """Conditions under which an n byte payload is the canonical encoding of v."""
    signed = SPEC[name][2]
    if signed:
        f1 = b_all([v >= -128, v <= 127])
        f2 = b_all([v >= -32768, v <= 32767])
    else:
        f1, f2 = v <= 255, v <= 65535
    return f1, f2


def decode(blob):
    """Independent decoder of a concrete-length blob: list of (prefix byte, payload list)."""
    out, i = [], 0
    while i < len(blob):
        p = blob[i]
        n = (0, 1, 2, 4)[concretize(p & 3)]
        out.append((p, list(blob[i + 1:i + 1 + n])))
        if i + 1 + n > len(blob):
            return None
        i += 1 + n
    return out


def payload_value(el, signed):
    v = 0
    for k, e in enumerate(el):
        v = v + e * (1 << (8 * k))
    if signed and el:
        n = 1 << (8 * len(el))
        v = ite(v >= n // 2, v - n, v)
    return v


# ------------------------------------------------------------------ meaning of a stream
class Ill(Exception):
    """The stream is not a well formed descriptor."""


class Locals:
    def __init__(self):
        self.usages, self.designators, self.strings = [], [], []
        self.lo, self.hi = {}, {}
        self.delim = None


def expand(lo, hi):
    n = concretize(hi - lo + 1)
    if n < 0 or n > MAXCOUNT:
        raise Ill("range of %d" % n)
    return [lo + k for k in range(n)]


def meaning(items, layout=False, strict=False):
    """Meaning of a list of (name, value).

    Result: (events, totals).  Data items become one event per control
    (variable) or one event per array.  With layout=True every event carries its bit
    offset inside its report and constant items are only accounted as bits;
    totals maps (way, report id) to the report's length in bits.  With strict=True,
    totals["bounds"] tells for each control or array which logical bounds are declared
    (they have no default: HID 1.11 wants them declared for data items).
    """
    g = dict(UsagePage=0, LogicalMinimum=0, LogicalMaximum=0, PhysicalMinimum=0, PhysicalMaximum=0,
             UnitExponent=0, Unit=0, ReportSize=0, ReportID=0, ReportCount=0)
    totals = {}
    if strict:
        totals["bounds"] = []
    known = {"LogicalMinimum": False, "LogicalMaximum": False}
    stack, ev, loc, depth = [], [], Locals(), 0

    def local(lst, v):
        if loc.delim is not None and lst is loc.usages:
            loc.delim.append(v)
        else:
            lst.append([v])

    def rng(key, lst, which, v):
        d = loc.lo if which == "Minimum" else loc.hi
        if key in d:
            raise Ill("unpaired range")
        d[key] = v
        if key in loc.lo and key in loc.hi:
            lst.append(("range", loc.lo.pop(key), loc.hi.pop(key)))

    def resolve(u):
        return ite(u >= 0x10000, u, g["UsagePage"] * 65536 + u)

    def usages():
        out = []
        for e in loc.usages:
            if e[0] == "range":
                out += [(x,) for x in expand(resolve(e[1]), resolve(e[2]))]
            else:
                out.append(tuple(resolve(u) for u in e))
        return out

    def plain(lst):
        out = []
        for e in lst:
            out += expand(e[1], e[2]) if e[0] == "range" else e
        return out

    for name, v in items:
        if name in g:
            g[name] = v
            if name in known:
                known[name] = True
        elif name == "Push":
            stack.append((dict(g), dict(known)))
        elif name == "Pop":
            if not stack:
                raise Ill("pop without push")
            g, known = stack.pop()
        elif name == "Usage":
            local(loc.usages, v)
        elif name == "DesignatorIndex":
            local(loc.designators, v)
        elif name == "StringIndex":
            local(loc.strings, v)
        elif name.endswith("Minimum") or name.endswith("Maximum"):
            key, which = name[:-7], name[-7:]
            rng(key, {"Usage": loc.usages, "Designator": loc.designators, "String": loc.strings}[key], which, v)
        elif name == "Delimiter":
            if concretize(v) == 1:
                if loc.delim is not None:
                    raise Ill("nested delimiter")
                loc.delim = []
                loc.usages.append(loc.delim)
            else:
                if loc.delim is None:
                    raise Ill("delimiter close without open")
                loc.delim = None
        else:
            if loc.lo or loc.hi:
                raise Ill("half a range")
            if loc.delim is not None:
                raise Ill("open delimiter")
            us, ds, ss = usages(), plain(loc.designators), plain(loc.strings)
            loc = Locals()
            if name == "Collection":
                depth += 1
                ev.append(("collection", v, tuple(us), norm0(ds), norm0(ss)))
            elif name == "EndCollection":
                depth -= 1
                if depth < 0:
                    raise Ill("unbalanced collections")
                ev.append(("end",))
            else:
                d = data(name, v, g, us, ds, ss, layout, totals)
                ev += d
                if strict:
                    totals["bounds"] += [(known["LogicalMinimum"], known["LogicalMaximum"])] * len(d)
    if depth or stack:
        raise Ill("unbalanced")
    return ev, totals


def norm0(lst):
    """No index and index 0 are the same thing."""
    return tuple(lst) if lst else (0,)


def data(way, flags, g, us, ds, ss, layout, totals):
    lmin, lmax = g["LogicalMinimum"], g["LogicalMaximum"]
    z = b_all([g["PhysicalMinimum"] == 0, g["PhysicalMaximum"] == 0])
    pmin, pmax = ite(z, lmin, g["PhysicalMinimum"]), ite(z, lmax, g["PhysicalMaximum"])
    rid = g["ReportID"]
    n = concretize(g["ReportCount"])
    if n > MAXCOUNT and not concretize(flags & CONSTANT):
        raise Ill("count")
    size = g["ReportSize"]
    key = off = None
    if layout:
        key = (way, concretize(rid))
        off = totals.get(key, 0)
        totals[key] = off + size * n
    common = (way, flags, rid, size, lmin, lmax, pmin, pmax, g["Unit"], g["UnitExponent"])
    if layout and concretize(flags & CONSTANT):
        return []
    if concretize(flags & VARIABLE):
        out = []
        for k in range(n):
            out.append(("control", off + size * k if layout else 0) + common +
                       (pick(us, k, n), norm0(pick(ds, k, n)), norm0(pick(ss, k, n))))
        return out
    return [("array", off if layout else 0) + common + (n, tuple(us), norm0(ds), norm0(ss))]


def pick(lst, k, n):
    """Entries that apply to control k of n: the k-th, the last one repeats; the last control also
    carries the entries in excess."""
    if not lst:
        return ()
    if k >= len(lst):
        return (lst[-1],)
    if k == n - 1:
        return tuple(lst[k:])
    return (lst[k],)


def same(a, b):
    """Structural equality as one condition (no branching on values)."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        cs = []
        for x, y in zip(a, b):
            c = same(x, y)
            if c is False:
                return False
            cs.append(c)
        return b_all(cs)
    if isinstance(a, dict) and isinstance(b, dict):
        return b_all([same(a.get(k, 0), b.get(k, 0)) for k in set(a) | set(b)])
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b if type(a) == type(b) else False
    if isinstance(a, (list, tuple, dict)) or isinstance(b, (list, tuple, dict)):
        return False
    return a == b


def describe(ev):
    return "; ".join(str(e[0]) for e in ev)


# ------------------------------------------------------------------ meaning of a declared tree
def build(spec):
    """Descriptor tree of the package for a declaration."""
    from hrdc import descriptor as D
    k = spec[0]
    if k == "top":
        return D.TopLevel(*[build(m) for m in spec[1]])
    if k == "col":
        return D.Collection(spec[1], spec[2], *[build(m) for m in spec[3]])
    if k == "rep":
        return D.Report(spec[1], *[build(m) for m in spec[2]])
    if k == "align":
        return D.Align(getattr(D.Value, spec[1]), spec[2])
    if k == "pad":
        return D.Padding(getattr(D.Value, spec[1]), spec[2])
    d = dict(spec[1])
    if d.pop("alias", False):
        # values go by names, all by the same one
        from hrdc.util import NamedConstant
        for f in ("usage", "unit", "unitExponent", "designator", "string"):
            if d.get(f) is not None:
                d[f] = NamedConstant("Mine.this", d[f])
        if isinstance(d.get("namedArray"), list):
            d["namedArray"] = [NamedConstant("Mine.this", u) for u in d["namedArray"]]
    way, usage, size = d.pop("way"), d.pop("usage"), d.pop("size")
    if "namedArray" in d and isinstance(d["namedArray"], tuple):
        from hrdc.usage import UsageRange
        d["namedArray"] = UsageRange(*d["namedArray"])
    return D.Value(getattr(D.Value, way), usage, size, **d)


def declared(spec):
    """Meaning of a declaration, same form as meaning(..., layout=True)."""
    ev, totals = [], {}

    def walk(s, rid):
        k = s[0]
        if k == "top":
            for m in s[1]:
                walk(m, rid)
        elif k == "rep":
            for m in s[2]:
                walk(m, s[1])
        elif k == "col":
            us = ((ival(s[2]),),) if s[2] is not None else ()
            ev.append(("collection", ival(s[1]), us, (0,), (0,)))
            for m in s[3]:
                walk(m, rid)
            ev.append(("end",))
        elif k == "align":
            align(s[1], rid, s[2])
        elif k == "pad":
            key = (s[1], concretize(rid))
            totals[key] = totals.get(key, 0) + s[2]
        else:
            value(s[1], rid)

    def align(way, rid, a):
        key = (way, concretize(rid))
        off = totals.get(key, 0)
        if isinstance(a, (SymInt, SymBool)):
            a = ite(a <= 1, 1, a)
            if isinstance(a, SymInt):
                a = SymInt(a.t, max(1, a.lo), a.hi)
        elif a <= 1:
            return
        totals[key] = off + (a - off % a) % a

    def value(d, rid):
        way, usage, size = d["way"], d["usage"], d["size"]
        flags = ival(d.get("flags", VARIABLE))
        count = concretize(d.get("count", 1))
        a = d.get("alignment")
        if a is None:
            a = ite(size < 8, size, 8)
        align(way, rid, a)
        key = (way, concretize(rid))
        off = totals.get(key, 0)
        totals[key] = off + size * count
        na = d.get("namedArray")
        if na:
            flags = 0
        if concretize(flags & CONSTANT):
            return
        lmin, lmax = d.get("logicalMin", 1), d.get("logicalMax")
        pmin, pmax = d.get("physicalMin"), d.get("physicalMax")
        if na:
            if isinstance(na, tuple):
                names = [(x,) for x in expand(ival(na[0]), ival(na[1]))]
            else:
                names = [(ival(x),) for x in na]
            lmax = lmin + len(names) - 1
            pmin, pmax = lmin, lmax
        else:
            p0, p1 = (0 if pmin is None else pmin), (0 if pmax is None else pmax)
            z = b_all([p0 == 0, p1 == 0])
            pmin, pmax = ite(z, lmin, p0), ite(z, lmax, p1)
        common = (way, flags, rid, size, lmin, lmax, pmin, pmax, ival(d.get("unit", 0)),
                  ival(d.get("unitExponent", 0)))
        ds, ss = (ival(d.get("designator", 0)),), (ival(d.get("string", 0)),)
        us = ((ival(usage),),) if usage is not None else ()
        if na:
            if us:
                ev.append(("collection", 2, us, (0,), (0,)))
            ev.append(("array", off) + common + (count, tuple(names), ds, ss))
            if us:
                ev.append(("end",))
        elif concretize(flags & VARIABLE):
            for k in range(count):
                ev.append(("control", off + size * k) + common + (us, ds, ss))
        else:
            ev.append(("array", off) + common + (count, us, ds, ss))

    walk(spec, 0)
    return ev, totals


def spec_of(tree):
    """Declaration read back from a descriptor tree of the package."""
    from hrdc.descriptor import descriptor as D
    if isinstance(tree, D.TopLevel):
        return ("top", [spec_of(m) for m in tree.members])
    if isinstance(tree, D.Report):
        return ("rep", tree.id, [spec_of(m) for m in tree.members])
    if isinstance(tree, D.Collection):
        return ("col", tree.kind, tree.usage, [spec_of(m) for m in tree.members])
    way = NAMES[(0, concretize(ival(tree.way)))]
    if isinstance(tree, D.Align):
        return ("align", way, tree.boundary)
    if isinstance(tree, D.Padding):
        return ("pad", way, tree.size)
    d = dict(way=way, usage=tree.usage, size=ival(tree.size), flags=ival(tree.flags),
             logicalMin=ival(tree.logicalMin), unit=ival(tree.unit), unitExponent=ival(tree.unitExponent),
             designator=ival(tree.designator), string=ival(tree.string), count=ival(tree.count),
             alignment=ival(tree.alignment))
    if tree.namedArray:
        d["namedArray"] = [ival(u) for u in tree.namedArray]
    else:
        for k in ("logicalMax", "physicalMin", "physicalMax"):
            v = getattr(tree, k)
            d[k] = None if v is None else ival(v)
    return ("val", d)


def compile_items(tree, optimize):
    """Item stream the package produces for a tree."""
    from hrdc.stream import optimizer
    from hrdc.descriptor import streamer
    sink = Sink()
    out = optimizer.Optimizer.new(sink) if optimize else sink
    tree.accept(streamer.Streamer(out))
    out.close()
    return sink


def optimize_items(items):
    from hrdc.stream import optimizer
    sink = Sink()
    out = optimizer.Optimizer.new(sink)
    for it in items:
        out.append(it)
    out.close()
    return sink


# ------------------------------------------------------------------ usage names
MODULES = {"desktop": 1, "simulation": 2, "vr": 3, "game": 5, "device": 6, "keyboard": 7, "led": 8, "button": 9,
           "ordinal": 10, "telephony": 11, "consumer": 12, "digitizers": 13, "pid": 15, "sensors": 32,
           "lighting": 89, "camera": 144}
_USAGES = None


def usage_table():
    """{value: "module.Name"}: how a script refers to a usage of the package's tables."""
    global _USAGES
    if _USAGES is None:
        import importlib
        t = {}
        for m in MODULES:
            mod = importlib.import_module("hrdc.usage." + m)
            for a, u in vars(mod).items():
                if type(u).__name__ == "Usage" and not a.startswith("_"):
                    t.setdefault(int(u.value), []).append(m + "." + a)
        for n in range(128):
            t[0x90000 + n] = ["button.Button(%d)" % n]
            t[0xa0000 + n] = ["ordinal.Ordinal(%d)" % n]
        _USAGES = {v: n[0] for v, n in t.items()}
    return _USAGES


def among(v, values):
    """v is one of these, decided (a fork)"""
    from .values import keyset
    return concretize(keyset(v, sorted(values))) if isinstance(v, SymInt) else v in values


def name_of(v, table):
    """table[v] as text; v must be in the table"""
    from .values import FinVal
    if not isinstance(v, SymInt):
        return table[v]
    t = {k: n for k, n in table.items() if v.lo <= k <= v.hi}
    if len(set(t.values())) == 1:
        return next(iter(t.values()))
    return str(FinVal(v, t))
