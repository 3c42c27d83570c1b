"""Processing is repeatable, and one descriptor does not influence another."""
from sx.ctx import Instance
from sx import hid
from sx.hid import mk, item_of, Sink
from sx.engine import b_all
from sx.text import text_eq
from . import trees, c10, c12, c14
from .c06 import Lines

V = trees.VENDOR


def same(ctx, a, b, msg):
    ctx.check([n for n, v in a] == [n for n, v in b], msg)
    ctx.check(b_all([x[1] == y[1] for x, y in zip(a, b)]), msg)


def known():
    """Number of usages in the tables"""
    from hrdc.usage import Usage
    t = getattr(Usage, "reverse", None)
    return len(t) if isinstance(t, dict) else 0


def twice(ctx, shape):
    """A tree compiled, dumped and compiled again, in any mode"""
    t = hid.build(shape(ctx))
    opt = ctx.flag("optimize")
    before = hid.spec_of(t)
    tables = known()
    a = hid.compile_items(t, opt).items
    s1 = c14.dump(t)
    b = hid.compile_items(t, not opt).items
    c = hid.compile_items(t, opt).items
    s2 = c14.dump(t)
    ctx.observe(a)
    same(ctx, a, c, "compiling twice gives two results")
    ctx.check(text_eq(s1, s2), "dumping twice gives two results")
    ctx.check(hid.same(before, hid.spec_of(t)), "the tree is not what it was")
    ctx.check(known() == tables, "the tables of usages are not what they were")


def events(tree):
    """Calls a visitor gets from a tree"""
    from hrdc.descriptor.descriptor import Visitor
    out = []

    class Rec(Visitor):
        def enter(self, e):
            out.append(("enter", e))

        def leave(self, e):
            out.append(("leave", e))

        def element(self, e):
            out.append(("element", e))
    tree.accept(Rec())
    return out


def visitor(what):
    from hrdc.descriptor.streamer import Streamer
    from hrdc.descriptor.dumper import Dumper
    from hrdc.stream import optimizer
    if what == "dumper":
        f = Lines()
        return Dumper(f), f, None
    sink = Sink()
    o = optimizer.Optimizer.new(sink) if what == "optimized" else sink
    return Streamer(o), sink, o


def visited(v):
    if v[2] is not None:
        v[2].close()
        return v[1].items
    return v[1].out


def turns(n, m, mode):
    """Orders to process n and m steps of two descriptors in"""
    if mode >= 4:
        # one is processed as a whole after some steps of the other
        k = min(mode - 3, n)
        return [0] * k + [1] * m + [0] * (n - k)
    out, i, j = [], 0, 0
    pattern = [(0, 1), (1, 0), (0, 0, 1), (1, 1, 0)][mode]
    while i < n or j < m:
        for w in pattern:
            if w == 0 and i < n:
                out.append(0)
                i += 1
            elif w == 1 and j < m:
                out.append(1)
                j += 1
    return out


def trees_in_turns(ctx, what, shape):
    """Two trees visited in turns, against each on its own"""
    ta, tb = hid.build(shape(ctx)), hid.build(other(ctx))
    alone, ev = [], []
    for t in (ta, tb):
        v = visitor(what)
        t.accept(v[0])
        alone.append(visited(v))
        ev.append(events(t))
    vs = [visitor(what), visitor(what)]
    at = [0, 0]
    for w in turns(len(ev[0]), len(ev[1]), ctx.index("turns", 8)):
        name, e = ev[w][at[w]]
        at[w] += 1
        getattr(vs[w][0], name)(e)
    for v, x in zip(vs, alone):
        y = visited(v)
        ctx.observe(y)
        if what == "dumper":
            ctx.check(text_eq(x, y), "two trees dumped in turns influence each other")
        else:
            same(ctx, x, y, "two trees compiled in turns influence each other")


def stream_again(ctx, what, slots=None):
    """One stream of items processed twice"""
    xs = [mk(n, v) for n, v in c10.stream(ctx, slots or A)]
    before = [item_of(i) for i in xs]
    r = [result(what, one(what, xs)) for k in range(2)]
    ctx.observe(r[0])
    after = [item_of(i) for i in xs]
    ctx.check(hid.same(before, after), "items are not what they were")
    if what == "dump":
        ctx.check(text_eq(r[0], r[1]), "processing a stream twice gives two results")
    else:
        ctx.check(hid.same([list(e) for e in r[0]], [list(e) for e in r[1]]), "processing a stream twice gives two results")


def lists(ctx):
    """Lists of usages given to named arrays and to ranges stay what they are"""
    from hrdc.descriptor import Value, Collection
    from hrdc.usage import UsageRange
    n = ctx.choice("n", [2, 3, 9, 12, 17])
    us = [V + 5 + k for k in range(n)]
    i = ctx.choice("i", [0, n // 2 - 1, n - 2])
    us[i], us[i + 1] = ctx.int("a", V + 1, V + 40), ctx.int("b", V + 1, V + 40)
    before = list(us)
    results = []
    for k in range(2):
        if ctx.flag("range%d" % k):
            try:
                u = UsageRange.from_array(us)
                results.append([u.min, u.max])
            except ValueError:
                results.append([])
        else:
            t = Collection(1, trees.APP, Value(Value.Input, None, 8, namedArray=us))
            results.append([list(x) for x in hid.compile_items(t, ctx.flag("optimize%d" % k)).items])
            c14.dump(t)
        ctx.check(len(us) == n and b_all([a == b for a, b in zip(us, before)]), "a list given is not what it was")
    ctx.observe(results[0])


def other(ctx):
    """Another descriptor, with everything in it"""
    return trees.app(("rep", ctx.int("oid", 1, 3), [
        trees.val(V + 1, size=ctx.int("osize", 1, 9), logicalMin=-5, logicalMax=5, physicalMin=1, physicalMax=2, unit=0x11,
                  unitExponent=3, string=4, designator=5),
        trees.val(V + 2, way="Output", size=3), trees.val(None, way="Feature", size=8, namedArray=[V + 7, V + 9])]))


def between(ctx, shape, unfinished=False):
    """Compiling another tree in between changes nothing"""
    t = hid.build(shape(ctx))
    a = hid.compile_items(t, True).items
    o = hid.compile_items(hid.build(other(ctx)), True)
    if unfinished:
        from hrdc.stream import optimizer
        s = optimizer.Optimizer.new(Sink())
        for i in o.objs[:ctx.index("stop", 8)]:
            s.append(i)
    b = hid.compile_items(t, True).items
    ctx.observe(a)
    same(ctx, a, b, "what was compiled before matters")


def interleave(ctx, what, A, B):
    """Two streams processed item by item in turns, against each on its own"""
    xa = [mk(n, v) for n, v in c10.stream(ctx, A)]
    xb = [mk(*s) for s in B]
    alone = [result(what, one(what, xa)), result(what, one(what, xb))]
    p, q = start(what), start(what)
    at = [0, 0]
    for w in turns(len(xa), len(xb), ctx.index("turns", 12)):
        (p, q)[w][0].append((xa, xb)[w][at[w]])
        at[w] += 1
    both = [result(what, finish(p)), result(what, finish(q))]
    for x, y in zip(both, alone):
        ctx.observe(x)
        if what == "dump":
            ctx.check(text_eq(x, y), "two descriptors processed in turns influence each other")
        else:
            ctx.check(hid.same([list(e) for e in x], [list(e) for e in y]), "two descriptors processed in turns influence each other")


def start(what):
    from hrdc.stream import optimizer
    from hrdc.descriptor.extractor import Extractor
    from hrdc.stream.formatter import Formatter
    from hrdc.stream.parser.base import Parser
    if what == "optimizer":
        sink = Sink()
        return optimizer.Optimizer.new(sink), sink
    if what == "extractor":
        x = Extractor()
        return x, x
    if what == "parser":
        sink = Sink()
        p = Parser(None, sink)
        return p, sink
    f = Lines()
    return Formatter.get("code")(f), f


def finish(s):
    s[0].close()
    return s


def one(what, items):
    s = start(what)
    for i in items:
        s[0].append(i)
    return finish(s)


def result(what, s):
    if what == "extractor":
        ev, tot = hid.declared(hid.spec_of(s[1].root))
        return ev + sorted(tot.items())
    if what == "dump":
        return s[1].out
    if what == "parser":
        from sx.text import text
        return [(n, v) for n, v in s[1].items]
    return s[1].items


def reread(ctx, fmt, n):
    """Reading the same input twice, and another in between"""
    from hrdc.stream.parser import Parser
    from .c04 import fmt as write, parse
    pg, u, u2 = ctx.int("page", 1, 12), ctx.int("u", 1, 0xff), ctx.int("u2", 1, 0xff)
    # as many pushes as pops or not, in either
    a = write(fmt, [mk("UsagePage", pg), mk("Usage", u), mk("Push"), mk("UsagePage", 0xff02), mk("Collection", 1), mk("EndCollection")]
              + [mk("Pop") for k in range(ctx.index("pops", 3))])
    b = write(fmt, ctx.choice("start", [[], [mk("Pop")], [mk("UsagePage", 1), mk("Pop")], [mk("UsagePage", 1), mk("Push"), mk("Pop"), mk("Pop")]])
              + [mk("Usage", u2), mk("Collection", 1), mk("EndCollection")])
    from sx.text import text
    x = parse(fmt, b)
    parse(fmt, a)
    y = parse(fmt, b)
    same(ctx, x.items, y.items, "reading depends on what was read before")
    for i, j in zip(x.objs, y.objs):
        ctx.check(text_eq(text(i), text(j)), "names depend on what was read before")


def lookups(ctx):
    """Looking usages up leaves the tables as they are"""
    from hrdc.usage import Usage, UsageRange
    from sx.text import text
    a, b = ctx.int("a", 0x10000, 0xffffffff), ctx.int("b", 0x10000, 0xffffffff)
    tables = known()
    n1 = text(Usage.lookup(a))
    from hrdc.util import NamedConstant
    Usage.lookup(NamedConstant("mine", b) if ctx.flag("named") else b)
    list(UsageRange(b, b + 1))
    if ctx.flag("compiled"):
        hid.compile_items(hid.build(trees.app(("val", dict(way="Input", usage=NamedConstant("other", b), size=8, logicalMax=1)))), False)
    Usage.inpage(b >> 16, b & 0xffff)
    u = Usage.lookup(a)
    ctx.check(text_eq(n1, text(u)), "the name of a usage depends on former lookups")
    ctx.check(hid.ival(u) == a, "the value of a usage depends on former lookups")
    ctx.check(known() == tables, "the tables of usages are not what they were")


def kinds(ctx):
    """The types of a usage are its own"""
    from hrdc.usage import usage as m
    types = [m.NAry, m.CA, m.LC, m.OOC]
    a, b = ctx.int("a", 0, 0xffffffff), ctx.int("b", 0, 0xffffffff)
    k = ctx.choice("kinds", [[], types[:1], types[1:3]])
    x = m.Usage("same", a, *k, register=False)
    known_one = m.Usage.lookup(0x10002)                      # a mouse
    was = [bool(t.test(known_one)) for t in types]
    names = ["same", "other", known_one.name]
    y = m.Usage(ctx.choice("name", names), b, *ctx.choice("others", [[], types[2:], types[:2]]), register=False)
    m.Usage.lookup(b)
    for t in types:
        t.test(b)
        t.test(y)
    ctx.observe([bool(t.test(x)) for t in types])
    ctx.check([bool(t.test(x)) for t in types] == [t in k for t in types], "the types of a usage depend on another usage")
    ctx.check([bool(t.test(known_one)) for t in types] == was, "the types of a known usage depend on another usage")
    ctx.check(b_all([hid.ival(x) == a, hid.ival(y) == b]), "the value of a usage depends on another usage")


HEAD = [("UsagePage", 0xff02, 0xff03), ("LogicalMinimum", 0, 1), ("LogicalMaximum", 2, 3), ("ReportSize", 8, 8), ("ReportCount", 1, 2)]
A = [("Usage", V + 9, V + 9), ("Collection", 1, 1)] + HEAD + [("Usage", 1, 3), ("Push",), ("Unit", 0, 3), ("Input", 2, 2), ("Pop",),
     ("StringIndex", 0, 2), ("Usage", 2, 4), ("Input", 2, 2), ("EndCollection",)]
# items that can be one
LIKE = [("Usage", V + 9, V + 9), ("Collection", 1, 1)] + HEAD[:4] + [x for k in range(3) for x in (
    ("ReportCount", 1, 2), [[("Usage", 1 + k, 1 + k)], []], [[("StringIndex", 1 + k, 1 + k)], []], ("Input", 2, 2))] + [("EndCollection",)]
B = [("UsagePage", 0xff05), ("Usage", V + 8), ("Collection", 1), ("LogicalMinimum", -1), ("LogicalMaximum", 1), ("Unit", 0x11),
     ("PhysicalMaximum", 7), ("ReportSize", 5), ("ReportCount", 3), ("ReportID", 4), ("Push",), ("UsagePage", 0xff07), ("Usage", 3),
     ("DesignatorIndex", 3), ("Input", 6), ("Usage", V + 1), ("Usage", V + 3), ("Pop",), ("Output", 2), ("EndCollection",)]


def instances(tier):
    r = []
    T = trees.QUICK if tier == "thorough" else [trees.sizes, trees.reports, trees.strings, trees.array_list, trees.array_values,
                                                trees.units, trees.usages, trees.gamepad, trees.counts, trees.flags_constant]
    for s in T:
        d = (s.__doc__ or s.__name__).strip()
        r.append(Instance("twice-" + s.__name__, twice, d, dict(shape=s)))
        r.append(Instance("between-" + s.__name__, between, d, dict(shape=s)))
    r.append(Instance("unfinished", between, "an optimizer left in the middle", dict(shape=trees.units, unfinished=True)))
    for w in ("optimizer", "extractor", "parser", "dump"):
        r.append(Instance("turns-" + w, interleave, "two streams of 16 and 20 items in turns, 8 symbolic values", dict(what=w, A=A, B=B)))
        r.append(Instance("stream-again-" + w, stream_again, "a stream of 16 items, 8 symbolic values, twice", dict(what=w)))
        r.append(Instance("stream-like-" + w, stream_again, "a stream of three items that can be one, twice", dict(what=w, slots=LIKE)))
    for w in ("streamer", "optimized", "dumper"):
        for s in (trees.sizes, trees.reports, trees.units) + ((trees.constant_aligned, trees.array_list, trees.gamepad) if tier == "thorough" else ()):
            if w == "optimized" and s is trees.reports and tier == "quick":
                continue
            r.append(Instance("visitors-%s-%s" % (w, s.__name__), trees_in_turns, "two trees visited in 8 orders of turns",
                              dict(what=w, shape=s)))
    for f in ("binary", "hex", "code"):
        r.append(Instance("reread-" + f, reread, "pages 1..12, usages 1..255", dict(fmt=f, n=2)))
    r.append(Instance("lists", lists, "lists of 2 to 17 usages, any two of them symbolic"))
    r.append(Instance("kinds", kinds, "two usages, any 32 bit value, same name or not, with three choices of types each"))
    r.append(Instance("lookups", lookups, "two usages, any 32 bit value"))
    return r


BUDGET = {"quick": 300, "thorough": 3000}
