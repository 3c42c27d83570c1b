"""The command line programs do what their options say."""
from sx.ctx import Instance
from sx import hid
from sx.engine import b_all, concretize
from sx.hid import SPEC
from sx.program import run
from . import trees, c12, c14
from .c05 import digits

FORMATS = ("binary", "hex", "code")


def source(ctx, wide=True):
    """Bytes of a descriptor, payloads symbolic"""
    by, items = [], []

    def it(name, *payload):
        kind, tag, signed = SPEC[name]
        by.append(tag << 4 | kind << 2 | len(payload))
        by.extend(payload)
        items.append((name, hid.payload_value(list(payload), signed) if payload else 0))
    lmin, lmax = ctx.int("lmin", 0, 255) if wide else 0, ctx.int("lmax", 0, 255) if wide else 1
    it("UsagePage", 0x85)
    it("Usage", 1)
    it("Collection", 1)
    it("LogicalMinimum", lmin)
    it("LogicalMaximum", lmax)
    it("ReportSize", 8)
    it("ReportCount", 1)
    it("Usage", 0x20)
    it("Input", 2)
    it("LogicalMaximum", ctx.int("lmax2", 0, 255) if wide else 3)
    it("Usage", ctx.int("u1", 0x20, 0x22))
    it("Input", 2)
    it("EndCollection")
    return by, items


def encode(ctx, fmt, by):
    from sx.values import mkbytes
    if fmt == "binary":
        return mkbytes(by) if ctx.sym else bytes(by)
    d = [digits(ctx, "", b, False, 2) if not isinstance(b, int) or not ctx.sym else "%02x" % b for b in by]
    return " ".join(d) if fmt == "hex" else ", ".join("0x" + x for x in d)


def decode(ctx, fmt, out):
    """Items of an output, read independently"""
    from sx.values import parse_int_text
    if fmt == "binary":
        ctx.check(out.wrote in (None, "bytes"), "binary output is not bytes")
        by = list(out.content())
    else:
        ctx.check(out.wrote in (None, "text"), "text output is not text")
        by = []
        for l in out.content().split("\n"):
            for w in (l.split("//", 1)[0].split(",") if fmt == "code" else l.split(" ")):
                w = w.strip(" ")
                if w:
                    by.append(parse_int_text(w, 16))
    d = hid.decode(by)
    ctx.check(d is not None, "output ends inside an item")
    r = []
    for p, el in d:
        k = concretize(p)
        name = hid.NAMES.get(((k >> 2) & 3, k >> 4))
        ctx.check(name is not None, "unknown item in the output")
        r.append((name, hid.payload_value(el, SPEC[name][2])))
    return r


HOWS = ("names", "input", "streams")


def call(ctx, what, args, how, data=None):
    if how == "names":
        a, std, files = args + (["@in"] if data is not None else []) + ["@out"], None, {"in": data}
    elif how == "input":
        a, std, files = args + ["@in"], None, {"in": data}
    else:
        a, std, files = args, data, {}
    st, outs, out = run(what, a, std, files)
    ctx.check(st == 0, "the program refuses its arguments")
    if how == "names":
        ctx.check(list(outs) == ["out"], "the output file is not the one asked for")
        ctx.check(out.wrote is None, "something is written to standard output besides the file")
        return outs["out"]
    ctx.check(not outs, "a file is written that was not asked for")
    return out


def option(style, flag, long, fmt):
    """An option, spelled either way, or left out for its default"""
    if style == 2 and fmt == "binary":
        return []
    return ["--%s-format" % long, fmt] if style == 1 else ["-" + flag, fmt]


def same_items(ctx, got, want, msg):
    ctx.check([n for n, v in got] == [n for n, v in want], msg + ": other items")
    ctx.check(b_all([a[1] == b[1] for a, b in zip(got, want)]), msg + ": other values")


def converter(ctx, a, b):
    by, items = source(ctx)
    optimize, style = ctx.flag("optimize"), ctx.index("style", 3 if "binary" in (a, b) else 2)
    args = option(style, "i", "input", a) + option(style, "o", "output", b) + (["--optimize" if style == 1 else "-O"] if optimize else [])
    out = call(ctx, "hrdc.converter", args, ctx.choice("how", HOWS), encode(ctx, a, by))
    got = decode(ctx, b, out)
    ctx.observe(got)
    if not optimize:
        same_items(ctx, got, items, "conversion")
        return
    sink = hid.optimize_items([hid.mk(n, v) for n, v in items])
    ctx.check(len(got) == len(sink.items), "the stream is not the optimized one")
    x, y = hid.meaning(got, layout=True), hid.meaning(items, layout=True)
    ctx.check([e[0] for e in x[0]] == [e[0] for e in y[0]], "optimized conversion changes the structure")
    ctx.check(hid.same(x[0], y[0]) if len(x[0]) == len(y[0]) else False, "optimized conversion changes the meaning")


def tree(ctx):
    return trees.app(trees.val(trees.VENDOR + 1, size=8, logicalMin=ctx.int("lmin", -128, 127), logicalMax=ctx.int("lmax", -128, 127)),
                     trees.val(ctx.int("u", trees.VENDOR + 1, trees.VENDOR + 3), size=8, logicalMax=ctx.int("lmax2", 0, 3)))


def compiler(ctx, b):
    from hrdc.descriptor import compile_main
    t = hid.build(tree(ctx))
    plain, style = ctx.flag("plain"), ctx.index("style", 3 if b == "binary" else 2)
    args = option(style, "o", "output", b) + (["--no-optimize" if style == 1 else "-N"] if plain else [])
    out = call(ctx, lambda: compile_main(t), args, "names" if ctx.flag("named") else "streams")
    got = decode(ctx, b, out)
    ctx.observe(got)
    want = hid.compile_items(t, not plain).items
    same_items(ctx, got, want, "compilation")
    x, y = hid.meaning(got, layout=True), hid.declared(hid.spec_of(t))
    ctx.check(hid.same(x[0], y[0]) if len(x[0]) == len(y[0]) else False, "the compiled descriptor is another one")


def decompiler(ctx, a):
    by, items = source(ctx)
    args = option(ctx.index("style", 3 if a == "binary" else 2), "i", "input", a)
    out = call(ctx, "hrdc.descriptor.extractor", args, ctx.choice("how", HOWS), encode(ctx, a, by))
    ctx.check(out.wrote == "text", "no script is written")
    src = out.content()
    ctx.observe(src)
    try:
        ns, got = c14.evaluate(ctx, src)
    except (SyntaxError, NameError, AttributeError, TypeError) as e:
        ctx.check(False, "the output is not a script: %s" % e)
    ev, wt = c12.structure(ctx, items)
    got, gt = hid.declared(hid.spec_of(ns["descriptor"]))
    c12.compare(ctx, c12.normal(ctx, got), gt, c12.normal(ctx, ev, True), wt, "decompiled")


def long(ctx, what):
    """Input of many items"""
    n = ctx.choice("items", [300, 5000] if what == "convert" else [300])
    by, items = source(ctx, False)
    more = [0x25, 9, 0x09, 0x21, 0x81, 2] * (n // 3)
    by = by[:-1] + more + by[-1:]
    items = items[:-1] + [("LogicalMaximum", 9), ("Usage", 0x21), ("Input", 2)] * (n // 3) + items[-1:]
    how = ctx.choice("how", HOWS)
    if what == "convert":
        out = call(ctx, "hrdc.converter", [], how, encode(ctx, "binary", by))
        got = out.content()
        ctx.check(out.wrote == "bytes" and len(got) == len(by), "the output is not as long as the input")
        ctx.check(b_all([a == b for a, b in zip(got, by)]), "the output is not the input")
        return
    out = call(ctx, "hrdc.descriptor.extractor", [], how, encode(ctx, "binary", by))
    ns, got = c14.evaluate(ctx, out.content())
    ev, wt = c12.structure(ctx, items)
    got, gt = hid.declared(hid.spec_of(ns["descriptor"]))
    c12.compare(ctx, c12.normal(ctx, got), gt, c12.normal(ctx, ev, True), wt, "decompiled")


def instances(tier):
    r = [Instance("long-" + w, long, "300 or 5000 items" if w == "convert" else "300 items", dict(what=w)) for w in ("convert", "decompile")]
    d = ", options spelled short or long or left out, named files or standard streams"
    for a in FORMATS:
        for b in FORMATS:
            r.append(Instance("convert-%s-%s" % (a, b), converter, "13 items, 4 symbolic payloads" + d, dict(a=a, b=b)))
        r.append(Instance("compile-" + a, compiler, "a collection with two values, attributes symbolic" + d, dict(b=a)))
        r.append(Instance("decompile-" + a, decompiler, "13 items, 4 symbolic payloads" + d, dict(a=a)))
    return r


BUDGET = {"quick": 300, "thorough": 3000}
