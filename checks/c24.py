"""Programs fail on input they cannot read and options they do not know, they never end as if all was well."""
from sx.ctx import Instance
from sx import hid
from sx.engine import concretize
from sx.hid import SPEC
from sx.program import run
from . import c20, trees
from .c20 import FORMATS, encode, digits

def source(ctx):
    """A descriptor with one symbolic payload"""
    v = ctx.int("v", 0, 255)
    return [0x06, 0x01, 0xff, 0x09, 1, 0xa1, 1, 0x15, 0, 0x25, v, 0x75, 8, 0x95, 1, 0x09, 2, 0x81, 2, 0xc0]


HOWS = ("names", "input", "streams")


def attempt(ctx, what, args, how, data=None):
    """Status of a program, which may also die of an exception"""
    if how == "names":
        a, std, files = args + (["@in"] if data is not None else []) + ["@out"], None, {"in": data}
    elif how == "input":
        a, std, files = args + ["@in"], None, {"in": data}
    else:
        a, std, files = args, data, {}
    try:
        return run(what, a, std, files)[0]
    except Exception as e:
        return type(e).__name__


def must_fail(ctx, st, why):
    ctx.observe(st == 0)
    ctx.check(st != 0, "a program ends well with %s" % why)


PROGRAMS = {"converter": "hrdc.converter", "decompiler": "hrdc.descriptor.extractor"}


def args_of(ctx, prog, a, b):
    return ["-i", a] + (["-o", b] + (["-O"] if ctx.flag("optimize") else []) if prog == "converter" else [])


def truncated(ctx, prog, a, b):
    """Input cut inside its last item"""
    by = source(ctx)
    by = by + [0x27] + [ctx.int("p%d" % k, 0, 255) for k in range(4)]
    by = by[:len(by) - 1 - ctx.index("cut", 4)]
    must_fail(ctx, attempt(ctx, PROGRAMS[prog], args_of(ctx, prog, a, b), ctx.choice("how", HOWS), encode(ctx, a, by)),
              "truncated input")


def unknown(ctx, prog, a, b):
    """An item that does not exist, anywhere"""
    by = source(ctx)
    starts = [0]
    while starts[-1] < len(by):
        starts.append(starts[-1] + 1 + (0, 1, 2, 4)[by[starts[-1]] & 3])
    at = ctx.choice("at", [starts[0], starts[3], starts[-1]])
    p = ctx.choice("prefix", [0x0d, 0xc4, 0xf4, 0xb9, 0xd1, 0x01])
    by = by[:at] + [p, ctx.int("payload", 0, 255)][:1 + (p & 3)] + by[at:]
    must_fail(ctx, attempt(ctx, PROGRAMS[prog], args_of(ctx, prog, a, b), ctx.choice("how", HOWS), encode(ctx, a, by)),
              "an unknown item")


def word(ctx, prog):
    """Something that is not a byte in code"""
    by = source(ctx)
    text = encode(ctx, "code", by)
    bad = ctx.choice("bad", ["0x100", "zz", "0x", "5 LL", "1g", "0x1ff"])
    text = (bad + ", " + text) if ctx.flag("first") else (text + ", " + bad)
    must_fail(ctx, attempt(ctx, PROGRAMS[prog], args_of(ctx, prog, "code", "binary"), ctx.choice("how", HOWS), text),
              "code that is not made of bytes")


def number(ctx, prog):
    """A number that is no byte in the place of any byte of the code"""
    by = source(ctx)
    n = ctx.choice("digits", [0, 3, 5])
    word = "0x" + digits(ctx, "", ctx.int("number", 256, 16 ** n - 1), False, n) if n else ctx.choice("negative", ["-0x1", "-5"])
    at = ctx.choice("at", [0, 1, 5, 10, len(by) - 1])
    text = ", ".join([encode(ctx, "code", [b]) if k != at else word for k, b in enumerate(by)])
    must_fail(ctx, attempt(ctx, PROGRAMS[prog], args_of(ctx, prog, "code", "binary"), ctx.choice("how", HOWS), text),
              "code that is not made of bytes")


def unclosed(ctx, a):
    """Collections that do not match"""
    by = source(ctx)
    by = ctx.choice("how-ill", [by[:-1], by + [0xc0], [0xc0] + by, by[:-1] + [0xb4, 0xc0]])
    must_fail(ctx, attempt(ctx, PROGRAMS["decompiler"], ["-i", a], ctx.choice("how", HOWS), encode(ctx, a, by)),
              "collections that do not match")


NAMES = ["xml", "", "intel", "parser", "formatter", "stream", "auto", "none", "text"]


def formats(ctx, prog):
    """A format that does not exist"""
    name = ctx.choice("format", NAMES)
    if prog != "compiler":
        by = source(ctx)
    if prog == "compiler":
        from hrdc.descriptor import compile_main
        t = hid.build(c20.tree(ctx))
        st = attempt(ctx, lambda: compile_main(t), ["-o", name], ctx.choice("how", ("names", "streams")))
    else:
        side = ctx.choice("side", ["-i", "-o"]) if prog == "converter" else "-i"
        st = attempt(ctx, PROGRAMS[prog], [side, name], ctx.choice("how", HOWS), encode(ctx, "binary", by))
    must_fail(ctx, st, "a format that does not exist")


def options(ctx, prog):
    """Options and arguments that do not exist, files that are not there"""
    by = source(ctx)
    bad = ctx.choice("bad", [["-x"], ["--optimise"], ["-i"], ["-o"], ["@missing", "@out"], ["@in", "@out", "@more"], ["--verbose", "@in"]]
                     if prog != "compiler" else [["-x"], ["-O"], ["--optimize"], ["-o"], ["@out", "@more"], ["-i", "@hex"]])
    if prog == "compiler":
        from hrdc.descriptor import compile_main
        t = hid.build(trees.app(trees.val(trees.VENDOR + by[10])))
        what = lambda: compile_main(t)
    else:
        what = PROGRAMS[prog]
    data = encode(ctx, "binary", by)
    try:
        st = run(what, bad, data, {"in": data})[0]
    except Exception as e:
        st = type(e).__name__
    must_fail(ctx, st, "wrong arguments %s" % " ".join(bad))


def well(ctx, a):
    """The same descriptor undamaged is accepted"""
    by = source(ctx)
    prog, how = ctx.choice("prog", sorted(PROGRAMS)), ctx.choice("how", HOWS)
    st = attempt(ctx, PROGRAMS[prog], args_of(ctx, prog, a, "code"), how, encode(ctx, a, by))
    ctx.observe(st == 0)
    ctx.check(st == 0, "the %s refuses a good descriptor" % prog)


def instances(tier):
    r = []
    d = ", 10 items, a symbolic payload, named files or standard streams"
    for a in FORMATS:
        for b in FORMATS:
            if tier == "quick" and b != {"binary": "code", "hex": "binary", "code": "hex"}[a]:
                continue
            r.append(Instance("cut-%s-%s" % (a, b), truncated, "converter, last item cut anywhere" + d, dict(prog="converter", a=a, b=b)))
            r.append(Instance("unknown-%s-%s" % (a, b), unknown, "converter, an unknown item at three places" + d,
                              dict(prog="converter", a=a, b=b)))
        r.append(Instance("decompile-cut-" + a, truncated, "decompiler, last item cut anywhere" + d, dict(prog="decompiler", a=a, b=None)))
        r.append(Instance("decompile-unknown-" + a, unknown, "decompiler, an unknown item at three places" + d,
                          dict(prog="decompiler", a=a, b=None)))
        r.append(Instance("decompile-ill-" + a, unclosed, "collections with one end too many or too few" + d, dict(a=a)))
        r.append(Instance("well-" + a, well, "nothing wrong" + d, dict(a=a)))
    for p in PROGRAMS:
        r.append(Instance("word-" + p, word, "a word that is no byte, first or last" + d, dict(prog=p)))
        r.append(Instance("number-" + p, number, "a number beyond a byte in any of 5 places" + d, dict(prog=p)))
    for p in list(PROGRAMS) + ["compiler"]:
        r.append(Instance("format-" + p, formats, "9 names of formats that do not exist" + d, dict(prog=p)))
        r.append(Instance("options-" + p, options, "wrong arguments", dict(prog=p)))
    return r


BUDGET = {"quick": 300, "thorough": 3000}
