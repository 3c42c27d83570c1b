"""A dumped descriptor is a script that builds the same descriptor."""
from sx.ctx import Instance
from sx import hid
from sx.engine import SymInt, concretize
from sx.values import is_tok, has_tok, tok, tok_text, mkfin
from . import trees, c10, c12
from .c06 import Lines

_EVAL = {}


def evaluate(ctx, src, name="dumped"):
    """Runs a script.  Numbers and names in it may be symbolic: they stand for themselves, as variables."""
    import hrdc.descriptor as HD
    ns = {"__name__": name}
    got = []
    saved = HD.compile_main
    HD.compile_main = lambda d: got.append(d)
    try:
        if has_tok(src):
            src = bind(src, ns)
        exec(compile(src, "<dumped>", "exec"), ns)
    finally:
        HD.compile_main = saved
    return ns, got


def names():
    ns = {}
    exec("from hrdc.usage import *\nfrom hrdc.descriptor import *", ns)
    return ns


def bind(src, ns):
    out, n = "", 0
    for k, c in enumerate(src):
        if not is_tok(c):
            out += c
            continue
        p = tok(c)
        before, after = src[k - 1:k], src[k + 1:k + 2]
        glued = before and (before.isalnum() or before in "._'\"" or is_tok(before)) \
            or after and (after.isalnum() or after in "._('\"" or is_tok(after))
        v = None
        if not glued:
            if p[0] in ("dec", "hex"):
                v = p[1]
            elif p[0] == "fin":
                env, tab = None, {}
                for key, x in p[1].tab.items():
                    t = str(x)
                    if t not in _EVAL:
                        env = env or names()
                        try:
                            r = eval(t, env)
                            _EVAL[t] = int(r.value) if hasattr(r, "value") else int(r)
                        except Exception:
                            _EVAL[t] = None
                    tab[key] = _EVAL[t]
                if None not in tab.values():
                    v = mkfin(p[1].key, tab)
        if v is None:
            out += tok_text(c)
        else:
            ns["_t%d" % n] = v
            out += "_t%d" % n
            n += 1
    return out


def dump(tree):
    from hrdc.descriptor.dumper import Dumper
    f = Lines()
    tree.accept(Dumper(f))
    return f.out


def run(ctx, src, name):
    try:
        ns, got = evaluate(ctx, src, name)
    except SyntaxError as e:
        ctx.check(False, "the dump is no script: %s" % e)
    except (NameError, AttributeError, TypeError, ValueError) as e:
        ctx.check(False, "the dump does not run: %s: %s" % (type(e).__name__, e))
    ctx.check("descriptor" in ns, "the dump defines no descriptor")
    return ns["descriptor"], got


def scripted(ctx, tree):
    src = dump(tree)
    ctx.observe(src)
    d, got = run(ctx, src, "__main__")
    ctx.check(len(got) == 1 and got[0] is d, "the script does not compile its descriptor when run")
    d, got = run(ctx, src, "dumped")
    ctx.check(not got, "the script compiles its descriptor when imported")
    return d


def same_tree(ctx, a, b):
    want, wt = hid.declared(hid.spec_of(a))
    got, gt = hid.declared(hid.spec_of(b))
    ctx.check([e[0] for e in got] == [e[0] for e in want], "the script declares %s instead of %s"
              % (hid.describe(got), hid.describe(want)))
    ctx.check(hid.same(got, want), "the script declares something else")
    ctx.check(hid.same(gt, wt), "report lengths differ")


def declared(ctx, shape):
    tree = hid.build(shape(ctx))
    same_tree(ctx, tree, scripted(ctx, tree))


def roots(ctx):
    """A top level, a collection or a report as the root"""
    m = [trees.val(trees.VENDOR + 1, size=ctx.int("size%d" % k, 1, 16)) for k in range(ctx.index("n", 3))]
    k = ctx.index("root", 5)
    c = ("col", 1, trees.APP, m)
    return [("top", []), ("top", [c]), c, ("rep", 3, m), ("top", [("rep", 2, [c]), c])][k]


def extracted(ctx, source, arg):
    objs = c12.objects(ctx, source, arg)
    ev, _ = c12.structure(ctx, [hid.item_of(o) for o in objs])
    for e in ev:
        if e[0] in ("control", "array"):
            ctx.assume(hid.b_all([len(e[-3]) > 0 or e[0] == "array"]))
    tree = c12.extract(ctx, objs)
    same_tree(ctx, tree, scripted(ctx, tree))


def registered(ctx):
    """Usages of the tables, in values, collections, arrays and ranges"""
    P = [0x10000, 0x70000, 0x90000, 0xc0000]
    p = ctx.choice("page", P)
    u = lambda n: ctx.int(n, p, p + 0x1ff)
    k = ctx.index("where", 4)
    if k == 0:
        return trees.app(trees.val(u("u")))
    if k == 1:
        return ("col", 2, u("u"), [trees.val(trees.VENDOR + 1)])
    if k == 2:
        return trees.app(("val", dict(way="Input", usage=None, size=8, namedArray=[u("u"), u("v")])))
    a = ctx.int("u", p, p + 0xff)
    return trees.app(("val", dict(way="Input", usage=None, size=8, namedArray=(a, a + ctx.int("n", 1, 3)))))


def named_flags(ctx):
    """Flags given as the constants or as numbers, named arrays"""
    from hrdc.descriptor import Value
    f = ctx.choice("f", [Value.Data, Value.Variable, Value.Constant, Value.Relative, Value.BufferedBytes, 0, 2, 6, 0x102])
    return trees.app(trees.val(trees.VENDOR + 1, flags=f), trees.val(trees.VENDOR + 2, flags=ctx.int("g", 0, 0x1ff)))


def named_units(ctx):
    """Units given as the constants"""
    from hrdc.stream.item import Unit
    names = sorted(n for n, v in vars(Unit).items() if type(v).__name__ == "NamedConstant" and n != "tag")
    return trees.app(trees.val(trees.VENDOR + 1, unit=getattr(Unit, ctx.choice("unit", names)),
                               unitExponent=ctx.int("e", -8, 7)))


def kinds(ctx):
    """Collection kinds given as the constants or as numbers"""
    from hrdc.descriptor import Collection
    ks = [Collection.Physical, Collection.Application, Collection.Logical, Collection.Report, Collection.NamedArray,
          Collection.UsageSwitch, Collection.UsageModifier]
    k = ctx.choice("named", ks) if ctx.flag("const") else ctx.int("kind", 0, 255)
    return ("top", [("col", 1, trees.APP, [("col", k, trees.VENDOR + 9, [trees.val(trees.VENDOR + 1)])])])


OWN = [roots, registered, named_flags, named_units, kinds]


def instances(tier):
    r = []
    for s in list(trees.QUICK) + OWN + trees.LONG:
        r.append(Instance("tree-" + s.__name__, declared, (s.__doc__ or s.__name__).strip(), dict(shape=s)))
    for n, d, s in c12.templates(tier) + c12.special(tier):
        r.append(Instance("stream-" + n, extracted, d + ", decompiled", dict(source="stream", arg=s)))
    return r


BUDGET = {"quick": 300, "thorough": 3000}
