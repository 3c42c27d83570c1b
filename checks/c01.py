"""Item codec round trip."""
from sx.ctx import Instance
from sx.hid import SPEC, ival, mk
from sx.engine import b_all, b_not

LIM = 1 << 33


def rng(name):
    return (-(1 << 31), (1 << 31) - 1) if SPEC[name][2] else (0, 0xffffffff)


def roundtrip(ctx, cls, lo, hi):
    from hrdc.stream import item
    v = ctx.int("v", lo, hi)
    a, b = rng(cls)
    try:
        it = getattr(item, cls)(v)
        blob = it.bytes()
    except Exception as e:
        ctx.observe("refused")
        ctx.label("refused")
        ctx.check(b_not(b_all([v >= a, v <= b])), "%s refuses a value its field can hold (%s)" % (cls, type(e).__name__))
        return
    ctx.observe(blob)
    ctx.check(b_all([v >= a, v <= b]), "%s encodes a value its field cannot hold" % cls)
    back = item.Item.parse(blob)
    ctx.label("parsed")
    ctx.observe([str(type(back).__name__), ival(back.value)])
    ctx.check(type(back) is getattr(item, cls), "parse(bytes(%s)) is of another class" % cls)
    ctx.check(ival(back.value) == v, "parse(bytes(%s)) carries another value" % cls)
    ctx.check(b_all([back == it, b_not(back != it)]), "parse(bytes(%s)) does not compare equal" % cls)
    again = back.bytes()
    ctx.check(len(again) == len(blob) and again == blob, "%s re-encodes differently" % cls)


def valueless(ctx, cls):
    from hrdc.stream import item
    it = getattr(item, cls)()
    blob = it.bytes()
    ctx.observe(blob)
    back = item.Item.parse(blob)
    ctx.check(type(back) is getattr(item, cls), "parse(bytes(%s)) is of another class" % cls)
    ctx.check(ival(back.value) == 0 and back == it, "parse(bytes(%s)) carries another value" % cls)
    v = ctx.int("v", 1, 0xffffffff)
    try:
        getattr(item, cls)(v)
        ok = True
    except Exception:
        ctx.label("refused")
        ok = False
    ctx.check(not ok, "%s accepts a value" % cls)


def equality(ctx, a, b):
    """Items compare equal exactly when they encode to the same bytes."""
    from hrdc.stream import item
    la, ha = rng(a)
    lb, hb = rng(b)
    x, y = ctx.int("x", la, ha), ctx.int("y", lb, hb)
    i, j = getattr(item, a)(x), getattr(item, b)(y)
    eq = i == j
    ctx.observe(bool(eq))
    bi, bj = i.bytes(), j.bytes()
    same = (bi == bj) if len(bi) == len(bj) else False
    ctx.check(eq == same if not isinstance(eq, (bool, int)) else same == bool(eq),
              "%s/%s equality disagrees with their encodings" % (a, b))
    ctx.check((i != j) == b_not(eq), "== and != disagree")


def instances(tier):
    r = []
    for name, (kind, tag, signed) in SPEC.items():
        if name in ("Push", "Pop", "EndCollection"):
            r.append(Instance("valueless-" + name, valueless, "the only value; every other 32-bit value refused",
                              dict(cls=name), reach=["refused"]))
            continue
        lo, hi = rng(name)
        if name in ("Input", "Output", "Feature"):
            b = [("", 0, hi), ("-neg", -LIM, -1), ("-big", hi + 1, LIM)]
        else:
            b = [("", -LIM, LIM)]
        for sfx, lo2, hi2 in b:
            r.append(Instance("rt-" + name + sfx, roundtrip,
                              "value: every integer in %d..%d (field holds %d..%d)" % (lo2, hi2, lo, hi),
                              dict(cls=name, lo=lo2, hi=hi2),
                              reach=["parsed"] if sfx == "" else ["refused"]))
    pairs = [("LogicalMinimum", "LogicalMinimum"), ("ReportSize", "ReportSize"), ("Usage", "Usage"),
             ("LogicalMinimum", "LogicalMaximum"), ("ReportCount", "StringIndex"), ("Unit", "Unit"),
             ("UsagePage", "Usage"), ("Collection", "Collection"), ("DesignatorIndex", "LogicalMinimum")]
    if tier == "thorough":
        simple = [n for n in SPEC if n not in ("Push", "Pop", "EndCollection", "Input", "Output", "Feature")]
        pairs = [(a, b) for a in simple for b in simple if a <= b]
    for a, b in pairs:
        r.append(Instance("eq-%s-%s" % (a, b), equality, "both values: every value of the field", dict(a=a, b=b)))
    return r
