"""The test helper accepts a descriptor exactly when its bytes are the expected ones."""
from sx.ctx import Instance
from sx import hid
from sx.engine import b_all, b_not, concretize
from .c05 import digits
from . import trees


class Different(Exception):
    pass


class Case:
    """A test case: the assert methods of unittest, which fail by raising"""

    failureException = Different

    def assertTrue(self, x, msg=None):
        if not x:
            raise Different

    def assertFalse(self, x, msg=None):
        if x:
            raise Different

    def assertEqual(self, a, b, msg=None):
        self.assertTrue(a == b)

    assertSequenceEqual = assertListEqual = assertTupleEqual = assertMultiLineEqual = assertEqual

    def assertNotEqual(self, a, b, msg=None):
        self.assertTrue(a != b)

    def assertLess(self, a, b, msg=None):
        self.assertTrue(a < b)

    def assertLessEqual(self, a, b, msg=None):
        self.assertTrue(a <= b)

    def assertGreater(self, a, b, msg=None):
        self.assertTrue(a > b)

    def assertGreaterEqual(self, a, b, msg=None):
        self.assertTrue(a >= b)

    def assertIn(self, a, b, msg=None):
        self.assertTrue(a in b)

    def assertNotIn(self, a, b, msg=None):
        self.assertFalse(a in b)

    def assertIs(self, a, b, msg=None):
        self.assertTrue(a is b)

    def assertIsNot(self, a, b, msg=None):
        self.assertTrue(a is not b)

    def assertIsNone(self, a, msg=None):
        self.assertTrue(a is None)

    def assertIsNotNone(self, a, msg=None):
        self.assertTrue(a is not None)

    def assertIsInstance(self, a, b, msg=None):
        self.assertTrue(isinstance(a, b))

    def subTest(self, *a, **k):
        import contextlib
        return contextlib.nullcontext()

    def fail(self, msg=None):
        raise Different


PREFIX = {"ReportSize": 0x75, "ReportCount": 0x95, "ReportID": 0x85, "StringIndex": 0x79}


def text(ctx, by, style):
    w = []
    for b in by:
        if isinstance(b, int) and ctx.sym:
            w.append("0x%02x" % b)
        else:
            w.append("0x" + digits(ctx, "", b, style == 1, 2))
    if style == 0:
        return ", ".join(w) + ","
    if style == 1:
        return "\n".join("  " + x + ", // 0x11, " + str(k) for k, x in enumerate(w))
    if style == 2:
        return "/* 0x05, */" + ",".join(w) + " /* a // b\n*/ "
    return " // 0x75\n" + " , /**/ ".join(w)


def stream(ctx, n, m, style):
    """n items against m expected ones, all one byte values"""
    from hrdc.stream.comparer import ExpectedStream
    names = sorted(PREFIX)
    objs, got, exp = [], [], []
    for k in range(n):
        c, v = ctx.choice("c%d" % k, names[:2]), ctx.int("v%d" % k, 0, 255)
        objs.append(hid.mk(c, v))
        got += [PREFIX[c], v]
    for k in range(m):
        exp += [ctx.choice("p%d" % k, [PREFIX[x] for x in names[:2]]), ctx.int("e%d" % k, 0, 255)]
    cut = ctx.index("cut", 2) if m else 0
    if cut:
        exp = exp[:-1]
    verdict(ctx, ExpectedStream, objs, got, exp, style)


def verdict(ctx, E, objs, got, exp, style):
    case = Case()
    try:
        s = E(case, text(ctx, exp, style))
        for o in objs:
            s.append(o)
        s.close()
        ok = True
    except Different:
        ok = False
    same = b_all([a == b for a, b in zip(got, exp)]) if len(got) == len(exp) else False
    ctx.observe(ok)
    if ok:
        ctx.label("accepted")
        ctx.check(same, "another descriptor is accepted")
    else:
        ctx.label("rejected")
        ctx.check(b_not(same), "the expected descriptor is rejected")


def wide(ctx, size):
    """One item of several bytes against any bytes"""
    from hrdc.stream.comparer import ExpectedStream
    v = ctx.int("v", {1: 0, 2: 256, 4: 65536}[size], (1 << (8 * size)) - 1)
    got = [0x78 | {1: 1, 2: 2, 4: 3}[size]] + [(v >> (8 * k)) & 255 for k in range(size)]
    n = ctx.index("n", size + 3)
    exp = [ctx.int("e%d" % k, 0, 255) for k in range(n)]
    verdict(ctx, ExpectedStream, [hid.mk("StringIndex", v)], got, exp, 0)


def helper(ctx, shape):
    """The helper that compiles a tree and compares it"""
    from hrdc.descriptor.test import descriptor_expected
    t = hid.build(shape(ctx))
    by = []
    for o in hid.compile_items(t, True).objs:
        by += list(o.bytes())
    exp = list(by)
    k = ctx.index("which", len(by) + 2)
    if k < len(by):
        exp[k] = ctx.int("byte", 0, 255)
    elif k == len(by):
        exp = exp[:-1]
    case = Case()
    try:
        descriptor_expected(case, t, text(ctx, exp, 0))
        ok = True
    except Different:
        ok = False
    same = b_all([a == b for a, b in zip(by, exp)]) if len(by) == len(exp) else False
    ctx.observe(ok)
    ctx.check(same if ok else b_not(same), "the helper accepts and rejects the wrong descriptors")


def long(ctx):
    """Many items, any one byte differs, or bytes are missing or left"""
    from hrdc.stream.comparer import ExpectedStream
    n = ctx.choice("items", [20, 70, 140, 600])
    objs, by = [], []
    for k in range(n):
        objs.append(hid.mk("StringIndex", k & 255))
        by += [0x79, k & 255]
    exp = list(by)
    w = ctx.choice("where", ["first", "middle", "256", "last", "missing", "left", "by 128", "by 256", "by 512", "by 1024"])
    at = {"first": 0, "middle": n + 1, "256": 256, "last": 2 * n - 1}.get(w)
    if w == "missing":
        exp = exp[:-2]
    elif w == "left":
        exp += [0x79, ctx.int("byte", 0, 255)]
    elif w.startswith("by "):
        k = int(w[3:])
        if ctx.flag("fewer"):
            ctx.assume(k <= len(exp))
            exp = exp[:-k]
        else:
            exp += [0x79, 1] * (k // 2)
    else:
        ctx.assume(at < len(exp))
        exp[at] = ctx.int("byte", 0, 255)
    verdict(ctx, ExpectedStream, objs, by, exp, ctx.index("style", 4))


def small(ctx):
    """A collection with one value of any size"""
    return trees.app(trees.val(trees.VENDOR + 1, size=ctx.int("size", 1, 64)))


def instances(tier):
    r = []
    for n in range(3):
        for m in range(4):
            for style in range(4):
                if style and (n, m) not in ((1, 1), (2, 2), (2, 1)):
                    continue
                r.append(Instance("stream-%d-%d-%d" % (n, m, style), stream,
                                  "%d items, %d expected, cut short or not, layout %d" % (n, m, style), dict(n=n, m=m, style=style)))
    for s in (1, 2, 4):
        r.append(Instance("wide-%d" % s, wide, "an item with %d bytes of payload, 0 to %d expected bytes" % (s, s + 2), dict(size=s),
                          reach=("accepted", "rejected")))
    r.append(Instance("long", long, "20 to 600 items, any byte at four places, or 1, 2, 128, 256, 512, 1024 bytes missing or left, any layout", reach=("accepted", "rejected")))
    r.append(Instance("helper", helper, "any expected byte differs, or the last is missing", dict(shape=small)))
    return r
