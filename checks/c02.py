"""Every item is encoded as a HID short item, as short as possible."""
from sx.ctx import Instance
from sx.hid import SPEC, mk, enc_sizes, payload_value, decode
from sx.engine import b_all, b_not, concretize


def canonical(ctx, cls, lo, hi):
    kind, tag, signed = SPEC[cls]
    v = ctx.int("v", lo, hi)
    check_enc(ctx, mk(cls, v).bytes(), cls, v)


def check_enc(ctx, blob, cls, v):
    kind, tag, signed = SPEC[cls]
    ctx.observe(blob)
    n = len(blob) - 1
    ctx.label("n%d" % n)
    ctx.check(n in (0, 1, 2, 4), "%s: payload of %d bytes" % (cls, n))
    ctx.check(blob[0] == (tag << 4 | kind << 2 | {0: 0, 1: 1, 2: 2, 4: 3}[n]), "%s: wrong prefix byte" % cls)
    f1, f2 = enc_sizes(cls, v)
    if n == 0:
        ctx.check(v == 0, "%s: empty payload for a nonzero value" % cls)
    else:
        ctx.check(payload_value([blob[1 + k] for k in range(n)], signed) == v,
                  "%s: payload does not read back as the value" % cls)
    if n == 2:
        ctx.check(b_not(f1), "%s: two byte payload where one is enough" % cls)
    elif n == 4:
        ctx.check(b_not(f2), "%s: four byte payload where two are enough" % cls)


def named(ctx):
    """Registered usages, as objects, and as the number they stand for."""
    from hrdc.usage import Usage
    from hrdc.stream import item
    u = Usage.lookup(ctx.int("v", 0x10000, 0xffffffff))
    v = u.value
    check_enc(ctx, item.Usage(u).bytes(), "Usage", v)


def valueless(ctx, cls):
    check_enc(ctx, mk(cls).bytes(), cls, 0)


def instances(tier):
    r = [Instance("named-usage", named, "every 32-bit usage with a page, looked up first", {}, reach=["n4"])]
    for name, (kind, tag, signed) in SPEC.items():
        if name in ("Push", "Pop", "EndCollection"):
            r.append(Instance("enc-" + name, valueless, "the only value", dict(cls=name)))
            continue
        lo, hi = (-(1 << 31), (1 << 31) - 1) if signed else (0, 0xffffffff)
        r.append(Instance("enc-" + name, canonical, "value: every integer %d..%d" % (lo, hi),
                          dict(cls=name, lo=lo, hi=hi), reach=["n1", "n2", "n4"]))
    return r
