"""Parsing arbitrary byte strings."""
from sx.ctx import Instance
from sx.hid import SPEC, NAMES, Sink, payload_value, ival
from sx.files import mem
from sx.engine import concretize, b_all

KNOWN = sorted(NAMES)


def frame(ctx, blob, i):
    """Oracle: (status, name, value, next offset) of the item at i; branches like the format does."""
    p = blob[i]
    n = (0, 1, 2, 4)[concretize(p & 3)]
    if i + 1 + n > len(blob):
        return "truncated", None, None, len(blob)
    kt = concretize(p >> 2)
    name = NAMES.get((kt & 3, kt >> 2))
    if name is None:
        return "unknown", None, None, i + 1 + n
    v = payload_value([blob[i + 1 + k] for k in range(n)], SPEC[name][2])
    return "ok", name, v, i + 1 + n


def blob_parse(ctx, n, prefix):
    from hrdc.stream.parser import Parser
    head = bytes(prefix)
    sym = ctx.bytes("b", n)
    blob = head + sym
    sink = Sink()
    err = None
    try:
        Parser(None, sink).blobParse(blob)
    except Exception as e:
        err = type(e).__name__
    ctx.observe([err, sink.items, sink.closed])
    # oracle
    exp, i, status = [], 0, "ok"
    while i < len(blob):
        status, name, v, i = frame(ctx, blob, i)
        if status != "ok":
            break
        if name in ("Push", "Pop", "EndCollection"):
            if concretize_nonzero(v):
                status = "valueless"
                break
        exp.append((name, v))
    ctx.label(status)
    if status == "ok":
        ctx.check(err is None, "a well formed item stream is refused (%s)" % err)
        ctx.check(sink.closed == 1, "stream closed %d times" % sink.closed)
        ctx.check([x[0] for x in sink.items] == [x[0] for x in exp], "other items than the blob holds")
        ctx.check(b_all([a[1] == b[1] for a, b in zip(sink.items, exp)]), "other item values than the blob holds")
    elif status in ("truncated", "unknown"):
        ctx.check(err is not None, "a blob with a %s item is accepted" % status)
        ctx.check(sink.closed == 0, "stream reported complete after a %s item" % status)
        ctx.check([x[0] for x in sink.items] == [x[0] for x in exp][:len(sink.items)],
                  "items before the %s one are wrong" % status)


def concretize_nonzero(v):
    return bool(v != 0)


def binary_read(ctx, n):
    """The same through the binary reader."""
    from hrdc.stream.parser import Parser
    blob = b"\x26" + ctx.bytes("b", 2) + b"\x75" + ctx.bytes("c", 1)[:n]
    sink = Sink()
    err = None
    try:
        Parser.get("binary")(mem("binary", blob), sink).read()
    except Exception as e:
        err = type(e).__name__
    ctx.observe([err, sink.items, sink.closed])
    if n == 1:
        ctx.check(err is None and sink.closed == 1, "well formed blob refused")
        ctx.check(b_all([sink.items[0][0] == "LogicalMaximum", sink.items[1][0] == "ReportSize",
                         sink.items[0][1] == payload_value([blob[1], blob[2]], True),
                         sink.items[1][1] == blob[4]]), "wrong items")
    else:
        ctx.check(err is not None and sink.closed == 0, "truncated blob accepted")


def long(ctx):
    """Nothing gets lost behind many items"""
    from hrdc.stream.parser import Parser
    n = ctx.choice("items", [20, 40, 90, 130, 700, 4200])
    head, want = b"", []
    for k in range(n):
        if k % 3:
            head += bytes([0x16, k & 255, k >> 8])
            want.append(("LogicalMinimum", (k & 0xffff) - (0x10000 if k & 0x8000 else 0)))
        else:
            head += bytes([0x75, k & 255])
            want.append(("ReportSize", k & 255))
    b = ctx.bytes("b", 3)
    cut = ctx.flag("cut")
    blob = head + b"\x26" + b[:2] + b"\x95" + (b[2:] if not cut else b"")
    sink, err = Sink(), None
    try:
        Parser.get("binary")(mem("binary", blob), sink).read()
    except Exception as e:
        err = type(e).__name__
    ctx.observe([err, len(sink.items), sink.closed])
    want.append(("LogicalMaximum", payload_value([b[0], b[1]], True)))
    if cut:
        ctx.check(err is not None and sink.closed == 0, "truncated blob accepted")
        return
    want.append(("ReportCount", b[2]))
    ctx.check(err is None and sink.closed == 1, "well formed blob refused")
    ctx.check([x[0] for x in sink.items] == [x[0] for x in want], "other items than the blob holds")
    ctx.check(b_all([x[1] == y[1] for x, y in zip(sink.items, want)]), "other item values than the blob holds")


def instances(tier):
    r = [Instance("empty", blob_parse, "the empty blob", dict(n=0, prefix=[]), reach=["ok"])]
    r.append(Instance("any-1", blob_parse, "every 1-byte blob", dict(n=1, prefix=[]), reach=["ok", "truncated", "unknown"]))
    r.append(Instance("any-2", blob_parse, "every 2-byte blob", dict(n=2, prefix=[]), reach=["ok", "truncated", "unknown"]))
    for p in (0x05, 0x15, 0x26, 0x0b, 0x09, 0x2a, 0x17, 0x75, 0xa1, 0x06, 0x65, 0x3b):
        n = {0: 0, 1: 1, 2: 2, 3: 4}[p & 3]
        r.append(Instance("after-%02x" % p, blob_parse,
                          "every %d-byte continuation of an item starting with 0x%02x, then any 1 byte" % (n, p),
                          dict(n=n + 1, prefix=[p]), reach=["ok", "truncated", "unknown"]))
        for m in range(n):
            r.append(Instance("cut-%02x-%d" % (p, m), blob_parse, "0x%02x with %d of %d payload bytes" % (p, m, n),
                              dict(n=m, prefix=[p]), reach=["truncated"]))
        if n < 4:
            r.append(Instance("usage-page-%02x" % p, blob_parse,
                              "any usage page (16 bits) then 0x%02x with every payload" % p,
                              dict(n=n, prefix=[0x06, 0x01, 0x00, p]), reach=["ok"]))
    for p in (0x81, 0x92, 0xb1):
        n = {1: 1, 2: 2}[p & 3]
        r.append(Instance("data-%02x" % p, blob_parse, "0x%02x with every payload" % p,
                          dict(n=n, prefix=[p]), reach=["ok"]))
    done = {x.name for x in r}
    for p in range(256):
        kt = (p >> 2) & 3, p >> 4
        if kt in NAMES and p & 3 and not done & {"after-%02x" % p, "data-%02x" % p}:
            r.append(Instance("item-%02x" % p, blob_parse, "0x%02x (%s) with every payload" % (p, NAMES[kt]),
                              dict(n=(0, 1, 2, 4)[p & 3], prefix=[p]), reach=[]))
    r += [Instance("reader-ok", binary_read, "every payload of a two item blob", dict(n=1)),
          Instance("reader-cut", binary_read, "every payload of a two item blob missing its last byte", dict(n=0))]
    r.append(Instance("long", long, "20 to 4200 items, then two with any payload, the last one cut or not"))
    if tier == "thorough":
        r.append(Instance("any-3", blob_parse, "every 3-byte blob", dict(n=3, prefix=[]),
                          reach=["ok", "truncated", "unknown"]))
        for p in range(0, 256):
            if ((p >> 2) & 3, p >> 4) in NAMES and p >> 4 not in (8, 9, 0xb):
                n = {0: 0, 1: 1, 2: 2, 3: 4}[p & 3]
                r.append(Instance("tag-%02x" % p, blob_parse, "0x%02x with every payload then any 2 bytes" % p,
                                  dict(n=n + 2, prefix=[p])))
    return r
