"""What the text readers accept as the same bytes."""
from sx.ctx import Instance
from sx.hid import Sink, SPEC
from sx.files import mem
from sx.engine import b_all, b_any, b_not

WS = [" ", "\t", "\n", "\r\n", "\n\n  "]
#: characters comments are made of: any printable ASCII, and what ends them wrongly
PRINT = (32, 126)


def digits(ctx, name, v, upper, n):
    """n hexadecimal digits of v, letters in the given case"""
    from sx.values import chr_tok
    out = ""
    for k in reversed(range(n)):
        d = (v >> (4 * k)) & 15
        if not ctx.sym:
            out += "0123456789ABCDEF"[d] if upper else "0123456789abcdef"[d]
        else:
            from sx.engine import ite
            out += chr_tok(ite(d < 10, d + 48, d + (55 if upper else 87)))
    return out


def read(fmt, text):
    from hrdc.stream.parser import Parser
    s = Sink()
    Parser.get(fmt)(mem(fmt, text), s).read()
    return s


def expect(ctx, fmt, text, want):
    got = read(fmt, text)
    ctx.observe(got.items)
    ctx.check(got.closed == 1, "stream closed %d times" % got.closed)
    ctx.check([n for n, v in got.items] == [n for n, v in want], "%s text read as other items" % fmt)
    ctx.check(b_all([a[1] == b[1] for a, b in zip(got.items, want)]), "%s text read as other values" % fmt)


def items(ctx, shape):
    """Bytes of a few items with symbolic payload, as (byte, digits) and what they stand for."""
    by, want = [], []
    for k, (name, n) in enumerate(shape):
        kind, tag, signed = SPEC[name]
        by.append(tag << 4 | kind << 2 | {0: 0, 1: 1, 2: 2, 4: 3}[n])
        v = 0
        for j in range(n):
            b = ctx.int("b%d.%d" % (k, j), 0, 255)
            by.append(b)
            v = v + b * (1 << (8 * j))
        want.append((name, v))
    return by, want


SHAPES = [[("ReportSize", 1), ("ReportCount", 1)], [("DesignatorIndex", 2)], [("StringIndex", 4)],
          [("ReportCount", 1), ("EndCollection", 0)]]


def spelling(ctx, fmt, shape, one=False):
    by, want = items(ctx, shape)
    upper, prefix = ctx.flag("upper"), ctx.choice("prefix", ["0x", "0X", ""] if fmt == "hex" else ["0x", "0X"])
    sep = ctx.choice("sep", [" ", ", ", ",", "\n", "\t", ",\n", "\r\n"] if fmt == "hex" else
                     [",", ", ", " , ", ",\n", ",\r\n\t", "\n,"])
    lead, trail = ctx.choice("lead", ["", " ", "\n"]), ctx.choice("trail", ["", "\n", ",", ",\n", " , \n"] if fmt == "code"
                                                                  else ["", "\n", " \r\n"])
    words = []
    for b in by:
        if isinstance(b, int):
            words.append(prefix + ("%02X" if upper else "%02x") % b)
        else:
            words.append(prefix + digits(ctx, "", b, upper, 2))
    expect(ctx, fmt, lead + sep.join(words) + trail, want)


def single_digit(ctx):
    """0x5 for 0x05"""
    b = ctx.int("b", 0, 15)
    w = ctx.choice("word", ["0x", "0x0", "0X0", "0X"])
    expect(ctx, "code", "0x75, " + w + digits(ctx, "", b, ctx.flag("upper"), 1) + ",\n0x95, 0x01", [("ReportSize", b), ("ReportCount", 1)])


def plain_digit(ctx):
    """5 for 0x05: the same in any base"""
    b, c = ctx.int("b", 0, 9), ctx.int("c", 0, 9)
    z = ctx.choice("zeros", ["", "0"])
    expect(ctx, "code", "0x75, " + z + digits(ctx, "", b, False, 1) + ",\n0x95," + ctx.choice("blank", ["", " ", "\n"]) + digits(ctx, "c", c, False, 1)
           + ctx.choice("last", ["", ",", ",\n"]), [("ReportSize", b), ("ReportCount", c)])


def comment(ctx, kind, n, place, lo=PRINT[0], hi=PRINT[1]):
    """A comment of n arbitrary characters"""
    from sx.text import text_eq
    text = ctx.chars("c", [(lo, hi)] * n)
    if kind == "line":
        c = "//" + text + "\n"
    else:
        # the text must not end the comment itself
        for k in range(n - 1):
            ctx.assume(b_not(b_all([text_eq(text[k], "*"), text_eq(text[k + 1], "/")])))
        if kind == "block":
            c = "/*" + text + "*/"
        else:
            c = "/*" + text[:n // 2] + "\n" + text[n // 2:] + "*/"
    b = ctx.int("b", 0, 255)
    d = "0x" + digits(ctx, "", b, False, 2)
    pre, mid, post = {"lead": (c, ", ", ",\n"), "mid": ("", ", " + c, ",\n"), "before": ("", c + ", ", ",\n"),
                      "end": ("", ", ", "," + c), "last": ("", ", ", c)}[place]
    expect(ctx, "code", pre + "0x75" + mid + d + ", 0x95, 0x01" + post, [("ReportSize", b), ("ReportCount", 1)])


def blank(ctx, name, n):
    """n characters, each any white space of ASCII"""
    t = ""
    for k in range(n):
        c = ctx.int("%s%d" % (name, k), 9, 32)
        ctx.assume(b_any([c <= 13, c == 32]))
        if ctx.sym:
            from sx.values import chr_tok
            t += chr_tok(c)
        else:
            t += chr(c)
    return t


def blanks(ctx, fmt, place, n):
    """White space anywhere"""
    b = ctx.int("b", 0, 255)
    w = blank(ctx, "w", n)
    places = ["lead", "before", "after", "last", "end"]
    x = {p: w if p == place else "" for p in places}
    sep = "," if fmt == "code" else " "
    d = "0x" + digits(ctx, "", b, ctx.flag("upper"), 2)
    tail = sep if fmt == "code" and (place == "end" or ctx.flag("comma")) else ""
    if fmt == "hex" and place in ("before", "after"):
        sep = ""
    text = x["lead"] + "0x75" + x["before"] + sep + x["after"] + d + (sep or " ") + "0x95" + (sep or " ") + "0x01" + x["last"] + tail + x["end"]
    expect(ctx, fmt, text, [("ReportSize", b), ("ReportCount", 1)])


def several(ctx):
    """Comments following each other, each of any kind"""
    pool = ["// a\n", "/* a */", "/* // */", "// /* \n", "// */\n", "/* a\n // b\n*/", "/**/", "/*/ */", "//\n", "/* * / */", "/* 0x05, */", "// 0x05,\n"]
    b = ctx.int("b", 0, 255)
    cs = [ctx.choice("comment%d" % k, pool) for k in range(3)]
    expect(ctx, "code", cs[0] + "0x75, " + cs[1] + "0x" + digits(ctx, "", b, False, 2) + ", 0x95, " + cs[2] + "0x01,\n",
           [("ReportSize", b), ("ReportCount", 1)])


def too_big(ctx):
    """A word that is not a byte is refused, not truncated"""
    v = ctx.int("v", 256, 0xfff)
    text = "0x75, 0x" + digits(ctx, "", v, ctx.flag("upper"), 3) + ", 0x95, 0x01"
    try:
        got = read("code", text)
    except Exception:
        ctx.label("refused")
        got = None
    ctx.check(got is None, "a word above 0xff is read as a byte")


def long(ctx, fmt):
    """Many bytes, with comments and layout of all sorts in code"""
    n = ctx.choice("items", [60, 130, 600, 2100])
    sep = ctx.choice("sep", ["\n", " "] if fmt == "hex" else [",\n", ",", ", // 0x05, comment\n", ", /* 0x05,\n */ "])
    words, want = [], []
    for k in range(n):
        b = ctx.int("b%d" % k, 0, 255) if k in (0, n - 1) else k & 255
        want.append(("ReportSize", b))
        words += ["0x75", "0x" + (digits(ctx, "", b, False, 2) if not isinstance(b, int) else "%02x" % b)]
    expect(ctx, fmt, sep.join(words), want)


def long_comment(ctx, kind):
    """A comment longer than any buffer"""
    n = ctx.choice("length", [70, 130, 260, 1030, 4100])
    b = ctx.int("b", 0, 255)
    x = "// 0x05, " if kind == "line" else "/* 0x05,\n" if kind == "lines" else "/* 0x05, "
    c = (x + " 0x06 *" * (n // 7) + (" */" if kind != "line" else "\n"))
    if kind == "lines":
        c = c.replace(" *", "\n*")
        c = c[:-2].rstrip("*\n") + " */"
    expect(ctx, "code", "0x75, " + c + " 0x" + digits(ctx, "", b, False, 2) + ", " + c + "0x95, 0x01", [("ReportSize", b), ("ReportCount", 1)])


def unended(ctx, n):
    """A line comment that the end of file ends"""
    text = ctx.chars("c", [PRINT] * n)
    expect(ctx, "code", "0x75, 0x08, 0x95, 0x01 //" + text, [("ReportSize", 8), ("ReportCount", 1)])


def instances(tier):
    r = []
    big = tier == "thorough"
    for f in ("hex", "code"):
        for s in SHAPES:
            r.append(Instance("%s-%s" % (f, "-".join(n for n, k in s)), spelling,
                              "items %s with every payload; letter case, prefix, separator and margins out of those listed "
                              "in checks/c05.py" % s, dict(fmt=f, shape=s)))
    r.append(Instance("code-plain-digit", plain_digit, "bytes 0..9 written as one digit, without prefix"))
    r.append(Instance("code-single-digit", single_digit, "one byte 0..15 written with one digit"))
    r.append(Instance("code-comments", several, "three comments out of 12, one symbolic byte"))
    places = ("lead", "mid", "before", "end", "last")
    N = {"line": 8, "block": 7, "lines": 7} if big else {"line": 5, "block": 5, "lines": 5}
    for kind in N:
        for p in places:
            for n in (0, 1, 2, 3, N[kind]):
                r.append(Instance("comment-%s-%s-%d" % (kind, p, n), comment,
                                  "%s comment of %d characters, any printable ASCII, at %s" % (kind, n, p),
                                  dict(kind=kind, n=n, place=p)))
    for f in ("code", "hex"):
        for p in ("lead", "before", "after", "last", "end"):
            for n in (1, 2) + ((3, 4) if big else ()):
                r.append(Instance("blank-%s-%s-%d" % (f, p, n), blanks, "%d characters, any ASCII white space, at %s" % (n, p),
                                  dict(fmt=f, place=p, n=n)))
    for f in ("hex", "code"):
        r.append(Instance("long-" + f, long, "60 to 2100 items, first and last symbolic", dict(fmt=f)))
    for k in ("line", "block", "lines"):
        r.append(Instance("long-comment-" + k, long_comment, "two comments of 70 to 4100 characters around a symbolic byte", dict(kind=k)))
    r.append(Instance("code-too-big", too_big, "a word of 0x100..0xfff", reach=("refused",)))
    r.append(Instance("comment-unended", unended, "comment of 3 characters ended by the end of file", dict(n=3)))
    return r


BUDGET = {"quick": 200, "thorough": 2400}
