"""str operations over text with symbolic characters."""
from . import engine as eng
from .engine import SymInt, SymBool, b_all, b_any, concretize, mkbool, ite
from .values import has_tok, is_tok, tok, in_set, text_conc, text_opaque_conc, FinVal, chr_tok, tok_in, alphabet_of, keyset


def cp(c):
    """Code point of one character, symbolic for a chr token."""
    if is_tok(c):
        p = tok(c)
        if p[0] == "chr":
            return p[1]
        raise ValueError
    return ord(c)


def _b(x):
    return x if isinstance(x, bool) else bool(x)


_JOINT = {}


def _joint(a, b):
    """Texts that tables a and b give to more than one key, as (keys in a, keys in b); None when the tables
    disagree on a key."""
    ck = (tuple(map(id, a.values())), tuple(map(id, b.values())))
    hit = _JOINT.get(ck)
    if hit is None:
        dup = None
        if all(k not in a or a[k] == v for k, v in b.items()):
            inv = {}
            for n, t in enumerate((a, b)):
                for k, v in t.items():
                    inv.setdefault(str(v), ([], []))[n].append(k)
            dup = [d for d in inv.values() if d[0] and d[1] and len(set(d[0] + d[1])) > 1]
        if len(_JOINT) > 500:
            _JOINT.clear()
        hit = _JOINT[ck] = (dup, list(a.values()), list(b.values()))
    return hit[0]


def fin_eq(x, y):
    """Equality of two table texts as one condition, None when that would be too large."""
    dup = _joint(x.tab, y.tab)
    if dup is None or len(dup) > 64:
        return None
    return b_any([x.key == y.key] + [b_all([keyset(x.key, p), keyset(y.key, q)]) for p, q in dup])


def text_eq(a, b):
    """Equality of two texts as one condition, or by case split when it cannot be aligned."""
    if isinstance(a, FinVal):
        a = str(a)
    if isinstance(b, FinVal):
        b = str(b)
    if not has_tok(a) and not has_tok(b):
        return a == b
    if len(a) == len(b):
        cs = []
        for x, y in zip(a, b):
            if x == y:
                continue
            if not is_tok(x) and not is_tok(y):
                # opaque tokens may hide characters: only certain when none is around
                if all(tok(c)[0] == "chr" for c in a + b if is_tok(c)):
                    return False
                cs = None
                break
            px = tok(x) if is_tok(x) else ("chr", ord(x))
            py = tok(y) if is_tok(y) else ("chr", ord(y))
            if px[0] == py[0] and px[0] != "fin":
                cs.append(px[1] == py[1])
            elif px[0] == py[0] and fin_eq(px[1], py[1]) is not None:
                cs.append(fin_eq(px[1], py[1]))
            else:
                cs = None
                break
        if cs is not None:
            return b_all(cs)
    elif all(tok(c)[0] == "chr" for c in a + b if is_tok(c)):
        return False
    a, b = text_opaque_conc(a), text_opaque_conc(b)
    if len(a) != len(b):
        return False
    return b_all([cp(x) == cp(y) for x, y in zip(a, b)])


def _at(s, i, sub):
    """sub (concrete) occurs in s at i; forks."""
    if i + len(sub) > len(s):
        return False
    for k, c in enumerate(sub):
        if not is_tok(s[i + k]) and not is_tok(c):
            if s[i + k] != c:
                return False
    for k, c in enumerate(sub):
        x = s[i + k]
        if is_tok(x):
            if tok(x)[0] != "chr":
                return False            # strcall made sure the token cannot contain c
            if not _b(tok_in(x, lambda z: z == ord(c)) if not is_tok(c) else cp(x) == cp(c)):
                return False
        elif is_tok(c):
            if not _b(tok_in(c, lambda z: z == ord(x))):
                return False
    return True


def find(s, sub, start=0, end=None):
    end = len(s) if end is None else end
    for i in range(start, end - len(sub) + 1):
        if _at(s, i, sub):
            return i
    return -1


def split(s, sep=None, maxsplit=-1):
    out = []
    if sep is None:
        i, n = 0, len(s)
        while i < n:
            while i < n and _space(s[i]):
                i += 1
            if i >= n:
                break
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(strip(s[i:], None, False, True))
                break
            j = i
            while j < n and not _space(s[j]):
                j += 1
            out.append(s[i:j])
            i = j
        return out
    i = 0
    while maxsplit < 0 or len(out) < maxsplit:
        j = find(s, sep, i)
        if j < 0:
            break
        out.append(s[i:j])
        i = j + len(sep)
    out.append(s[i:])
    return out


def _space(c):
    if not is_tok(c):
        return c.isspace()
    return _inset(c, None)


def _inset(c, chars):
    if not is_tok(c):
        return c.isspace() if chars is None else c in chars
    if tok(c)[0] != "chr":
        return False
    return _b(tok_in(c, (lambda k: chr(k).isspace()) if chars is None else (lambda k: chr(k) in chars)))


def strip(s, chars=None, left=True, right=True):
    i, j = 0, len(s)
    while left and i < j and _inset(s[i], chars):
        i += 1
    while right and j > i and _inset(s[j - 1], chars):
        j -= 1
    return s[i:j]


def splitlines(s, keepends=False):
    out, cur = [], ""
    i = 0
    while i < len(s):
        c = s[i]
        if _inset(c, "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"):
            e = c
            if _inset(c, "\r") and i + 1 < len(s) and _inset(s[i + 1], "\n"):
                e += s[i + 1]
                i += 1
            out.append(cur + (e if keepends else ""))
            cur = ""
        else:
            cur += c
        i += 1
    if cur:
        out.append(cur)
    return out


def replace(s, old, new, count=-1):
    out, i, n = "", 0, 0
    while i < len(s):
        if (count < 0 or n < count) and old and _at(s, i, old):
            out += new
            i += len(old)
            n += 1
        else:
            out += s[i]
            i += 1
    return out


def lower(s):
    return "".join(c if not is_tok(c) else chr_tok(ite(b_all([cp(c) >= 65, cp(c) <= 90]), cp(c) + 32, cp(c)))
                   for c in s)


def upper(s):
    return "".join(c if not is_tok(c) else chr_tok(ite(b_all([cp(c) >= 97, cp(c) <= 122]), cp(c) - 32, cp(c)))
                   for c in s)


def rfind(s, sub, start=0, end=None):
    end = len(s) if end is None else end
    for i in range(end - len(sub), start - 1, -1):
        if _at(s, i, sub):
            return i
    return -1


def index(s, sub, *a):
    i = find(s, sub, *a)
    if i < 0:
        raise ValueError("substring not found")
    return i


def rindex(s, sub, *a):
    i = rfind(s, sub, *a)
    if i < 0:
        raise ValueError("substring not found")
    return i


def rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return split(s, sep)
    if sep is None:
        out = []
        while True:
            s = strip(s, None, False, True)
            if not s:
                break
            if len(out) == maxsplit:
                out.append(strip(s, None, False, True))
                break
            j = len(s)
            while j > 0 and not _space(s[j - 1]):
                j -= 1
            out.append(s[j:])
            s = s[:j]
        return out[::-1]
    out = []
    while len(out) < maxsplit:
        j = rfind(s, sep)
        if j < 0:
            break
        out.append(s[j + len(sep):])
        s = s[:j]
    return [s] + out[::-1]


def rpartition(s, sep):
    i = rfind(s, sep)
    return ("", "", s) if i < 0 else (s[:i], sep, s[i + len(sep):])


def translate(s, table):
    out = ""
    for c in s:
        if is_tok(c):
            for k in table:
                if _b(tok_in(c, lambda z: z == k)):
                    c = chr(k)
                    break
            else:
                out += c
                continue
        v = table.get(ord(c), c)
        out += "" if v is None else chr(v) if isinstance(v, int) else v
    return out


def swapcase(s):
    return "".join(c.swapcase() if not is_tok(c) else
                   chr_tok(ite(b_all([cp(c) >= 97, cp(c) <= 122]), cp(c) - 32,
                               ite(b_all([cp(c) >= 65, cp(c) <= 90]), cp(c) + 32, cp(c)))) for c in s)


def _cased(want, other):
    def f(s):
        seen = False
        for c in s:
            if not is_tok(c):
                if other(c):
                    return False
                seen = seen or want(c)
            else:
                if _b(tok_in(c, lambda k: other(chr(k)))):
                    return False
                if not seen and _b(tok_in(c, lambda k: want(chr(k)))):
                    seen = True
        return seen
    return f


def zfill(s, width):
    n = max(0, concretize(width) - len(s))
    if n and s and _inset(s[0], "+-"):
        return s[0] + "0" * n + s[1:]
    return "0" * n + s


def order(a, b, strict):
    """a < b (strict) or a <= b for texts with symbolic characters, as one condition."""
    a, b = text_opaque_conc(a), text_opaque_conc(b)
    n = min(len(a), len(b))
    r = len(a) < len(b) if strict else len(a) <= len(b)
    for x, y in zip(reversed(a[:n]), reversed(b[:n])):
        if is_tok(x) or is_tok(y):
            r = b_any([cp(x) < cp(y), b_all([cp(x) == cp(y), r])])
        elif x != y:
            r = x < y
    return r


def _toks(a, b):
    return isinstance(a, str) and isinstance(b, str) and (has_tok(a) or has_tok(b))


def cmp_lt(a, b):
    return order(a, b, True) if _toks(a, b) else a < b


def cmp_le(a, b):
    return order(a, b, False) if _toks(a, b) else a <= b


def cmp_gt(a, b):
    return eng.b_not(order(a, b, False)) if _toks(a, b) else a > b


def cmp_ge(a, b):
    return eng.b_not(order(a, b, True)) if _toks(a, b) else a >= b


def cmp_is(a, const):
    """a is True / a is False"""
    if isinstance(a, SymBool):
        return a if const else eng.b_not(a)
    return a is const


def cmp_isnot(a, const):
    return eng.b_not(cmp_is(a, const))


def _all(pred):
    def f(s):
        return bool(s) and all(_b(in_set(cp(c), lambda k: pred(chr(k)))) if is_tok(c) else pred(c) for c in s)
    return f


def partition(s, sep):
    i = find(s, sep)
    return (s, "", "") if i < 0 else (s[:i], sep, s[i + len(sep):])


def startswith(s, p, *a):
    ps = p if isinstance(p, tuple) else (p,)
    if a:
        s = s[slice(*a)] if len(a) == 2 else s[a[0]:]
    return any(_at(s, 0, x) for x in ps)


def endswith(s, p):
    ps = p if isinstance(p, tuple) else (p,)
    return any(len(x) <= len(s) and _at(s, len(s) - len(x), x) for x in ps)


METHODS = {
    "split": split, "find": find, "strip": strip, "splitlines": splitlines, "replace": replace,
    "lstrip": lambda s, c=None: strip(s, c, True, False), "rstrip": lambda s, c=None: strip(s, c, False, True),
    "lower": lower, "upper": upper, "casefold": lower, "partition": partition, "startswith": startswith,
    "endswith": endswith, "isspace": _all(str.isspace), "isdigit": _all(str.isdigit),
    "isalnum": _all(str.isalnum), "isalpha": _all(str.isalpha),
    "isupper": _cased(str.isupper, str.islower), "islower": _cased(str.islower, str.isupper), "zfill": zfill,
    "isdecimal": _all(str.isdecimal), "isnumeric": _all(str.isnumeric),
    "rfind": rfind, "index": index, "rindex": rindex, "rsplit": rsplit, "rpartition": rpartition,
    "translate": translate, "swapcase": swapcase,
    "removeprefix": lambda s, p: s[len(p):] if startswith(s, p) else s,
    "removesuffix": lambda s, p: s[:len(s) - len(p)] if p and endswith(s, p) else s,
    "count": lambda s, x: len(split(s, x)) - 1,
}
NAMES = set(METHODS) | {"rsplit", "rfind", "index", "rindex", "rpartition", "removeprefix", "removesuffix",
                        "title", "capitalize", "swapcase", "translate", "isidentifier", "isnumeric",
                        "isdecimal", "isprintable", "istitle", "islower", "ljust", "rjust", "center", "zfill", "encode",
                        "expandtabs", "isascii"}


def strcall(o, name, args, kw):
    if type(o) is bytes and name in ("startswith", "endswith"):
        from .values import SymBytes
        if any(isinstance(x, SymBytes) for a in args for x in (a if isinstance(a, tuple) else (a,))):
            o = SymBytes(list(o))
    if not (isinstance(o, str) and (has_tok(o) or any(has_tok(a) for a in args if isinstance(a, str)))):
        return getattr(o, name)(*args, **kw)
    s = o
    if name in ("ljust", "rjust", "center", "zfill"):
        if any(is_tok(c) and tok(c)[0] != "chr" for c in s):
            s = text_opaque_conc(s)
        return zfill(s, *args) if name == "zfill" else getattr(s, name)(*args, **kw)
    if name == "encode":
        from .values import text_encode
        return text_encode(s, *args, **kw)
    # opaque tokens (whole numbers, names) stay whole when the operation cannot look inside them
    opaque = [tok(c) for c in s if is_tok(c) and tok(c)[0] != "chr"]
    if opaque:
        touched = None
        if name in ("split", "partition", "find", "count", "replace", "startswith") and args \
                and isinstance(args[0], str) and args[0] and not has_tok(args[0]):
            touched = args[0]
        elif name in ("strip", "lstrip", "rstrip") and (not args or isinstance(args[0], str)):
            touched = args[0] if args else " \t\n\r\x0b\x0c"
        elif name == "split" and not args:
            touched = " \t\n\r\x0b\x0c"
        elif name == "splitlines":
            touched = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"
        if touched is None or any(set(map(ord, touched)) & alphabet_of(p) for p in opaque):
            s = text_opaque_conc(s)
    f = METHODS.get(name)
    if f is None or not has_tok(s) and not any(has_tok(a) for a in args if isinstance(a, str)):
        s = text_conc(s)
        args = [text_conc(a) if isinstance(a, str) else a for a in args]
        return getattr(s, name)(*args, **kw)
    return f(s, *args, **kw)


def cmp_eq(a, b):
    if isinstance(a, str) and isinstance(b, str) and (has_tok(a) or has_tok(b)):
        return text_eq(a, b)
    return a == b


def cmp_ne(a, b):
    if isinstance(a, str) and isinstance(b, str) and (has_tok(a) or has_tok(b)):
        return eng.b_not(text_eq(a, b))
    return a != b


def cmp_in(a, b):
    if isinstance(a, str) and isinstance(b, str) and (has_tok(a) or has_tok(b)):
        if len(a) == 1 and not has_tok(b) and tok(a)[0] == "chr":
            return in_set(cp(a), lambda k: chr(k) in b)
        b2 = text_opaque_conc(b)
        return find(b2, text_opaque_conc(a)) >= 0
    if isinstance(a, str) and has_tok(a) and isinstance(b, (list, tuple, set, frozenset)):
        return any(_b(cmp_eq(a, x)) for x in b)
    if isinstance(a, str) and isinstance(b, (list, tuple)) and any(isinstance(x, str) and has_tok(x) for x in b):
        return any(_b(cmp_eq(a, x)) for x in b)
    if isinstance(a, SymInt):
        if isinstance(b, range) and len(b):
            lo, hi = (b[0], b[-1]) if b.step > 0 else (b[-1], b[0])
            c = [a >= lo, a <= hi]
            if abs(b.step) != 1:
                c.append((a - lo) % abs(b.step) == 0)
            return b_all(c)
        if isinstance(b, (list, tuple, set, frozenset)) and all(type(x) is int or isinstance(x, SymInt) for x in b):
            return b_any([a == x for x in b])
    return a in b


def cmp_notin(a, b):
    return eng.b_not(cmp_in(a, b))


def text(x):
    """str(x) for harness code: names and numbers may be symbolic."""
    if isinstance(x, str):
        return x
    r = type(x).__str__(x)
    return str(r) if isinstance(r, FinVal) else r
