"""Symbolic containers and text used while the real code runs on proxies."""
import re as _re
import struct as _struct
import math as _math
import builtins as _b
from . import engine as eng
from .engine import SymInt, SymBool, concretize, ite, b_any, b_all, b_not, lift, mkbool

TOK = 0xF0000


def is_tok(c):
    return ord(c) >= TOK


def has_tok(s):
    return isinstance(s, str) and not s.isascii() and any(ord(c) >= TOK for c in s)


def tok(c):
    return eng.E().tokens[ord(c) - TOK]


# ------------------------------------------------------------------ bytes
class SymBytes:
    """Immutable byte string, concrete length, symbolic elements."""
    __slots__ = ("el",)

    def __init__(self, el):
        self.el = list(el)

    def __len__(self):
        return len(self.el)

    def __bool__(self):
        return bool(self.el)

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice(*[concretize(x) for x in (k.start, k.stop, k.step)])
            return SymBytes(self.el[k])
        k = concretize(k)
        if not -len(self.el) <= k < len(self.el):
            raise IndexError("index out of range")
        return self.el[k]

    def __iter__(self):
        return iter(self.el)

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            return SymBytes(self.el + list(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            return SymBytes(list(o) + self.el)
        return NotImplemented

    def __mul__(self, n):
        return SymBytes(self.el * concretize(n))

    def eqv(self, o):
        if len(self) != len(o):
            return False
        return b_all([a == b for a, b in zip(self.el, list(o))])

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            return self.eqv(o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __contains__(self, x):
        if isinstance(x, (bytes, bytearray, SymBytes)):
            return self.find(x) >= 0
        return bool(b_any([e == x for e in self.el]))

    def _order(self, o, strict):
        """self < o (strict) or self <= o, as one condition"""
        a, b = self.el, list(o)
        n = min(len(a), len(b))
        r = len(a) < len(b) if strict else len(a) <= len(b)
        for x, y in zip(reversed(a[:n]), reversed(b[:n])):
            r = b_any([x < y, b_all([x == y, r])])
        return r

    def __lt__(self, o):
        return self._order(o, True) if isinstance(o, (bytes, bytearray, SymBytes)) else NotImplemented

    def __le__(self, o):
        return self._order(o, False) if isinstance(o, (bytes, bytearray, SymBytes)) else NotImplemented

    def __gt__(self, o):
        return b_not(self._order(o, False)) if isinstance(o, (bytes, bytearray, SymBytes)) else NotImplemented

    def __ge__(self, o):
        return b_not(self._order(o, True)) if isinstance(o, (bytes, bytearray, SymBytes)) else NotImplemented

    def find(self, x, start=0, end=None):
        x = [x] if isinstance(x, (int, SymInt)) else list(x)
        el = self.el[:end] if end is not None else self.el
        for i in range(start if start >= 0 else max(0, start + len(el)), len(el) - len(x) + 1):
            c = b_all([a == b for a, b in zip(el[i:i + len(x)], x)])
            if c is True or (c is not False and bool(c)):
                return i
        return -1

    def index(self, x, *a):
        r = self.find(x, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def tolist(self):
        return list(self.el)

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    nbytes = property(lambda self: len(self.el))
    itemsize = property(lambda self: 1)
    format = property(lambda self: "B")

    def conc(self):
        return bytes(concretize(x) for x in self.el)

    def __bytes__(self):
        return self.conc()

    def __buffer__(self, flags):
        return memoryview(self.conc())

    def __hash__(self):
        if eng.E().probing:
            raise eng.SymHash()
        return hash(self.conc())

    def hex(self, sep=None, bytes_per_sep=1):
        parts = [fmt_int(x, "02x") for x in self.el]
        sep = sep if isinstance(sep, str) else sep.decode() if sep else ""
        n = abs(concretize(bytes_per_sep))
        if n > 1 and sep:
            k = len(parts) % n if bytes_per_sep > 0 else 0
            parts = ["".join(parts[:k])] * (k > 0) + ["".join(parts[i:i + n]) for i in range(k, len(parts), n)]
        return sep.join(parts)

    def decode(self, encoding="utf-8", errors="strict"):
        top = {"utf-8": 128, "utf8": 128, "ascii": 128, "latin1": 256, "latin-1": 256,
               "iso-8859-1": 256}.get(encoding.lower().replace("_", "-"))
        if top is None or not all(c < top for c in self.el):
            return self.conc().decode(encoding, errors)
        return "".join(chr_tok(c) if isinstance(c, SymInt) else chr(c) for c in self.el)

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(q, start, end) for q in p)
        el = self.el[start:end]
        return start <= len(self.el) and len(el) >= len(p) and bool(SymBytes(el[:len(p)]).eqv(p))

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(q, start, end) for q in p)
        el = self.el[start:end]
        return start <= len(self.el) and len(el) >= len(p) and bool(SymBytes(el[len(el) - len(p):]).eqv(p))

    def ljust(self, n, fill=b" "):
        return SymBytes(self.el + list(fill) * max(0, concretize(n) - len(self.el)))

    def rjust(self, n, fill=b" "):
        return SymBytes(list(fill) * max(0, concretize(n) - len(self.el)) + self.el)

    def join(self, it):
        return join_bytes(self, it)

    def _in(self, e, chars):
        return bool(b_any([e == c for c in set(chars)]))

    def lstrip(self, chars=None):
        chars = b" \t\n\r\x0b\x0c" if chars is None else chars
        k = 0
        while k < len(self.el) and self._in(self.el[k], chars):
            k += 1
        return type(self)(self.el[k:])

    def rstrip(self, chars=None):
        chars = b" \t\n\r\x0b\x0c" if chars is None else chars
        k = len(self.el)
        while k and self._in(self.el[k - 1], chars):
            k -= 1
        return type(self)(self.el[:k])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def removeprefix(self, p):
        return type(self)(self.el[len(p):] if self.startswith(p) else self.el)

    def removesuffix(self, p):
        return type(self)(self.el[:len(self.el) - len(p)] if len(p) and self.endswith(p) else self.el)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.conc().split(sep, maxsplit)
        if not len(sep):
            raise ValueError("empty separator")
        out, rest = [], self
        while maxsplit:
            k = rest.find(sep)
            if k < 0:
                break
            out.append(type(self)(rest.el[:k]))
            rest = type(self)(rest.el[k + len(sep):])
            maxsplit -= 1
        return out + [rest]

    def partition(self, sep):
        k = self.find(sep)
        if k < 0:
            return self, b"", b""
        return type(self)(self.el[:k]), sep, type(self)(self.el[k + len(sep):])

    def replace(self, old, new, count=-1):
        if not len(old):
            return self.conc().replace(old, new, count)
        return type(self)(join_bytes(new, self.split(old, count)))

    def count(self, x):
        x = [x] if isinstance(x, (int, SymInt)) else list(x)
        if len(x) == 1:
            return sum(ite(e == x[0], 1, 0) if isinstance(e, SymInt) or isinstance(x[0], SymInt) else int(e == x[0]) for e in self.el)
        return len(self.split(x)) - 1 if x else len(self.el) + 1

    def tobytes(self):
        return self

    def __getattr__(self, n):
        return getattr(self.conc(), n)

    def __repr__(self):
        if eng.E() is None:
            return "SymBytes(%d)" % len(self.el)
        return repr(self.conc())


def byte_of(v):
    """v as an element of a byte string"""
    if isinstance(v, SymBool):
        v = v._int()
    if isinstance(v, SymInt):
        if v < 0 or v > 255:
            raise ValueError("byte must be in range(0, 256)")
        return SymInt(v.t, max(v.lo, 0), min(v.hi, 255))
    if not isinstance(v, int):
        f = getattr(type(v), "__index__", None)
        if f is None:
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
        return byte_of(f(v))
    if not 0 <= v <= 255:
        raise ValueError("byte must be in range(0, 256)")
    return int(v)


class SymByteArray(SymBytes):
    """Mutable byte string, concrete length, symbolic elements."""
    __slots__ = ()

    def __getitem__(self, k):
        r = SymBytes.__getitem__(self, k)
        return SymByteArray(r.el) if isinstance(k, slice) else r

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            self.el[slice(*[concretize(x) for x in (k.start, k.stop, k.step)])] = [byte_of(x) for x in v]
        else:
            self.el[concretize(k)] = byte_of(v)

    def __delitem__(self, k):
        del self.el[slice(*[concretize(x) for x in (k.start, k.stop, k.step)]) if isinstance(k, slice) else concretize(k)]

    def __add__(self, o):
        r = SymBytes.__add__(self, o)
        return r if r is NotImplemented else SymByteArray(r.el)

    def __iadd__(self, o):
        self.el += [byte_of(x) for x in o]
        return self

    def __mul__(self, n):
        return SymByteArray(self.el * concretize(n))

    def append(self, v):
        self.el.append(byte_of(v))

    def extend(self, it):
        self.el += [byte_of(x) for x in it]

    def insert(self, k, v):
        self.el.insert(concretize(k), byte_of(v))

    def pop(self, k=-1):
        return self.el.pop(concretize(k))

    def clear(self):
        self.el = []

    def copy(self):
        return SymByteArray(self.el)

    def reverse(self):
        self.el.reverse()

    __hash__ = None


def join_bytes(sep, it):
    it = list(it)
    if all(isinstance(x, (bytes, bytearray)) for x in it) and isinstance(sep, bytes):
        return bytes(sep).join(it)
    out = []
    for n, x in enumerate(it):
        if not isinstance(x, (bytes, bytearray, SymBytes)):
            raise TypeError("sequence item %d: expected a bytes-like object" % n)
        if n:
            out += list(sep)
        out += list(x)
    return mkbytes(out)


def mkbytes(els):
    els = list(els)
    if any(isinstance(x, (SymInt, SymBool)) for x in els):
        if any(isinstance(x, int) and not 0 <= x <= 255 for x in els):
            raise ValueError("bytes must be in range(0, 256)")
        return SymBytes(els)
    return bytes(els)


# ------------------------------------------------------------------ text
def hexdigit(d, upper=False):
    return ite(d < 10, d + 48, d + (55 if upper else 87))


HEXL, HEXU = frozenset(map(ord, "0123456789abcdef")), frozenset(map(ord, "0123456789ABCDEF"))
DECA = frozenset(map(ord, "0123456789-"))
DECN = frozenset(map(ord, "0123456789"))
HEXA = frozenset(map(ord, "0123456789abcdefx"))


def chr_tok(cp, alphabet=None, digit=None):
    """One character with a symbolic code point; alphabet: the code points it can have, when known;
    digit: its value as a hexadecimal digit, when known."""
    if not isinstance(cp, SymInt):
        return chr(cp)
    if alphabet is None and cp.hi - cp.lo <= 127:
        alphabet = frozenset(range(cp.lo, cp.hi + 1))
    return eng.E().token(("chr", cp, alphabet, digit))


def alphabet_of(p):
    """Code points the text of a token can contain (None: unknown)."""
    if p[0] == "chr":
        return p[2]
    if p[0] == "dec":
        return DECN if p[1].lo >= 0 else DECA
    if p[0] == "hex":
        return HEXA if p[1].lo >= 0 else HEXA | DECA
    if p[0] == "hexplain":
        return HEXL
    if p[0] == "HEXplain":
        return HEXU
    if p[0] == "fin":
        ck = tuple(map(id, p[1].tab.values()))
        hit = _ALPHA.get(ck)
        if hit is None:
            if len(_ALPHA) > 500:
                _ALPHA.clear()
            a = frozenset(ord(c) for v in p[1].tab.values() for c in str(v))
            hit = _ALPHA[ck] = (a, list(p[1].tab.values()))
        return hit[0]
    return None


_ALPHA = {}


def tok_in(c, pred):
    """pred(code point) for a single symbolic character: bool or SymBool."""
    p = tok(c)
    a = p[2]
    if a is not None:
        n = sum(1 for x in a if pred(x))
        if n == 0:
            return False
        if n == len(a):
            return True
        return keyset(p[1], [x for x in a if pred(x)])
    return in_set(p[1], pred)


def fmt_int(x, spec):
    """format(x, spec) for a symbolic x."""
    if not isinstance(x, SymInt):
        return format(x, spec)
    if spec in ("", "d", "i", "s"):
        return eng.E().token(("dec", x))
    m = _re.fullmatch(r"(#?)(0?)(\d*)([xX])", spec)
    if m:
        alt, zero, width, kind = m.groups()
        width = int(width or 0)
        digits = width - (2 if alt else 0)
        if x.lo >= 0 and zero and digits > 0 and (x.hi < 16 ** digits or x < 16 ** digits):
            s = ""
            for k in reversed(range(digits)):
                d = (x >> (4 * k)) & 15
                s += chr_tok(hexdigit(d, kind == "X"), HEXU if kind == "X" else HEXL, d)
            return ("0" + kind if alt else "") + s
        if x.lo >= 0 and not alt and not width:
            return eng.E().token(("hexplain" if kind == "x" else "HEXplain", x))
        if x.lo >= 0 and alt and not width:
            return eng.E().token(("hex", x))
    m = _re.fullmatch(r"(?:(.)?([<>=^]))?([-+ ]?)(#?)(0?)(\d*)([dixXbo]?)", spec, _re.S)
    if not m:
        return format(concretize(x), spec)
    fill, align, sign, alt, zero, width, kind = m.groups()
    neg = x.lo < 0 and bool(x < 0)
    if neg:
        x = lift(-x)
    elif x.lo < 0:
        x = SymInt(x.t, 0, x.hi) if x.hi > 0 else 0
    sg = "-" if neg else sign if sign in ("+", " ") else ""
    if not isinstance(x, SymInt):
        body = format(x, kind)
    elif kind in ("", "d", "i"):
        body = eng.E().token(("dec", x))
    else:
        body = radix(x, {"x": 4, "X": 4, "o": 3, "b": 1}[kind], kind == "X")
    if alt and kind in ("x", "X", "o", "b"):
        sg += "0" + kind
    if zero and not align:
        fill, align = "0", "="
    fill = fill or " "
    n = int(width or 0) - text_len(body) - len(sg) if width else 0
    if n <= 0:
        return sg + body
    if align == "=":
        return sg + fill * n + body
    if align == "<":
        return sg + body + fill * n
    if align == "^":
        return fill * (n // 2) + sg + body + fill * (n - n // 2)
    return fill * n + sg + body


DIGITS = {k: frozenset(map(ord, "0123456789"[:1 << k])) for k in (1, 3)}


def radix(x, k, upper=False):
    """Digits of a symbolic integer that is not negative, k bits each: case split on their number."""
    n = 1
    while x.hi >> (k * n) and not x < (1 << (k * n)):
        n += 1
    ds = [(x >> (k * i)) & ((1 << k) - 1) for i in reversed(range(n))]
    if k == 4:
        return "".join(chr_tok(hexdigit(d, upper), HEXU if upper else HEXL, d) for d in ds)
    return "".join(chr_tok(d + 48, DIGITS[k], d) for d in ds)


def tok_text(c):
    """Concrete text of one token, by case split."""
    p = tok(c)
    k, v = p[0], p[1]
    if k == "chr":
        return chr(concretize(v))
    if k == "dec":
        return str(concretize(v))
    if k == "hex":
        return hex(concretize(v))
    if k == "hexplain":
        return "%x" % concretize(v)
    if k == "HEXplain":
        return "%X" % concretize(v)
    if k == "fin":
        return str(v.pick())
    raise RuntimeError(k)


def expand(c):
    """Text of one token as single (symbolic) characters: case split on the length only where the digits are
    cheap terms."""
    k, v = tok(c)[0], tok(c)[1]
    if k == "chr":
        return c
    if k in ("hex", "hexplain", "HEXplain") and v.lo >= 0:
        n = 1
        while v.hi >> (4 * n) and not v < (1 << (4 * n)):
            n += 1
        up = k == "HEXplain"
        return ("0x" if k == "hex" else "") + "".join(
            chr_tok(hexdigit((v >> (4 * i)) & 15, up), HEXU if up else HEXL, (v >> (4 * i)) & 15)
            for i in reversed(range(n)))
    if k == "dec" and 0 <= v.lo and v.hi < 100000:
        n = 1
        while v.hi >= 10 ** n and not v < 10 ** n:
            n += 1
        ds = [v // 10 ** i % 10 for i in reversed(range(n))]
        return "".join(chr_tok(d + 48, DECN, d) for d in ds)
    return tok_text(c)


def tok_len(c):
    """Length of the text of one token, by case split on the length."""
    k, v = tok(c)[0], tok(c)[1]
    if k == "chr":
        return 1
    if k == "fin":
        return v.decide(lambda x: len(str(x)))
    b, extra = (10, 0) if k == "dec" else (16, 2 if k == "hex" else 0)
    if v < 0:
        extra += 1
        v = -v
    v = lift(v)
    n = 1
    while v.hi >= b ** n and not v < b ** n:
        n += 1
    return n + extra


def text_len(s):
    return sum(tok_len(c) if is_tok(c) else 1 for c in s)


def text_conc(s):
    if not has_tok(s):
        return s
    return "".join(tok_text(c) if is_tok(c) else c for c in s)


def text_opaque_conc(s):
    """Resolve every token that is not a single symbolic character."""
    return "".join(expand(c) if is_tok(c) else c for c in s)


def text_encode(s, encoding="utf-8", errors="strict"):
    enc = encoding.lower().replace("_", "-")
    top = {"utf-8": 128, "utf8": 128, "ascii": 128, "us-ascii": 128, "latin1": 256, "latin-1": 256,
           "iso-8859-1": 256}.get(enc)
    t = text_opaque_conc(s)
    cps = [tok(c)[1] if is_tok(c) else ord(c) for c in t]
    if top is None or any((c.lo < 0 or c.hi >= top) if isinstance(c, SymInt) else c >= top for c in cps):
        return text_conc(t).encode(encoding, errors)
    return mkbytes(cps)


def in_set(cp, pred):
    """SymBool: pred(code point) for a symbolic code point below 128."""
    lo, hi = max(cp.lo, 0), min(cp.hi, 127)
    ok = [c for c in range(lo, hi + 1) if pred(c)]
    if not ok:
        return False
    if len(ok) == hi - lo + 1:
        return True
    rs = []
    for c in ok:
        if rs and rs[-1][1] == c - 1:
            rs[-1][1] = c
        else:
            rs.append([c, c])
    return b_any([(cp == a) if a == b else b_all([cp >= a, cp <= b]) for a, b in rs])


def parse_int_text(s, base):
    if len(s) == 1 and is_tok(s):
        k, v = tok(s)[0], tok(s)[1]
        if k == "dec" and base in (0, 10) or k in ("hexplain", "HEXplain") and base == 16 and v.lo >= 0 \
                or k == "hex" and base in (0, 16):
            return v
    s = text_opaque_conc(s)
    if not has_tok(s):
        return int(s, base)
    from . import text
    t = text.strip(s, " \t\n\r\x0b\x0c")
    neg = False

    def is_in(c, chars):
        if not is_tok(c):
            return c in chars
        r = tok_in(c, lambda k: chr(k) in chars)
        return r if isinstance(r, bool) else bool(r)
    if t and is_in(t[0], "+-"):
        neg = is_in(t[0], "-")
        t = t[1:]
    prefixed = False
    for b, letters in ((16, "xX"), (8, "oO"), (2, "bB")):
        if base in (b, 0) and len(t) > 1 and is_in(t[1], letters) and is_in(t[0], "0"):
            t, base, prefixed = t[2:], b, True
            break
    if base == 0:
        if len(t) > 1 and is_in(t[0], "0"):
            return int(("-" if neg else "") + text_conc(t), 0)
        base = 10
    if not t:
        raise ValueError("invalid literal for int()")
    v = 0
    digs = "0123456789abcdefghijklmnopqrstuvwxyz"[:base]
    last = "" if prefixed else "_"
    for i, c in enumerate(t):
        if is_in(c, "_"):
            if last == "_" or i == len(t) - 1:
                raise ValueError("invalid literal for int()")
            last = "_"
            continue
        last = c
        if is_tok(c):
            cp = tok(c)[1]
            if tok(c)[3] is not None and (base == 16 or tok(c)[2] is DECN and base >= 10):
                v = v * base + tok(c)[3]
                continue
            good = tok_in(c, lambda k: chr(k).lower() in digs)
            if not (good if isinstance(good, bool) else bool(good)):
                raise ValueError("invalid literal for int() with base %d" % base)
            d = ite(cp <= 57, cp - 48, ite(cp <= 90, cp - 55, cp - 87))
            d = SymInt(eng._ext(lift(d).t, eng._bits(0, base - 1)), 0, base - 1) \
                if isinstance(d, SymInt) else d
        else:
            d = int(c, base)
        v = v * base + d
    return -v if neg else v


# ------------------------------------------------------------------ finite-domain values
class FinVal:
    """A value that is a function of a symbolic key over a finite table."""
    __slots__ = ("key", "tab")

    def __init__(self, key, tab):
        object.__setattr__(self, "key", key)
        object.__setattr__(self, "tab", tab)

    def groups(self, f):
        g = {}
        for k, v in self.tab.items():
            r = f(v)
            kk = r if isinstance(r, (int, str, bool, tuple, frozenset)) else id(r)
            g.setdefault((type(r).__name__, kk), (r, []))[1].append(k)
        return list(g.values())

    def decide(self, f):
        """Fork until f(value) is a single concrete answer."""
        gs = self.groups(f)
        for r, ks in gs[:-1]:
            c = keyset(self.key, ks)
            if c is True or (c is not False and bool(c)):
                return r
        return gs[-1][0]

    def narrow(self):
        t = {k: v for k, v in self.tab.items()}
        return t

    def pick(self):
        return self.tab[concretize(self.key)]

    def map(self, f):
        return mkfin(self.key, {k: f(v) for k, v in self.tab.items()})

    def __getattr__(self, n):
        vals = list(self.tab.values())
        a = [getattr(v, n) for v in vals]
        if all(callable(x) for x in a):
            def call(*args, **kw):
                return self.map(lambda v: getattr(v, n)(*args, **kw))
            return call
        return self.map(lambda v: getattr(v, n))

    def __eq__(self, o):
        if isinstance(o, FinVal):
            o = o.pick()
        ks = [k for k, v in self.tab.items() if v == o]
        return keyset(self.key, ks)

    def __ne__(self, o):
        return b_not(self == o)

    def __contains__(self, x):
        return bool(keyset(self.key, [k for k, v in self.tab.items() if x in v]))

    def __bool__(self):
        return bool(self.decide(lambda v: bool(v)))

    def __len__(self):
        return self.decide(len)

    def __getitem__(self, i):
        return self.map(lambda v: v[i])

    def __add__(self, o):
        if isinstance(o, str):
            return str(self) + o
        return self.map(lambda v: v + o)

    def __radd__(self, o):
        if isinstance(o, str):
            return o + str(self)
        return self.map(lambda v: o + v)

    def __mod__(self, o):
        return self.map(lambda v: v % o)

    def __iter__(self):
        return iter(self.pick())

    def __hash__(self):
        if eng.E().probing:
            raise eng.SymHash()
        return hash(self.pick())

    def __str__(self):
        return eng.E().token(("fin", self))

    def __repr__(self):
        return "FinVal(%d)" % len(self.tab)


def keyset(key, ks):
    """SymBool: key in ks, as a union of intervals."""
    if not isinstance(key, SymInt):
        return key in ks
    ks = sorted(k for k in ks if key.lo <= k <= key.hi)
    rs = []
    for c in ks:
        if rs and rs[-1][1] == c - 1:
            rs[-1][1] = c
        else:
            rs.append([c, c])
    ck = (key.t.get_id(), tuple(map(tuple, rs)))
    hit = _KEYSETS.get(ck)
    if hit is None:
        if len(_KEYSETS) > 5000:
            _KEYSETS.clear()
        r = b_any([(key == a) if a == b else b_all([key >= a, key <= b]) for a, b in rs])
        hit = _KEYSETS[ck] = (r, key.t)
    return hit[0]


_KEYSETS = {}


def mkfin(key, tab):
    vals = list(tab.values())
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    if all(type(v) is type(v0) for v in vals) and isinstance(v0, (str, int, bytes, tuple)):
        if all(v == v0 for v in vals):
            return v0
    if all(isinstance(v, (list, tuple)) for v in vals):
        f = FinVal(key, tab)
        n = f.decide(lambda v: (type(v).__name__, len(v)))
        # keep only entries of that shape: the fork above fixed it
        tab = {k: v for k, v in tab.items() if (type(v).__name__, len(v)) == n}
        r = [mkfin(key, {k: v[i] for k, v in tab.items()}) for i in range(n[1])]
        return tuple(r) if n[0] == "tuple" else r
    if all(type(v) is int for v in vals):
        offs = {v - k for k, v in tab.items()}
        if len(offs) == 1:
            return key + offs.pop()
        r = v0
        for k, v in list(tab.items())[1:]:
            r = ite(key == k, v, r)
        return r
    return FinVal(key, tab)


_SUMS = {}


def summarize(key, tab):
    """Symbolic view of table[key], key known to be in the table."""
    vals = list(tab.values())
    # which attributes are an affine function of the key is a fact about the table alone
    ck = tuple(map(id, vals))
    hit = _SUMS.get(ck)
    if hit is not None:
        o = object.__new__(type(vals[0]))
        for n, d in hit[0].items():
            o.__dict__[n] = key + d[1] if d[0] == "off" else d[1] if d[0] == "same" else FinVal(key, d[1])
        return o
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    if all(type(v) is type(v0) for v in vals) and hasattr(v0, "__dict__") \
            and not isinstance(v0, type) and not callable(v0):
        names = set(v0.__dict__)
        if all(set(v.__dict__) == names for v in vals):
            # plain int attributes must be an affine function of the key, else split
            f = FinVal(key, tab)
            intn = [n for n in names if all(type(v.__dict__[n]) is int for v in vals)]
            if intn:
                shape = FinVal(key, {k: tuple(v.__dict__[n] - k for n in sorted(intn))
                                     for k, v in tab.items()})
                s = shape.decide(lambda v: v)
                tab = {k: v for k, v in tab.items() if shape.tab[k] == s}
            o = object.__new__(type(v0))
            how = {}
            for n in v0.__dict__:
                sub = {k: v.__dict__[n] for k, v in tab.items()}
                r = o.__dict__[n] = mkfin(key, sub)
                if isinstance(r, FinVal) and r.tab is sub:
                    how[n] = ("fin", sub)
                elif all(x is v0.__dict__[n] for x in sub.values()):
                    how[n] = ("same", r)
                elif all(type(x) is int for x in sub.values()) and len({x - k for k, x in sub.items()}) == 1:
                    how[n] = ("off", v0.__dict__[n] - next(iter(tab)))
            if len(how) == len(v0.__dict__) and len(tab) == len(vals):
                if len(_SUMS) > 200:
                    _SUMS.clear()
                _SUMS[ck] = (how, vals)
            return o
    return mkfin(key, tab)


# ------------------------------------------------------------------ dict / set
FIN_MIN = 12


def _int_key(k):
    if type(k) is int:
        return k
    f = getattr(type(k), "__int__", None)
    if f is not None and not isinstance(k, (float, SymInt)):
        v = f(k)
        if type(v) is int:
            return v
    return None


def _concrete_key(k):
    e = eng.E()
    if e is None:
        return True
    t = type(k)
    if t is int:
        return True
    if t is str:
        return not has_tok(k)
    old, e.probing = e.probing, True
    try:
        hash(k)
        return True
    except eng.SymHash:
        return False
    finally:
        e.probing = old


def _symint_of(k):
    if isinstance(k, SymInt):
        return k
    f = getattr(type(k), "__int__", None)
    if f is not None and not isinstance(k, (SymBool, float)):
        v = f(k)
        if isinstance(v, SymInt):
            return v
    return None


def _same(a, b):
    """a == b for keys and members: texts may hold symbolic characters"""
    if isinstance(a, str) and isinstance(b, str) and (has_tok(a) or has_tok(b)):
        from . import text
        return text.text_eq(a, b)
    return a == b


class SymDict(dict):
    """dict that accepts symbolic keys (kept aside, compared through ==)."""

    def __init__(self, *a, **kw):
        dict.__init__(self)
        self.ov = []
        self.mut = 0
        self.tab = None
        self.update(*a, **kw)

    def update(self, *a, **kw):
        if a:
            src = a[0]
            it = src.items() if hasattr(src, "items") else \
                [(k, src[k]) for k in src.keys()] if hasattr(src, "keys") else src
            for k, v in it:
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def _inttab(self):
        if self.tab is None or self.tab[0] != self.mut:
            t = {}
            for k in dict.keys(self):
                ik = _int_key(k)
                if ik is None:
                    t = None
                    break
                t[ik] = k
            self.tab = (self.mut, t)
        return self.tab[1]

    def _find(self, key):
        """(where, slot) of key, or None.  Forks when key is symbolic."""
        conc = _concrete_key(key)
        for e in reversed(self.ov):
            r = _same(e[0], key)
            if r is True or (r is not False and bool(r)):
                return ("ov", e)
        if conc:
            return ("d", key) if dict.__contains__(self, key) else None
        if dict.__len__(self) >= FIN_MIN:
            sk = _symint_of(key)
            t = self._inttab()
            if sk is not None and t is not None:
                cands = [k for k in t if sk.lo <= k <= sk.hi]
                if not cands:
                    return None
                c = keyset(sk, cands)
                if c is False or (c is not True and not bool(c)):
                    return None
                return ("fin", (sk, {k: dict.__getitem__(self, t[k]) for k in cands}))
        for k in list(dict.keys(self)):
            r = _same(key, k)
            if r is True or (r is not False and bool(r)):
                return ("d", k)
        return None

    def _val(self, f):
        if f[0] == "ov":
            return f[1][1]
        if f[0] == "d":
            return dict.__getitem__(self, f[1])
        return summarize(*f[1])

    def __getitem__(self, key):
        f = self._find(key)
        if f is None:
            if hasattr(type(self), "__missing__"):
                return self.__missing__(key)
            raise KeyError(key)
        return self._val(f)

    def get(self, key, default=None):
        f = self._find(key)
        return default if f is None else self._val(f)

    def __contains__(self, key):
        return self._find(key) is not None

    def __setitem__(self, key, value):
        self.mut += 1
        if _concrete_key(key):
            if not self.ov:
                dict.__setitem__(self, key, value)
                return
            f = self._find(key)
            if f is not None and f[0] == "ov":
                f[1][1] = value
            elif f is None:
                self.ov.append([key, value])        # keeps the insertion order
            else:
                dict.__setitem__(self, key, value)
            return
        sk = _symint_of(key)
        if dict.__len__(self) >= FIN_MIN and sk is not None and self._inttab() is not None:
            # shadow entry: newest first in _find, so no case split is needed
            self.ov.append([key, value])
            return
        f = self._find(key)
        if f is None:
            self.ov.append([key, value])
        elif f[0] == "ov":
            f[1][1] = value
        else:
            dict.__setitem__(self, f[1], value)

    def __delitem__(self, key):
        self.mut += 1
        f = self._find(key)
        if f is None:
            raise KeyError(key)
        if f[0] == "ov":
            self.ov.remove(f[1])
        elif f[0] == "d":
            dict.__delitem__(self, f[1])
        else:
            dict.__delitem__(self, concretize(f[1][0]))

    def setdefault(self, key, default=None):
        f = self._find(key)
        if f is None:
            self[key] = default
            return default
        return self._val(f)

    def pop(self, key, *d):
        f = self._find(key)
        if f is None:
            if d:
                return d[0]
            raise KeyError(key)
        v = self._val(f)
        del self[key]
        return v

    def clear(self):
        self.mut += 1
        dict.clear(self)
        del self.ov[:]

    def keys(self):
        if not self.ov:
            return dict.keys(self)
        return View(list(dict.keys(self)) + [e[0] for e in self.ov])

    def values(self):
        if not self.ov:
            return dict.values(self)
        return list(dict.values(self)) + [e[1] for e in self.ov]

    def items(self):
        if not self.ov:
            return dict.items(self)
        return View(list(dict.items(self)) + [tuple(e) for e in self.ov])

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return dict.__len__(self) + len(self.ov)

    def __bool__(self):
        return len(self) > 0

    def copy(self):
        return SymDict(self.items())

    def popitem(self, *a):
        ks = list(self.keys())
        if not ks:
            raise KeyError("popitem(): dictionary is empty")
        k = ks[-1]
        return k, self.pop(k)

    def __reversed__(self):
        return reversed(list(self.keys()))

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if not self.ov and not getattr(o, "ov", None):
            return dict.__eq__(self, o)
        if len(self) != len(o):
            return False
        o = o if isinstance(o, SymDict) else SymDict(o)
        return all(k in o and bool(_same(v, o[k])) for k, v in self.items())

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return dict.__repr__(self) if not self.ov else repr(dict(self.items()))

    def __ror__(self, o):
        r = SymDict(o)
        r.update(self)
        return r

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    @classmethod
    def fromkeys(cls, it, v=None):
        return cls([(k, v) for k in it])


class SymSet:
    """Insertion ordered set compared through == (forks on symbolic members)."""

    def __init__(self, it=()):
        self.el = []
        for x in it:
            self.add(x)

    def _has(self, x):
        for e in self.el:
            if e is x:
                return True
        for e in self.el:
            r = _same(e, x)
            if r is True or (r is not False and bool(r)):
                return True
        return False

    def add(self, x):
        if not self._has(x):
            self.el.append(x)

    def update(self, *its):
        for it in its:
            for x in list(it):
                self.add(x)

    def discard(self, x):
        self.el = [e for e in self.el if not (e is x or bool(_same(e, x)))]

    def remove(self, x):
        if not self._has(x):
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        return self.el.pop(0)

    def clear(self):
        self.el = []

    def copy(self):
        r = SymSet()
        r.el = list(self.el)
        return r

    def __contains__(self, x):
        return self._has(x)

    def __iter__(self):
        return iter(list(self.el))

    def __len__(self):
        return len(self.el)

    def __bool__(self):
        return bool(self.el)

    def union(self, *o):
        r = self.copy()
        r.update(*o)
        return r

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __ior__(self, o):
        self.update(o)
        return self

    def __and__(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        r = SymSet()
        r.el = [e for e in self.el if e in o]
        return r

    intersection = __and__

    def __sub__(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        r = SymSet()
        r.el = [e for e in self.el if e not in o]
        return r

    difference = __sub__

    def __rsub__(self, o):
        return SymSet(o) - self

    __rand__ = lambda self, o: SymSet(o) & self

    def __xor__(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return (self - o) | (o - self)

    symmetric_difference = __rxor__ = __xor__

    def __iand__(self, o):
        self.el = (self & o).el
        return self

    def __isub__(self, o):
        self.el = (self - o).el
        return self

    def __ixor__(self, o):
        self.el = (self ^ o).el
        return self

    intersection_update, difference_update = __iand__, __isub__
    symmetric_difference_update = __ixor__

    def issubset(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return all(e in o for e in self.el)

    __le__ = issubset

    def issuperset(self, o):
        return all(e in self for e in o)

    __ge__ = issuperset

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def isdisjoint(self, o):
        return not any(e in self for e in o)

    def __eq__(self, o):
        if isinstance(o, (set, frozenset, SymSet, type({}.keys()), type({}.items()))):
            return len(self) == len(o) and self.issubset(o)
        return NotImplemented

    def __hash__(self):
        raise TypeError("unhashable type: 'set'")

    def __repr__(self):
        return "{" + ", ".join(map(repr, self.el)) + "}" if self.el else "set()"


class View(SymSet):
    """keys() or items() of a dictionary"""

    def __init__(self, el):
        self.el = el

    def __reversed__(self):
        return reversed(list(self.el))

    def copy(self):
        return SymSet(self.el)


# ------------------------------------------------------------------ floats
_STEPS, _INTS = {}, {}


def fkey(f):
    """Identity of a (closure of a) function by code and captured values."""
    c = getattr(f, "__code__", None)
    if c is None:
        return f
    def val(x):
        if callable(x):
            return fkey(x)
        if isinstance(x, (SymInt, SymBool)):
            return object()
        if isinstance(x, (list, tuple)):
            return tuple(val(y) for y in x)
        return (type(x).__name__, x)
    return (c, tuple(val(x.cell_contents) for x in (f.__closure__ or ())))


class SymFloat:
    """f(x) for a symbolic integer x and a concrete, monotone float function f."""

    def __init__(self, f, x, over=None):
        # over: a positive integer d when f is the true division by d (exact for floor,
        # ceiling, truncation and rounding as long as |x| < 2^52)
        self.f, self.x, self.over = f, x, over

    @staticmethod
    def whole(f, x):
        """f(x) where f need not be monotone: only used after a case split over x"""
        return _Whole(f, x)

    def _thr(self, pred):
        """SymBool pred(f(x)), pred monotone over the interval of x."""
        lo, hi = self.x.lo, self.x.hi
        a, b = pred(self.f(lo)), pred(self.f(hi))
        if a == b:
            return a
        l, h = lo, hi
        while h - l > 1:
            m = (l + h) // 2
            if pred(self.f(m)) == a:
                l = m
            else:
                h = m
        return (self.x >= h) if b else (self.x < h)

    def _fits(self):
        x, d = self.x, self.over
        return d is not None and max(abs(x.lo), abs(x.hi)) < 1 << 52 and d < 1 << 52

    def _exact(self, conv):
        x, d = self.x, self.over
        if not self._fits():
            return None
        down = x // d
        if conv is _math.floor:
            return down
        if conv is _math.ceil:
            return -((-x) // d)
        if conv is int:
            return ite(x >= 0, down, -((-x) // d))
        if conv is round:
            twice = (x - down * d) * 2
            return ite(b_not(twice < d), ite(twice > d, down + 1, down + (down & 1)), down)
        return None

    def to_int(self, conv=int):
        r = self._exact(conv)
        if r is not None:
            return r
        if abs(conv(self.f(self.x.hi)) - conv(self.f(self.x.lo))) > 4096:
            return conv(self.f(concretize(self.x)))
        fk = (fkey(self.f), fkey(conv), self.x.lo, self.x.hi)
        ck = fk + (self.x.t.get_id(),)
        hit = _INTS.get(ck)
        if hit is not None:
            return hit[0]
        steps = _STEPS.get(fk)
        if steps is None:
            steps = _STEPS[fk] = self._steps(conv)
        base, rest = steps
        r = base
        for k, h, up in rest:
            r = ite((self.x >= h) if up else (self.x < h), k, r)
        if len(_INTS) > 20000:
            _INTS.clear()
        _INTS[ck] = (r, self.x.t)
        return r

    def _steps(self, conv):
        """Thresholds of the step function conv(f(x)) over the interval of x."""
        lo, hi = conv(self.f(self.x.lo)), conv(self.f(self.x.hi))
        up = lo <= hi
        if not up:
            lo, hi = hi, lo
        rest = []
        for k in range(lo + 1, hi + 1):
            l, h = self.x.lo, self.x.hi
            a = conv(self.f(l)) >= k
            while h - l > 1:
                m = (l + h) // 2
                if (conv(self.f(m)) >= k) == a:
                    l = m
                else:
                    h = m
            rest.append((k, h, up))
        return lo, rest

    def __lt__(self, o):
        if isinstance(o, SymInt):
            if self._fits():
                return self.x < o * self.over
            o = concretize(o)
        return self._thr(lambda v: v < o)

    def __le__(self, o):
        if isinstance(o, SymInt):
            if self._fits():
                return self.x <= o * self.over
            o = concretize(o)
        return self._thr(lambda v: v <= o)

    def __gt__(self, o):
        if isinstance(o, SymInt):
            if self._fits():
                return self.x > o * self.over
            o = concretize(o)
        return self._thr(lambda v: v > o)

    def __ge__(self, o):
        if isinstance(o, SymInt):
            if self._fits():
                return self.x >= o * self.over
            o = concretize(o)
        return self._thr(lambda v: v >= o)

    def __eq__(self, o):
        return b_all([self >= o, self <= o])

    def __ne__(self, o):
        return b_not(self == o)

    def _un(self, g):
        f = self.f
        return SymFloat(lambda v: g(f(v)), self.x)

    def __add__(self, o):
        return self._un(lambda v: v + concretize(o))

    __radd__ = __add__

    def __sub__(self, o):
        return self._un(lambda v: v - concretize(o))

    def __rsub__(self, o):
        return self._un(lambda v: concretize(o) - v)

    def __mul__(self, o):
        return self._un(lambda v: v * concretize(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._un(lambda v: v / concretize(o))

    def __floordiv__(self, o):
        return self._un(lambda v: v // concretize(o))

    def __neg__(self):
        return self._un(lambda v: -v)

    def __bool__(self):
        return bool(self != 0)

    def __floor__(self):
        return self.to_int(_math.floor)

    def __ceil__(self):
        return self.to_int(_math.ceil)

    def __trunc__(self):
        return self.to_int(int)

    def __round__(self, n=None):
        return self.to_int(round)

    def __float__(self):
        return self.f(concretize(self.x))

    def __int__(self):
        return concretize(self.to_int(int))


class _Whole(SymFloat):
    def _thr(self, pred):
        return pred(self.f(concretize(self.x)))

    def _un(self, g):
        f = self.f
        return _Whole(lambda v: g(f(v)), self.x)

    def to_int(self, conv=int):
        return conv(self.f(concretize(self.x)))
