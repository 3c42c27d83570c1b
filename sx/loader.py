"""Loads /repo's current source for symbolic execution.

The modules of the package are read from /repo on every run.  The only source
changes are mechanical and semantics preserving: operations that CPython
implements in C and that insist on machine values (dict/set displays, item
access, `%` formatting, join) are routed through helpers that do exactly the
native thing unless a symbolic operand is involved.  Builtins (int, bytes,
range, len, ...) and the modules struct, math, re are replaced, per module, by
versions that accept symbolic operands too.
"""
import ast, builtins, importlib, importlib.abc, importlib.machinery, os, sys, types, operator
import struct as _struct, math as _math
import codecs, binascii, enum, numbers
from . import engine as eng
from .engine import SymInt, SymBool, concretize, ite, is_sym
from .values import (text_len, SymBytes, SymByteArray, byte_of, SymDict, SymSet, FinVal, SymFloat, mkbytes, join_bytes, fmt_int,
                     has_tok, is_tok, tok, parse_int_text, text_opaque_conc)
from .regex import ReShim
from . import text

# ------------------------------------------------------------------ builtins


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt, SymBool))

    def __subclasscheck__(cls, c):
        return c is sx_int or c is sx_bool or issubclass(c, (int, SymInt, SymBool))

    def __getattr__(cls, n):
        f = getattr(int, n)
        return (lambda o, *a, **k: getattr(o, n)(*a, **k)) if callable(f) and n != "from_bytes" else f

    def __eq__(cls, o):
        return o is cls or o is int or o is SymInt

    def __hash__(cls):
        return hash(int)


class sx_int(metaclass=_IntMeta):
    def __new__(cls, x=0, base=None):
        if cls is not sx_int:
            return int.__new__(cls, concretize(x) if base is None else sx_int(x, base))
        if base is not None:
            if isinstance(x, FinVal):
                x = x.pick()
            if isinstance(x, str) and has_tok(x):
                return parse_int_text(x, base)
            if isinstance(x, SymBytes):
                x = x.conc()
            return int(x, concretize(base))
        t = type(x)
        if t is int or t is SymInt:
            return x
        if t is SymBool:
            return x._int()
        if t is SymFloat:
            return x.to_int(int)
        if isinstance(x, str):
            return parse_int_text(x, 10) if has_tok(x) else int(x)
        if t is SymBytes:
            return int(x.conc())
        if isinstance(x, (int, float, bytes, bytearray)):
            return int(x)
        for n in ("__int__", "__index__", "__trunc__"):
            f = getattr(t, n, None)
            if f is not None:
                r = f(x)
                if isinstance(r, SymInt):
                    return r
                if isinstance(r, SymBool):
                    return r._int()
                if not isinstance(r, int):
                    raise TypeError("%s.%s returned non-int (type %s)" % (t.__name__, n, type(r).__name__))
                return int(r)
        return int(x)

    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        if isinstance(b, (SymBytes, list, tuple)):
            el = list(b)
            if any(is_sym(x) for x in el):
                return _from_bytes(el, byteorder, signed)
            b = bytes(el)
        return int.from_bytes(b, byteorder, signed=signed)

    bit_length = staticmethod(lambda x: x.bit_length())
    to_bytes = staticmethod(lambda x, *a, **k: x.to_bytes(*a, **k))


def _from_bytes(el, byteorder, signed):
    if byteorder == "big":
        el = list(reversed(el))
    if not el:
        return 0
    v = 0
    for k, e in enumerate(el):
        v = v + (e << (8 * k))
    if signed:
        n = 1 << (8 * len(el))
        v = ite(v >= n // 2, v - n, v)
        if isinstance(v, SymInt):
            v = SymInt(v.t, max(v.lo, -(n // 2)), min(v.hi, n // 2 - 1))
    return v


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, str) or isinstance(x, FinVal) and all(isinstance(v, str) for v in x.tab.values())

    def __subclasscheck__(cls, c):
        return c is sx_str or issubclass(c, str)

    def __eq__(cls, o):
        return o is cls or o is str

    def __hash__(cls):
        return hash(str)

    def __getattr__(cls, n):
        f = getattr(str, n)
        if n == "join":
            return sx_join
        if n in text.NAMES:
            return lambda o, *a, **k: text.strcall(o, n, a, k)
        return f


class sx_str(metaclass=_StrMeta):
    def __new__(cls, x="", *a):
        if cls is not sx_str:
            return str.__new__(cls, sx_str(x, *a))
        if isinstance(x, SymBytes):
            return str(x.conc(), *a)
        if isinstance(x, FinVal):
            return FinVal.__str__(x)
        if type(x).__str__ is object.__str__ or a:
            return str(x, *a)
        r = type(x).__str__(x)
        if isinstance(r, (str, FinVal)):
            return r if isinstance(r, str) else FinVal.__str__(r)
        return str(x)


class _BytesMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bytes, SymBytes)) and not isinstance(x, SymByteArray)

    def __subclasscheck__(cls, c):
        return c is sx_bytes or issubclass(c, (bytes, SymBytes))

    def __eq__(cls, o):
        return o is cls or o is bytes

    def __hash__(cls):
        return hash(bytes)


class sx_bytes(metaclass=_BytesMeta):
    def __new__(cls, x=b"", *a):
        if cls is not sx_bytes:
            x = sx_bytes(x, *a)
            return bytes.__new__(cls, x.conc() if isinstance(x, SymBytes) else x)
        if isinstance(x, SymByteArray):
            return mkbytes(list(x.el))
        if isinstance(x, SymBytes):
            return x
        if isinstance(x, str) and has_tok(x):
            return text.strcall(x, "encode", a, {})
        if a or isinstance(x, (str, bytes, bytearray, int, memoryview)):
            return bytes(x, *a)
        if isinstance(x, SymInt):
            return bytes(concretize(x))
        if hasattr(type(x), "__bytes__"):
            return type(x).__bytes__(x)
        el = []
        for v in x:
            if isinstance(v, SymBool):
                v = v._int()
            if isinstance(v, SymInt):
                if v < 0 or v > 255:
                    raise ValueError("bytes must be in range(0, 256)")
                v = SymInt(v.t, max(v.lo, 0), min(v.hi, 255))
            elif not isinstance(v, int):
                f = getattr(type(v), "__index__", None)
                if f is None:
                    raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
                v = f(v)
            el.append(v)
        return mkbytes(el)

    @staticmethod
    def fromhex(s):
        if not has_tok(s):
            return bytes.fromhex(s)
        s = text_opaque_conc(s)
        out, i = [], 0
        while i < len(s):
            if text._inset(s[i], " \t\n\r\x0b\x0c"):
                i += 1
                continue
            if i + 1 >= len(s) or not all(text._inset(c, "0123456789abcdefABCDEF") for c in s[i:i + 2]):
                raise ValueError("non-hexadecimal number found in fromhex() arg at position %d" % i)
            out.append(parse_int_text(s[i:i + 2], 16))
            i += 2
        return mkbytes(out)

    join = staticmethod(lambda sep, it: join_bytes(sep, it))


class _ByteArrayMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bytearray, SymByteArray))

    def __eq__(cls, o):
        return o is cls or o is bytearray

    def __hash__(cls):
        return hash(bytearray)


class sx_bytearray(metaclass=_ByteArrayMeta):
    def __new__(cls, x=b"", *a):
        if a or isinstance(x, str):
            x = sx_bytes(x, *a)
        if isinstance(x, (int, SymInt)):
            x = bytes(concretize(x))
        return SymByteArray([byte_of(v) for v in x])

    @staticmethod
    def fromhex(s):
        return SymByteArray(list(sx_bytes.fromhex(s)))


def sx_len(x):
    t = type(x)
    if t is str:
        return text_len(x) if has_tok(x) else len(x)
    if t in (list, tuple, bytes, SymBytes, dict, SymDict):
        return len(x)
    f = getattr(t, "__len__", None)
    if isinstance(f, types.FunctionType):
        r = f(x)
        if isinstance(r, SymInt):
            if r < 0:
                raise ValueError("__len__() should return >= 0")
            return r
        return len(x) if not isinstance(r, int) else (r if r >= 0 else len(x))
    return len(x)


class SymRange:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __iter__(self):
        i = self.a
        while (i < self.b) if self.s > 0 else (i > self.b):
            yield i
            i = i + self.s

    def __len__(self):
        return concretize(self._n())

    def _n(self):
        n = (self.b - self.a + self.s - 1) // self.s
        return ite(n > 0, n, 0)

    def __bool__(self):
        return bool(self._n() > 0)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return list(self)[i]
        if i < 0:
            i = self._n() + i
        if i < 0 or i >= self._n():
            raise IndexError("range object index out of range")
        return self.a + i * self.s

    def __contains__(self, x):
        if self.s != 1:
            return any(bool(v == x) for v in self)
        return bool(eng.b_all([x >= self.a, x < self.b]))

    def __reversed__(self):
        return reversed(list(self))


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (range, SymRange))


class sx_range(metaclass=_RangeMeta):
    def __new__(cls, *a):
        a = [v._int() if isinstance(v, SymBool) else v for v in a]
        if not any(isinstance(v, SymInt) for v in a):
            return range(*a)
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        return SymRange(a[0], a[1], concretize(a[2]) if len(a) > 2 else 1)


def sx_hash(x):
    return hash(x)


def sx_hex(x):
    if isinstance(x, SymBool):
        x = x._int()
    if isinstance(x, SymInt):
        return eng.E().token(("hex", x))
    return hex(x)


def sx_bin(x):
    if isinstance(x, SymBool):
        x = x._int()
    return fmt_int(x, "#b") if isinstance(x, SymInt) else bin(x)


def sx_oct(x):
    if isinstance(x, SymBool):
        x = x._int()
    return fmt_int(x, "#o") if isinstance(x, SymInt) else oct(x)


def sx_chr(x):
    if isinstance(x, SymInt):
        from .values import chr_tok
        return chr_tok(x)
    return chr(x)


def sx_ord(x):
    if isinstance(x, str) and len(x) == 1 and is_tok(x) and tok(x)[0] == "chr":
        return tok(x)[1]
    return ord(x)


def sx_print(*a, **k):
    e = eng.E()
    f = k.get("file")
    s = k.get("sep", " ").join(sx_str(x) for x in a) + k.get("end", "\n")
    if f is not None and f is not sys.stdout and f is not sys.stderr:
        f.write(s)
    elif f is not sys.stderr and e is not None:
        if getattr(e, "stdout", None) is not None:
            e.stdout.write(s)


def sx_type(x):
    """type(x) as the program would see it"""
    t = type(x)
    if t is FinVal and x.tab:
        ts = {type(v) for v in x.tab.values()}
        return sx_type(x.pick()) if len(ts) > 1 else _REAL.get(list(ts)[0], list(ts)[0])
    return _REAL.get(t, t)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SymBool))

    def __eq__(cls, o):
        return o is cls or o is bool

    def __hash__(cls):
        return hash(bool)


class sx_bool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        return bool(x)


class _FrozenMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (frozenset, SymFrozen))

    def __eq__(cls, o):
        return o is cls or o is frozenset

    def __hash__(cls):
        return hash(frozenset)


class SymFrozen(SymSet):
    def __hash__(self):
        return hash(frozenset(self.el))


class sx_frozenset(metaclass=_FrozenMeta):
    def __new__(cls, it=()):
        it = list(it)
        return SymFrozen(it) if any(isinstance(x, (SymInt, SymBytes)) or isinstance(x, str) and has_tok(x)
                                    for x in it) else frozenset(it)


_REAL = {SymInt: sx_int, int: sx_int, SymBool: sx_bool, bool: sx_bool, SymBytes: sx_bytes, bytes: sx_bytes,
         SymByteArray: sx_bytearray, bytearray: sx_bytearray, str: sx_str, frozenset: sx_frozenset,
         SymFrozen: sx_frozenset, set: SymSet, dict: SymDict, range: sx_range, SymRange: sx_range}
for _t, _c in ((int, sx_int), (bool, sx_bool), (bytes, sx_bytes), (bytearray, sx_bytearray), (str, sx_str),
               (frozenset, sx_frozenset), (set, SymSet), (dict, SymDict), (range, sx_range)):
    _c.__name__ = _c.__qualname__ = _t.__name__
    _c.__module__ = "builtins"


def sx_memoryview(x):
    return x if isinstance(x, SymBytes) else memoryview(x)


# ------------------------------------------------------------------ rewritten operations
def sx_getitem(o, k):
    if isinstance(k, SymBool):
        k = k._int()
    if type(o) is str and has_tok(o):
        o = text_opaque_conc(o)
    if isinstance(k, SymInt) and isinstance(o, (list, tuple)):
        n = len(o)
        if k < -n or k >= n:
            raise IndexError("list index out of range" if isinstance(o, list) else "tuple index out of range")
        k = ite(k < 0, k + n, k)
        if not isinstance(k, SymInt):
            return o[k]
        if all(isinstance(v, (int, SymInt)) and not isinstance(v, bool) for v in o):
            r = o[max(k.lo, 0)]
            for i in range(max(k.lo, 0) + 1, min(k.hi, n - 1) + 1):
                if o[i] is not r:
                    r = ite(k == i, o[i], r)
            return r
        return o[concretize(k)]
    return o[k]


def _symkeys(l):
    return any(isinstance(x, str) and has_tok(x) or isinstance(x, tuple) and _symkeys(x) for x in l)


def _less(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if not bool(text.cmp_eq(x, y)):
                return _less(x, y)
        return len(a) < len(b)
    return bool(text.cmp_lt(a, b))


def sx_sorted(it, *, key=None, reverse=False):
    l = list(it)
    ks = [key(x) for x in l] if key is not None else l
    if not _symkeys(ks):
        return sorted(l, key=key, reverse=reverse)
    import functools
    cmp = functools.cmp_to_key(lambda a, b: -1 if _less(a[0], b[0]) else 1 if _less(b[0], a[0]) else 0)
    return [x for _, x in sorted(zip(ks, l), key=cmp, reverse=reverse)]


def _extreme(native, first):
    def f(*a, **k):
        l = list(a[0]) if len(a) == 1 else list(a)
        key = k.get("key")
        ks = [key(x) for x in l] if key is not None else l
        if not _symkeys(ks):
            return native(l, **k)
        best = 0
        for i in range(1, len(l)):
            if first(ks[i], ks[best]):
                best = i
        return l[best]
    return f


sx_min = _extreme(min, lambda a, b: _less(a, b))
sx_max = _extreme(max, lambda a, b: _less(b, a))


def sx_truth(x):
    """What __bool__ may return"""
    return bool(x) if isinstance(x, SymBool) else x


def sx_hashval(x):
    """What __hash__ may return"""
    return hash(x) if isinstance(x, (SymInt, SymBool)) else x


def sx_setitem(o, k, v):
    if isinstance(k, SymBool):
        k = k._int()
    if isinstance(k, SymInt) and isinstance(o, list) and isinstance(v, (int, SymInt)) \
            and not isinstance(v, bool) \
            and all(isinstance(x, (int, SymInt)) and not isinstance(x, bool) for x in o):
        n = len(o)
        if k < -n or k >= n:
            raise IndexError("list assignment index out of range")
        k = ite(k < 0, k + n, k)
        if isinstance(k, SymInt):
            for i in range(max(k.lo, 0), min(k.hi, n - 1) + 1):
                o[i] = ite(k == i, v, o[i])
            return
    o[k] = v


_OPS = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv,
        "FloorDiv": operator.ifloordiv, "BitOr": operator.ior, "BitAnd": operator.iand,
        "BitXor": operator.ixor, "LShift": operator.ilshift, "RShift": operator.irshift,
        "Pow": operator.ipow, "MatMult": operator.imatmul}


def sx_augitem(o, k, op, v):
    cur = sx_getitem(o, k)
    sx_setitem(o, k, sx_mod(cur, v) if op == "Mod" else _OPS[op](cur, v))


def _has_symfmt(a):
    return isinstance(a, (SymInt, SymBool, FinVal)) or not isinstance(a, (str, int, float, bytes, bool))


def sx_mod(a, b):
    if isinstance(a, (bytes, bytearray)):
        args = b if isinstance(b, tuple) else (b,)
        if any(isinstance(x, (SymInt, SymBool)) for x in args) and not any(isinstance(x, SymBytes) for x in args):
            r = sx_mod(a.decode("latin1"), tuple(x.decode("latin1") if isinstance(x, (bytes, bytearray)) else x for x in args))
            return type(a)(r, "latin1") if not has_tok(r) else text.strcall(r, "encode", ("latin1",), {})
        return a % b
    if not isinstance(a, str):
        if isinstance(a, FinVal):
            a = a.pick()
            return sx_mod(a, b)
        return a % b
    args = b if isinstance(b, tuple) else (b,)
    if isinstance(b, dict) or not any(_has_symfmt(x) for x in args):
        return a % b
    out, i, n = [], 0, 0
    import re
    for m in re.finditer(r"%(\(\w+\))?([#0\- +]*)(\*|\d*)(?:\.(\d+))?[hlL]?([diouxXeEfFgGcrsa%])|%", a):
        out.append(a[i:m.start()])
        i = m.end()
        if m.group(5) is None:
            return a % b
        conv = m.group(5)
        if conv == "%":
            out.append("%")
            continue
        if n >= len(args):
            raise TypeError("not enough arguments for format string")
        v = args[n]
        n += 1
        flags, width, prec = m.group(2), m.group(3), m.group(4)
        plain = "%" + flags + width + ("." + prec if prec else "") + conv
        if conv in "diuxXo":
            if isinstance(v, SymBool):
                v = v._int()
            if not isinstance(v, (int, SymInt, float)):
                f = getattr(type(v), "__index__", None)
                if conv in "diu" and f is None:
                    f = getattr(type(v), "__int__", None)
                if f is None:
                    raise TypeError("%%%s format: a real number is required, not %s" % (conv, type(v).__name__))
                v = f(v)
            if isinstance(v, SymInt):
                if width == "*" or prec:
                    out.append(plain % concretize(v))
                    continue
                out.append(fmt_int(v, ("<" if "-" in flags and width else "") + ("+" if "+" in flags else " " if " " in flags else "")
                                   + ("#" if "#" in flags else "") + ("0" if "0" in flags and "-" not in flags else "") + width
                                   + ("d" if conv in "iu" else conv)))
                continue
            out.append(plain % v)
        elif conv in "sra":
            s = sx_str(v) if conv == "s" else repr(v)
            if not isinstance(s, str):
                s = str(s)
            if prec:
                s = s[:int(prec)]
            if width and width != "*":
                pad = " " * max(0, int(width) - text_len(s))
                s = s + pad if "-" in flags else pad + s
            out.append(s)
        elif conv == "c":
            out.append(sx_chr(v) if isinstance(v, SymInt) else plain % v)
        else:
            out.append(plain % float(v))
    out.append(a[i:])
    if n < len(args):
        raise TypeError("not all arguments converted during string formatting")
    return "".join(out)


def sx_join(sep, it):
    if isinstance(sep, (bytes, bytearray, SymBytes)):
        return join_bytes(sep, it)
    if isinstance(sep, str):
        it = list(it)
        return sep.join(FinVal.__str__(x) if isinstance(x, FinVal) else x for x in it)
    return sep.join(it)


def sx_mkdict(pairs):
    d = SymDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def sx_or0(x):
    """`x or 0`: for a symbolic integer this is x itself, no case split needed."""
    if isinstance(x, SymInt):
        return x
    return x or 0


# ------------------------------------------------------------------ module shims
class StructShim:
    SIZES = {"b": 1, "B": 1, "?": 1, "c": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8}

    def __getattr__(self, n):
        return getattr(_struct, n)

    error = _struct.error

    def _parse(self, fmt):
        if isinstance(fmt, FinVal):
            fmt = fmt.pick()
        if isinstance(fmt, bytes):
            fmt = fmt.decode()
        import re
        order, f = "@", fmt
        if f and f[0] in "@=<>!":
            order, f = f[0], f[1:]
        codes = []
        for m in re.finditer(r"\s*(\d*)([a-zA-Z?])", f):
            c = m.group(2)
            if c not in self.SIZES:
                return None
            size = _struct.calcsize(order + c)
            codes += [(c, size)] * (int(m.group(1)) if m.group(1) else 1)
        if order in "@" and len(codes) > 1:
            return None
        return ("big" if order in ">!" or (order in "@=" and sys.byteorder == "big") else "little"), codes

    def pack(self, fmt, *vals):
        fmt = self._fmt(fmt)
        if not any(is_sym(v) for v in vals):
            return _struct.pack(fmt, *vals)
        p = self._parse(fmt)
        if p is None:
            return _struct.pack(fmt, *[concretize(v) for v in vals])
        order, codes = p
        if len(codes) != len(vals):
            raise _struct.error("pack expected %d items for packing (got %d)" % (len(codes), len(vals)))
        out = []
        for (c, n), v in zip(codes, vals):
            if isinstance(v, SymBool):
                v = v._int()
            if not isinstance(v, (int, SymInt)):
                if not hasattr(type(v), "__index__"):
                    raise _struct.error("required argument is not an integer")
                v = type(v).__index__(v)
            signed = c.islower()
            lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
            if v < lo or v > hi:
                raise _struct.error("'%s' format requires %d <= number <= %d" % (c, lo, hi))
            el = [(v >> (8 * k)) & 0xff for k in range(n)]
            out += reversed(el) if order == "big" else el
        return mkbytes(out)

    def unpack(self, fmt, data):
        fmt = self._fmt(fmt)
        if not isinstance(data, SymBytes):
            return _struct.unpack(fmt, data)
        p = self._parse(fmt)
        if p is None:
            return _struct.unpack(fmt, data.conc())
        order, codes = p
        total = sum(n for _, n in codes)
        if len(data) != total:
            raise _struct.error("unpack requires a buffer of %d bytes" % total)
        out, i = [], 0
        for c, n in codes:
            out.append(_from_bytes(list(data.el[i:i + n]), order, c.islower()))
            i += n
        return tuple(out)

    def _fmt(self, fmt):
        return fmt.pick() if isinstance(fmt, FinVal) else fmt

    def pack_into(self, fmt, buf, offset, *vals):
        fmt, offset = self._fmt(fmt), concretize(offset)
        if not isinstance(buf, SymByteArray):
            return _struct.pack_into(fmt, buf, offset, *[concretize(v) for v in vals])
        n = _struct.calcsize(fmt)
        if offset < 0:
            offset += len(buf)
        if offset < 0 or offset + n > len(buf):
            raise _struct.error("pack_into requires a buffer of at least %d bytes" % (offset + n))
        buf[offset:offset + n] = self.pack(fmt, *vals)

    def unpack_from(self, fmt, buffer, offset=0):
        fmt, offset = self._fmt(fmt), concretize(offset)
        n = _struct.calcsize(fmt)
        if offset < 0:
            offset += len(buffer)
        if offset < 0 or offset + n > len(buffer):
            raise _struct.error("unpack_from requires a buffer of at least %d bytes" % (offset + n))
        return self.unpack(fmt, buffer[offset:offset + n])

    def calcsize(self, fmt):
        return _struct.calcsize(self._fmt(fmt))

    def iter_unpack(self, fmt, buffer):
        fmt = self._fmt(fmt)
        n = _struct.calcsize(fmt)
        if n == 0 or len(buffer) % n:
            raise _struct.error("iterative unpacking requires a buffer of a multiple of %d bytes" % n)
        return iter([self.unpack(fmt, buffer[i:i + n]) for i in range(0, len(buffer), n)])

    class Struct:
        def __init__(self, format):
            self._sh = SHIMS["struct"]
            self.format = self._sh._fmt(format)
            self.size = _struct.calcsize(self.format)

        def pack(self, *v):
            return self._sh.pack(self.format, *v)

        def pack_into(self, buffer, offset, *v):
            return self._sh.pack_into(self.format, buffer, offset, *v)

        def unpack(self, d):
            return self._sh.unpack(self.format, d)

        def unpack_from(self, buffer, offset=0):
            return self._sh.unpack_from(self.format, buffer, offset)

        def iter_unpack(self, d):
            return self._sh.iter_unpack(self.format, d)


class MathShim:
    def __getattr__(self, n):
        f = getattr(_math, n)
        if not callable(f):
            return f

        def g(*a):
            return f(*[concretize(x) if is_sym(x) else x for x in a])
        return g

    def _log(self, x, f):
        x = sx_int(x) if not isinstance(x, (float, SymFloat)) else x
        if isinstance(x, SymInt):
            if x <= 0:
                raise ValueError("math domain error")
            x = SymInt(x.t, max(x.lo, 1), x.hi)
            if x.lo == x.hi:
                return f(x.lo)
            return SymFloat(f, x)
        return f(x)

    def log(self, x, *base):
        base = [concretize(b) for b in base]
        return self._log(x, lambda v: _math.log(v, *base))

    def log2(self, x):
        return self._log(x, _math.log2)

    def log10(self, x):
        return self._log(x, _math.log10)

    def frexp(self, x):
        if isinstance(x, SymInt) and max(abs(x.lo), abs(x.hi)) < 1 << 53:
            return SymFloat.whole(lambda v: _math.frexp(v)[0], x), x.bit_length()
        return _math.frexp(concretize(x) if is_sym(x) else x)

    def gcd(self, *a):
        if len(a) == 2 and any(is_sym(x) for x in a):
            x, y = a if is_sym(a[0]) else (a[1], a[0])
            if not is_sym(y) and 0 < y <= 4096:
                r = 1
                for d in range(2, y + 1):
                    if y % d == 0:
                        r = eng.ite(x % d == 0, d, r)
                return r
        return _math.gcd(*[concretize(x) if is_sym(x) else x for x in a])

    def floor(self, x):
        return x.to_int(_math.floor) if isinstance(x, SymFloat) else x if is_sym(x) else _math.floor(x)

    def ceil(self, x):
        return x.to_int(_math.ceil) if isinstance(x, SymFloat) else x if is_sym(x) else _math.ceil(x)

    def trunc(self, x):
        return x.to_int(int) if isinstance(x, SymFloat) else x if is_sym(x) else _math.trunc(x)


class FunctoolsShim:
    """functools, dispatching on the type the program would see"""

    def __getattr__(self, n):
        import functools
        return getattr(functools, n)

    @staticmethod
    def _registry(d):
        import functools

        @functools.wraps(d)
        def register(cls, func=None):
            if func is None and isinstance(cls, type):
                return lambda f: register(cls, f)
            if func is None:
                f = cls
                ann = [v for k, v in getattr(f, "__annotations__", {}).items() if k != "return"]
                if not ann:
                    raise TypeError("Invalid first argument to `register()`")
                for c in (ann[0].__args__ if hasattr(ann[0], "__args__") else [ann[0]]):
                    register(c, f)
                return f
            d.register({v: k for k, v in NATIVE.items()}.get(cls, cls), func)
            return func
        return register

    def singledispatch(self, func):
        import functools
        d = functools.singledispatch(func)
        @functools.wraps(func)
        def wrapper(*a, **k):
            t = sx_type(a[0])
            return d.dispatch({v: k for k, v in NATIVE.items()}.get(t, t))(*a, **k)
        wrapper.register = self._registry(d)
        wrapper.dispatch = d.dispatch
        wrapper.registry = d.registry
        return wrapper

    def singledispatchmethod(self, func):
        return _DispatchMethod(self.singledispatch(func) if callable(func) else func)


class _DispatchMethod:
    def __init__(self, w):
        self.w = w
        self.register = w.register

    def __get__(self, obj, cls=None):
        def method(*a, **k):
            t = sx_type(a[0])
            f = self.w.dispatch({v: k for k, v in NATIVE.items()}.get(t, t))
            return f.__get__(obj, cls)(*a, **k)
        return method


NATIVE = {int: sx_int, bool: sx_bool, bytes: sx_bytes, bytearray: sx_bytearray, str: sx_str,
          frozenset: sx_frozenset, set: SymSet, range: sx_range}


class CodecsShim:
    def __getattr__(self, n):
        return getattr(codecs, n)

    def encode(self, o, encoding="utf-8", errors="strict"):
        if isinstance(o, str):
            return text.strcall(o, "encode", (encoding, errors), {})
        if isinstance(o, SymBytes) and encoding in ("hex", "hex_codec"):
            return text.strcall(o.hex(), "encode", ("ascii",), {})
        return codecs.encode(o.conc() if isinstance(o, SymBytes) else o, encoding, errors)

    def decode(self, o, encoding="utf-8", errors="strict"):
        if encoding in ("hex", "hex_codec"):
            return unhexlify(o)
        if isinstance(o, SymBytes):
            return o.decode(encoding, errors)
        return codecs.decode(o, encoding, errors)


def unhexlify(s):
    if isinstance(s, SymBytes):
        s = "".join(sx_chr(c) for c in s.el)
    if not (isinstance(s, str) and has_tok(s)):
        return binascii.unhexlify(s)
    s = text_opaque_conc(s)
    if len(s) % 2:
        raise binascii.Error("Odd-length string")
    if not all(text._inset(c, "0123456789abcdefABCDEF") for c in s):
        raise binascii.Error("Non-hexadecimal digit found")
    return sx_bytes.fromhex(s)


class BinasciiShim:
    def __getattr__(self, n):
        return getattr(binascii, n)

    unhexlify = a2b_hex = staticmethod(unhexlify)

    @staticmethod
    def hexlify(d, sep="", *a):
        if not isinstance(d, SymBytes):
            return binascii.hexlify(d, sep, *a) if sep else binascii.hexlify(d)
        return text.strcall(d.hex(sep, *a), "encode", ("ascii",), {})

    b2a_hex = hexlify


class OperatorShim:
    """operator, on what the program would see"""

    def __getattr__(self, n):
        import operator
        return getattr(operator, n)

    @staticmethod
    def index(x):
        return x._int() if isinstance(x, SymBool) else x if isinstance(x, SymInt) else operator.index(x)

    eq, ne, lt, le = staticmethod(text.cmp_eq), staticmethod(text.cmp_ne), staticmethod(text.cmp_lt), staticmethod(text.cmp_le)
    gt, ge, is_, is_not = staticmethod(text.cmp_gt), staticmethod(text.cmp_ge), staticmethod(text.cmp_is), staticmethod(text.cmp_isnot)
    mod = staticmethod(lambda a, b: sx_mod(a, b))
    getitem = staticmethod(lambda a, b: sx_getitem(a, b))
    setitem = staticmethod(lambda a, b, c: sx_setitem(a, b, c))
    contains = staticmethod(lambda a, b: text.cmp_in(b, a))
    truth = staticmethod(lambda a: sx_bool(a))
    not_ = staticmethod(lambda a: eng.b_not(sx_bool(a)))


class CtypesShim:
    """ctypes: integers of a fixed width"""

    def __init__(self):
        import ctypes
        self._m = ctypes
        for n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "byte", "ubyte", "short", "ushort",
                  "int", "uint", "long", "ulong", "longlong", "ulonglong", "size_t", "ssize_t"):
            c = getattr(ctypes, "c_" + n)
            setattr(self, "c_" + n, self._make(c, 8 * ctypes.sizeof(c), c(-1).value < 0))

    @staticmethod
    def _make(c, bits, signed):
        def make(x=0):
            if not isinstance(x, (SymInt, SymBool)):
                return c(x)
            return _Wrapped(x, bits, signed)
        return make

    def __getattr__(self, n):
        return getattr(self._m, n)


class _Wrapped:
    def __init__(self, x, bits, signed):
        self.bits, self.signed = bits, signed
        self.value = x

    def __setattr__(self, n, x):
        if n == "value":
            x = x & ((1 << self.bits) - 1)
            if self.signed:
                x = (x ^ (1 << (self.bits - 1))) - (1 << (self.bits - 1))
        object.__setattr__(self, n, x)

    def __bool__(self):
        return bool(self.value != 0)


def _enum_call(orig):
    def call(cls, value, *a, **k):
        return orig(cls, concretize(value) if isinstance(value, (SymInt, SymBool)) else value, *a, **k)
    return call


enum.EnumType.__call__ = _enum_call(enum.EnumType.__call__)
numbers.Integral.register(SymInt)
from .files import IoShim                                                     # noqa: E402

SHIMS = {"io": IoShim(), "struct": StructShim(), "math": MathShim(), "re": ReShim(), "functools": FunctoolsShim(),
         "codecs": CodecsShim(), "binascii": BinasciiShim(), "operator": OperatorShim(), "ctypes": CtypesShim()}


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in SHIMS:
        return SHIMS[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


OPEN_HOOK = [None]


def sx_open(*a, **k):
    if OPEN_HOOK[0] is not None:
        return OPEN_HOOK[0](*a, **k)
    return open(*a, **k)


def make_builtins():
    d = dict(builtins.__dict__)
    d.update({
        "int": sx_int, "str": sx_str, "bytes": sx_bytes, "bytearray": sx_bytearray, "len": sx_len, "range": sx_range,
        "hash": sx_hash, "hex": sx_hex, "bin": sx_bin, "oct": sx_oct, "chr": sx_chr, "ord": sx_ord, "print": sx_print,
        "dict": SymDict, "set": SymSet, "frozenset": sx_frozenset, "bool": sx_bool, "memoryview": sx_memoryview, "__import__": sx_import,
        "open": sx_open,
        "__sx_getitem__": sx_getitem, "__sx_setitem__": sx_setitem, "__sx_augitem__": sx_augitem,
        "__sx_mod__": sx_mod, "__sx_join__": sx_join, "__sx_mkdict__": sx_mkdict, "__sx_set__": SymSet, "__sx_or0__": sx_or0,
        "__sx_eq__": text.cmp_eq, "__sx_ne__": text.cmp_ne, "__sx_in__": text.cmp_in,
        "__sx_notin__": text.cmp_notin, "__sx_lt__": text.cmp_lt, "__sx_le__": text.cmp_le,
        "__sx_gt__": text.cmp_gt, "__sx_ge__": text.cmp_ge, "__sx_is__": text.cmp_is, "__sx_isnot__": text.cmp_isnot,
        "sorted": sx_sorted, "min": sx_min, "max": sx_max,
        "__sx_slice__": slice, "__sx_truth__": sx_truth, "__sx_hashval__": sx_hashval,
        "__sx_type__": sx_type, "__sx_base_int__": int, "__sx_base_str__": str, "__sx_base_bytes__": bytes,
        "__sx_strcall__": lambda o, n, *a, **k: text.strcall(o, n, a, k),
    })
    return d


# ------------------------------------------------------------------ source transform
class T(ast.NodeTransformer):
    def call(self, name, args, node):
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), args, []), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        el = []
        for k, v in zip(node.keys, node.values):
            el.append(ast.Tuple([v] if k is None else [k, v], ast.Load()))
        return self.call("__sx_mkdict__", [ast.List(el, ast.Load())], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return self.call("__sx_mkdict__", [lc], node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.call("__sx_set__", [ast.List(node.elts, ast.Load())], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.call("__sx_set__", [ast.ListComp(node.elt, node.generators)], node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and isinstance(node.slice, ast.Slice):
            parts = [x or ast.copy_location(ast.Constant(None), node)
                     for x in (node.slice.lower, node.slice.upper, node.slice.step)]
            return self.call("__sx_getitem__", [node.value, self.call("__sx_slice__", parts, node)], node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Tuple):
            return self.call("__sx_getitem__", [node.value, node.slice], node)
        return node

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        h = {"__bool__": "__sx_truth__", "__hash__": "__sx_hashval__"}.get(node.name)
        if h:
            for r in ast.walk(node):
                if isinstance(r, ast.Return) and r.value is not None:
                    r.value = self.call(h, [r.value], r)
        return node

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                and not isinstance(node.targets[0].slice, (ast.Slice, ast.Tuple)):
            t = node.targets[0]
            val = self.visit(node.value)
            o, k = self.visit(t.value), self.visit(t.slice)
            # Python evaluates the value before the target; helper args keep that order
            c = ast.Call(ast.Name("__sx_setitem_v__", ast.Load()), [val, o, k], [])
            return ast.copy_location(ast.Expr(ast.copy_location(c, node)), node)
        self.generic_visit(node)
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript) and not isinstance(node.target.slice, (ast.Slice, ast.Tuple)):
            t = node.target
            o, k, v = self.visit(t.value), self.visit(t.slice), self.visit(node.value)
            c = self.call("__sx_augitem__", [o, k, ast.Constant(type(node.op).__name__), v], node)
            return ast.copy_location(ast.Expr(c), node)
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign([ast.Name(node.target.id, ast.Store())], self.call(
                "__sx_mod__", [ast.Name(node.target.id, ast.Load()), node.value], node)), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.call("__sx_mod__", [node.left, node.right], node)
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Or) and len(node.values) == 2 \
                and isinstance(node.values[1], ast.Constant) and type(node.values[1].value) is int \
                and node.values[1].value == 0:
            return self.call("__sx_or0__", [node.values[0]], node)
        return node

    CMP = {ast.Eq: "__sx_eq__", ast.NotEq: "__sx_ne__", ast.In: "__sx_in__", ast.NotIn: "__sx_notin__",
           ast.Lt: "__sx_lt__", ast.LtE: "__sx_le__", ast.Gt: "__sx_gt__", ast.GtE: "__sx_ge__"}

    def compare(self, left, op, right, node):
        h = self.CMP.get(type(op))
        if h is None and isinstance(right, ast.Constant) and isinstance(right.value, bool):
            h = {ast.Is: "__sx_is__", ast.IsNot: "__sx_isnot__"}.get(type(op))
        if h is None:
            return ast.copy_location(ast.Compare(left, [op], [right]), node)
        return self.call(h, [left, right], node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            return self.compare(node.left, node.ops[0], node.comparators[0], node)
        # a < b < c: the operands between may be evaluated twice only where that is harmless
        if all(isinstance(c, (ast.Name, ast.Constant)) for c in node.comparators[:-1]):
            ls = [node.left] + node.comparators[:-1]
            return ast.copy_location(ast.BoolOp(ast.And(), [
                self.compare(a, op, b, node) for a, op, b in zip(ls, node.ops, node.comparators)]), node)
        return node

    def visit_match_case(self, node):
        """Value patterns compare with == inside the interpreter: texts need a comparison of ours."""
        guards = []

        def conv(p):
            if isinstance(p, ast.MatchValue) and isinstance(p.value, ast.Constant) \
                    and isinstance(p.value.value, (str, bytes)):
                return [p.value]
            if isinstance(p, ast.MatchOr):
                vs = [conv(q) for q in p.patterns]
                if all(v is not None for v in vs):
                    return [x for v in vs for x in v]
            return None

        def walk(p):
            vals = conv(p)
            if vals is not None:
                self.tmp = getattr(self, "tmp", 0) + 1
                n = "__sx_m%d__" % self.tmp
                cs = [self.call("__sx_eq__", [ast.Name(n, ast.Load()), v], v) for v in vals]
                guards.append(cs[0] if len(cs) == 1 else ast.copy_location(ast.BoolOp(ast.Or(), cs), p))
                return ast.copy_location(ast.MatchAs(None, n), p)
            if isinstance(p, ast.MatchAs) and p.pattern is not None:
                p.pattern = walk(p.pattern)
            elif isinstance(p, ast.MatchSequence):
                p.patterns = [walk(q) for q in p.patterns]
            elif isinstance(p, ast.MatchMapping):
                p.patterns = [walk(q) for q in p.patterns]
            elif isinstance(p, ast.MatchClass):
                p.patterns = [walk(q) for q in p.patterns]
                p.kwd_patterns = [walk(q) for q in p.kwd_patterns]
                if isinstance(p.cls, ast.Name) and p.cls.id in ("int", "str", "bytes", "bool", "bytearray", "dict",
                                                                "set", "frozenset", "float", "list", "tuple") \
                        and len(p.patterns) == 1 and not p.kwd_patterns and isinstance(p.patterns[0], ast.MatchAs) \
                        and p.patterns[0].pattern is None:
                    n = p.patterns[0].name
                    p.patterns = []
                    return ast.copy_location(ast.MatchAs(p, n), p) if n else p
            return p
        node.pattern = walk(node.pattern)
        self.generic_visit(node)
        if guards:
            gs = guards + ([node.guard] if node.guard is not None else [])
            node.guard = gs[0] if len(gs) == 1 else ast.copy_location(ast.BoolOp(ast.And(), gs), node.pattern)
        return node

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        for b in node.bases:
            if isinstance(b, ast.Name) and b.id in ("int", "str", "bytes"):
                b.id = "__sx_base_%s__" % b.id
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == "__class__" and isinstance(node.ctx, ast.Load):
            return self.call("__sx_type__", [node.value], node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id == "type" and len(node.args) == 1 and not node.keywords \
                and not isinstance(node.args[0], ast.Starred):
            return self.call("__sx_type__", node.args, node)
        if isinstance(f, ast.Attribute) and f.attr in text.NAMES \
                and not any(isinstance(a, ast.Starred) for a in node.args) \
                and not any(k.arg is None for k in node.keywords):
            c = ast.Call(ast.Name("__sx_strcall__", ast.Load()),
                         [f.value, ast.Constant(f.attr)] + node.args, node.keywords)
            return ast.copy_location(c, node)
        if isinstance(f, ast.Attribute) and f.attr == "join" and len(node.args) == 1 and not node.keywords \
                and not isinstance(node.args[0], ast.Starred):
            return self.call("__sx_join__", [f.value, node.args[0]], node)
        return node


def transform(src, path):
    tree = ast.parse(src, path)
    tree = T().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path, bi):
        self.path, self.bi = path, bi

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        module.__dict__["__builtins__"] = self.bi
        module.__file__ = self.path
        exec(transform(src, self.path), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, package):
        self.root, self.package = root, package
        self.bi = make_builtins()
        self.bi["__sx_setitem_v__"] = lambda v, o, k: sx_setitem(o, k, v)
        self.loaded = []

    def find_spec(self, name, path=None, target=None):
        if name != self.package and not name.startswith(self.package + "."):
            return None
        base = os.path.join(self.root, *name.split("."))
        if os.path.isdir(base):
            p = os.path.join(base, "__init__.py")
            if not os.path.exists(p):
                return None
            self.loaded.append(p)
            spec = importlib.machinery.ModuleSpec(name, Loader(p, self.bi), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        p = base + ".py"
        if os.path.exists(p):
            self.loaded.append(p)
            return importlib.machinery.ModuleSpec(name, Loader(p, self.bi), origin=p)
        return None


# ------------------------------------------------------------------ module state snapshot
class Snapshot:
    """Mutable state reachable from module globals and class bodies, restored before every path."""

    def __init__(self, package):
        self.mods = [m for n, m in sorted(sys.modules.items())
                     if n == package or n.startswith(package + ".")]
        self.slots, self.seen = [], set()
        for m in self.mods:
            self._ns(m, m.__dict__, setattr, package)

    def _ns(self, owner, d, setter, package):
        keep = {}
        for k, v in list(d.items()):
            if k.startswith("__") and k.endswith("__"):
                continue
            keep[k] = v
            self._cont(v)
            if isinstance(v, type) and getattr(v, "__module__", "").split(".")[0] == package \
                    and id(v) not in self.seen:
                self.seen.add(id(v))
                self._ns(v, v.__dict__, setattr, package)
            elif isinstance(v, types.FunctionType):
                for dv in (v.__defaults__ or ()):
                    self._cont(dv)
        self.slots.append(("ns", owner, keep))

    def _cont(self, v):
        if id(v) in self.seen:
            return
        if isinstance(v, SymDict):
            self.seen.add(id(v))
            self.slots.append(["sd", v, dict(v), v.mut])
        elif type(v) is list:
            self.seen.add(id(v))
            self.slots.append(("l", v, list(v)))
        elif isinstance(v, SymSet):
            self.seen.add(id(v))
            self.slots.append(("s", v, list(v.el)))

    def restore(self):
        for s in self.slots:
            if s[0] == "sd":
                d = s[1]
                if d.mut != s[3] or d.ov:
                    dict.clear(d)
                    dict.update(d, s[2])
                    del d.ov[:]
                    d.mut += 1
                    s[3] = d.mut
                    d.tab = None
            elif s[0] == "l":
                if len(s[1]) != len(s[2]) or any(a is not b for a, b in zip(s[1], s[2])):
                    s[1][:] = s[2]
            elif s[0] == "s":
                s[1].el = list(s[2])
            else:
                owner, keep = s[1], s[2]
                cur = owner.__dict__
                for k in [k for k in cur if not (k.startswith("__") and k.endswith("__")) and k not in keep]:
                    if isinstance(cur[k], types.ModuleType):
                        keep[k] = cur[k]
                    else:
                        delattr(owner, k)
                for k, v in keep.items():
                    if cur.get(k) is not v:
                        setattr(owner, k, v)


def install(root="/repo", package="hrdc"):
    for n in [n for n in sys.modules if n == package or n.startswith(package + ".")]:
        del sys.modules[n]
    f = Finder(root, package)
    sys.meta_path.insert(0, f)
    return f


def import_all(root="/repo", package="hrdc", skip=("hrdc.usage.arcade",)):
    import pkgutil
    pkg = importlib.import_module(package)
    for m in pkgutil.walk_packages([os.path.join(root, package)], package + "."):
        if m.name not in skip:
            importlib.import_module(m.name)
    return pkg
