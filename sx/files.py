"""In-memory stand-ins for files (text layer over a byte layer), symbolic contents allowed."""
from .engine import SymInt, concretize
from .values import text_len, chr_tok, has_tok, is_tok, tok, mkbytes, text_opaque_conc


def to_text(data):
    """UTF-8 decoding restricted to ASCII; any other byte is a decoding error."""
    out = []
    for b in data:
        if isinstance(b, SymInt):
            if b >= 128:
                raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid start byte")
            b = SymInt(b.t, max(b.lo, 0), min(b.hi, 127))
            out.append(chr_tok(b))
        else:
            if b >= 128:
                raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid start byte")
            out.append(chr(b))
    return "".join(out)


def to_bytes(text):
    if not isinstance(text, str):
        raise TypeError("write() argument must be str, not bytes")
    out = []
    for c in text_opaque_conc(text) if has_tok(text) else text:
        out.append(tok(c)[1] if is_tok(c) else ord(c))
    return mkbytes(out)


class Reader:
    """What files have in common.  take(n): the next n characters or bytes, all of the rest for n < 0."""
    encoding, errors, newlines = "utf-8", "strict", None
    name, mode = "file", "r"
    closed = False
    nl = "\n"

    def rest(self):
        """What is left to be read"""
        raise NotImplementedError

    def keep(self, d):
        """d is left to be read"""
        raise NotImplementedError

    def read(self, n=-1):
        d = self.rest()
        if n is None or n < 0:
            self.keep(d[:0])
            return d
        if isinstance(d, str) and has_tok(d):
            d = text_opaque_conc(d)
        self.keep(d[n:])
        return d[:n]

    read1 = read

    def readline(self, n=-1):
        d = self.rest()
        if isinstance(d, str) and has_tok(d):
            d = text_opaque_conc(d)
        k = 0
        while k < len(d) and (n is None or n < 0 or k < n):
            c = d[k]
            k += 1
            if isinstance(d, str) and is_tok(c):
                if tok(c)[1] == 10:
                    break
            elif c in (10, "\n") if not isinstance(c, SymInt) else c == 10:
                break
        self.keep(d[k:])
        return d[:k]

    def readlines(self, hint=-1):
        out = []
        while len(self.rest()):
            out.append(self.readline())
        return out

    def __iter__(self):
        return self

    def __next__(self):
        l = self.readline()
        if not len(l):
            raise StopIteration
        return l

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def readable(self):
        return True

    writable = readable

    def seekable(self):
        return False

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def fileno(self):
        raise OSError("no descriptor")

    def isatty(self):
        return False


class Str(Reader):
    """Plain text sink/source without a byte layer (like io.StringIO); keeps whole-number tokens intact."""

    def __init__(self, text=""):
        self.text = text

    def rest(self):
        return self.text

    def keep(self, d):
        self.text = d

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("string argument expected, got '%s'" % type(s).__name__)
        self.text = self.text + s
        return len(s)

    def getvalue(self):
        return self.text


class Blob(Reader):
    """Plain byte sink/source (like io.BytesIO)."""
    mode = "rb"

    def __init__(self, data=b""):
        self.data = data

    def rest(self):
        return self.data

    def keep(self, d):
        self.data = d

    def write(self, d):
        if isinstance(d, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        self.data = self.data + bytes_of(d)
        return len(d)

    def getvalue(self):
        return self.data


def bytes_of(d):
    return bytes(d) if isinstance(d, (bytearray, memoryview)) else d


def mem(fmt, content=None):
    if fmt == "binary":
        return Blob(b"" if content is None else content)
    return Str("" if content is None else content)


def content(f):
    return f.data if isinstance(f, Blob) else f.text


# ------------------------------------------------------------------ the io module
class _Mem(Reader):
    """done: what lies before the position, left: what lies after it"""

    def __init__(self, initial=None, newline=None, initial_bytes=None, initial_value=None):
        for v in (initial_bytes, initial_value):
            if v is not None:
                initial = v
        self.done = self.left = self.empty
        if initial is not None:
            self.left = self.accept(initial)

    def rest(self):
        return self.left

    def keep(self, d):
        n = len(self.left) - len(d)
        self.done = self.done + self.left[:n]
        self.left = d

    def read(self, n=-1):
        self._expand()
        return Reader.read(self, n)

    read1 = read

    def readline(self, n=-1):
        self._expand()
        return Reader.readline(self, n)

    def peek(self, n=0):
        return self.left

    def _expand(self):
        pass

    def write(self, s):
        s = self.accept(s)
        if len(self.left):
            self._expand()
        self.done = self.done + s
        self.left = self.left[self.size(s):]
        return self.size(s)

    def size(self, s):
        return len(s)

    def getvalue(self):
        return self.done + self.left

    getbuffer = getvalue

    def seekable(self):
        return True

    def tell(self):
        return self.size(self.done)

    def seek(self, p, whence=0):
        p = concretize(p)
        self._expand()
        w = self.done + self.left
        p = p if whence == 0 else len(self.done) + p if whence == 1 else len(w) + p
        if p > len(w):
            w = w + self.pad * (p - len(w))
        self.done, self.left = w[:p], w[p:]
        return p

    def truncate(self, p=None):
        if p is None:
            self.left = self.left[:0]
        else:
            q = self.tell()
            w = (self.done + self.left)[:p]
            self.done, self.left = w[:q], w[q:]
        return self.size(self.done + self.left)


class StringIO(_Mem):
    empty, pad = "", "\0"

    def accept(self, s):
        if not isinstance(s, str):
            raise TypeError("string argument expected, got '%s'" % type(s).__name__)
        return s

    def _expand(self):
        self.done, self.left = text_opaque_conc(self.done), text_opaque_conc(self.left)

    def size(self, s):
        return text_len(s)


class BytesIO(_Mem):
    mode = "rb"
    empty, pad = b"", b"\0"

    def accept(self, d):
        if isinstance(d, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        return mkbytes(list(bytes_of(d)))


class BufferedReader(BytesIO):
    def __init__(self, raw, buffer_size=8192):
        BytesIO.__init__(self, raw.read())


class TextIOWrapper(StringIO):
    def __init__(self, buffer, encoding=None, errors=None, newline=None, line_buffering=False, write_through=False):
        StringIO.__init__(self)
        self.buffer = buffer
        self.started = False

    def rest(self):
        if not self.started:
            self.started = True
            self.left = to_text(self.buffer.read())
        return self.left

    def read(self, n=-1):
        self.rest()
        return StringIO.read(self, n)

    def readline(self, n=-1):
        self.rest()
        return StringIO.readline(self, n)

    def write(self, s):
        self.buffer.write(to_bytes(s))
        return text_len(s)


class IoShim:
    StringIO, BytesIO, BufferedReader, TextIOWrapper = StringIO, BytesIO, BufferedReader, TextIOWrapper

    def __getattr__(self, n):
        import io
        return getattr(io, n)
