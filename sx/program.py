"""Runs a module of the package as a program (python -m), files and streams replaced by in-memory ones."""
import sys, os, io, builtins
from .files import to_text, to_bytes, bytes_of, Reader

_CODE = {}


def run_module(name):
    mod = sys.modules[name]
    loader = getattr(mod.__spec__, "loader", None)
    if hasattr(loader, "bi"):
        from .loader import transform
        code = _CODE.get(name)
        if code is None:
            with open(loader.path, "rb") as f:
                code = _CODE[name] = transform(f.read(), loader.path)
        g = {"__name__": "__main__", "__package__": name.rpartition(".")[0], "__file__": loader.path, "__spec__": mod.__spec__,
             "__builtins__": loader.bi, "__doc__": None}
        exec(code, g)
    else:
        import runpy, warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_module(name, run_name="__main__")


class Mixed(Exception):
    """Text and bytes written to one file"""


class File(Reader):
    """A file by name, or a standard stream: text with a byte layer below."""

    def __init__(self, name, data=None):
        self.name, self.data, self.parts, self.wrote = name, data, [], None
        self.buffer = Bytes(self)

    def put(self, kind, d):
        if self.wrote not in (None, kind):
            raise Mixed(self.name)
        self.wrote = kind
        self.parts.append(d)

    def rest(self):
        if self.data is None:
            raise io.UnsupportedOperation("not readable")
        return self.data if isinstance(self.data, str) else to_text(self.data)

    def keep(self, d):
        self.data = d

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        self.put("text", s)
        return len(s)

    def content(self):
        if self.wrote == "bytes":
            r = b""
            for p in self.parts:
                r = r + p
            return r
        return "".join(self.parts)

    def readable(self):
        return self.data is not None

    def writable(self):
        return self.data is None


class Bytes(Reader):
    """The byte layer of a file."""
    mode = "rb"

    def __init__(self, f):
        self.f = f

    def rest(self):
        d = self.f.data
        if d is None:
            raise io.UnsupportedOperation("not readable")
        return to_bytes(d) if isinstance(d, str) else d

    def keep(self, d):
        self.f.data = d

    def write(self, d):
        if isinstance(d, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        self.f.put("bytes", bytes_of(d))
        return len(d)

    def readable(self):
        return self.f.readable()

    def writable(self):
        return self.f.writable()


def run(what, argv, stdin=None, files=None):
    """Runs what (a module name or a function) with these arguments.  files: contents of input files by name.
    Returns (status, output files by name, standard output)."""
    files = files or {}
    outs = {}
    real, realio = builtins.open, io.open
    prefix = "/dev/null/"           # nothing can be there

    def fake(name, mode="r", *a, **k):
        if hasattr(name, "__fspath__"):
            name = os.fspath(name)
        if not (isinstance(name, str) and name.startswith(prefix)):
            if isinstance(name, int) or os.path.isabs(name) and not any(m in mode for m in "wxa+"):
                return real(name, mode, *a, **k)
            short = str(name)       # nothing is written, or read from where the program runs
        else:
            short = name[len(prefix):]
        if "w" in mode or "x" in mode:
            f = outs[short] = File(short)
        elif short in files:
            f = File(short, files[short])
        else:
            raise FileNotFoundError(2, "No such file or directory", name)
        return f.buffer if "b" in mode else f

    saved = sys.argv, sys.stdin, sys.stdout, sys.stderr
    out = File("stdout")
    sys.argv = ["prog"] + [prefix + x[1:] if x.startswith("@") else x for x in argv]
    sys.stdin = File("stdin", b"" if stdin is None else stdin)
    sys.stdout, sys.stderr = out, File("stderr")
    builtins.open = io.open = fake
    status = 0
    try:
        run_module(what) if isinstance(what, str) else what()
    except SystemExit as e:
        status = 0 if e.code in (None, 0) else 1
    finally:
        builtins.open, io.open = real, realio
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved
    return status, outs, out
