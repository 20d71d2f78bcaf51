"""In-memory files and byte strings whose bytes may be symbolic."""
from __future__ import annotations

import io
import posixpath

from . import ir
from .ir import Node, State, Unsupported, const


class SymBytes:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    @staticmethod
    def make(items):
        items = [int(b.val) if isinstance(b, Node) and b.op == "const" else b for b in items]
        if all(isinstance(b, int) for b in items):
            return bytes(items)
        return SymBytes(items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[v.__index__() if isinstance(v, Node) else v for v in (i.start, i.stop, i.step)])
            return SymBytes.make(self.items[i])
        return self.items[i.__index__() if isinstance(i, Node) else i]

    def __iter__(self):
        return iter(self.items)

    def __add__(self, o):
        return SymBytes.make(list(self.items) + list(raw_items(o)))

    def __radd__(self, o):
        return SymBytes.make(list(raw_items(o)) + list(self.items))

    def __eq__(self, o):
        if not isinstance(o, (bytes, SymBytes, bytearray)):
            return False
        a, b = list(self.items), list(raw_items(o))
        if len(a) != len(b):
            return False
        return ir.land(*[_beq(x, y) for x, y in zip(a, b)])

    def __ne__(self, o):
        return ir.lnot(const(self == o))

    __hash__ = None

    def find(self, pat, start=0, end=None):
        items = self.items
        end = len(items) if end is None else end
        pat = list(pat)
        for p in range(start, end - len(pat) + 1):
            ok = True
            syms = []
            for k, c in enumerate(pat):
                b = items[p + k]
                if isinstance(b, Node):
                    syms.append(_beq(b, c))
                elif b != c:
                    ok = False
                    break
            if not ok:
                continue
            if not syms or bool(ir.land(*syms)):
                return p
        return -1

    def index(self, pat, *a):
        r = self.find(pat, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def __contains__(self, pat):
        return self.find(pat) >= 0

    def startswith(self, pat):
        if isinstance(pat, tuple):
            return any(self.startswith(p) for p in pat)
        return bool(const(self[:len(pat)] == pat))

    def partition(self, pat):
        p = self.find(pat)
        if p < 0:
            return self, b"", b""
        return self[:p], pat, self[p + len(pat):]

    def split(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit == 0:
            raise Unsupported("split of symbolic bytes")
        out = []
        rest = self
        while maxsplit != 0:
            p = rest.find(sep)
            if p < 0:
                break
            out.append(rest[:p])
            rest = rest[p + len(sep):]
            maxsplit -= 1
        out.append(rest)
        return out

    def decode(self, *a, **k):
        raise Unsupported("decode of symbolic bytes")

    def tobytes(self):
        return self

    def __repr__(self):
        return f"SymBytes[{len(self.items)}]"


class SymByteArray(SymBytes):
    """bytearray"""
    __slots__ = ("shared",)

    def __init__(self, items=()):
        self.items = list(items)
        self.shared = False           # an array looks at it

    def _change(self):
        if self.shared or State.guards:
            raise Unsupported("change of a bytearray that is shared with an array")

    def __setitem__(self, i, v):
        self._change()
        if isinstance(i, slice):
            self.items[slice(*[x.__index__() if isinstance(x, Node) else x for x in (i.start, i.stop, i.step)])] = list(raw_items(v))
        else:
            self.items[i.__index__() if isinstance(i, Node) else i] = v

    def __delitem__(self, i):
        self._change()
        del self.items[i]

    def __iadd__(self, o):
        self.extend(raw_items(o))
        return self

    def extend(self, o):
        self._change()
        self.items.extend(raw_items(o) if isinstance(o, (SymBytes, bytes, bytearray)) else o)

    def append(self, v):
        self._change()
        self.items.append(v)

    def clear(self):
        self._change()
        self.items.clear()

    def copy(self):
        return SymByteArray(self.items)

    def tobytes(self):
        return SymBytes.make(self.items)

    def __getattr__(self, n):
        # everything else as on bytes
        return getattr(SymBytes.make(self.items), n)

    def decode(self, *a, **k):
        return SymBytes.make(self.items).decode(*a, **k) if all(isinstance(b, int) for b in self.items) else SymBytes.decode(self)

    def split(self, *a):
        b = SymBytes.make(self.items)
        return b.split(*a)

    def __bytes__(self):
        b = SymBytes.make(self.items)
        if not isinstance(b, bytes):
            raise Unsupported("bytes of symbolic bytes")
        return b

    def __reduce__(self):
        raise Unsupported("pickle")


def _beq(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return const(x == y)
    return ir.eqbits(x if isinstance(x, Node) else const(x, "u8"), y if isinstance(y, Node) else const(y, "u8"))


def raw_items(o):
    if isinstance(o, SymBytes):
        return o.items
    import numpy as np
    if isinstance(o, np.ndarray):
        from .npshim import as_sym
        o = as_sym(o).tobytes()
        return raw_items(o)
    if isinstance(o, memoryview):
        o = bytes(o)
    if isinstance(o, (bytes, bytearray)):
        return o
    raise TypeError(f"a bytes-like object is required, not '{type(o).__name__}'")


class SymFile:
    """binary file handle"""

    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode = fs, path, mode
        self.name = path
        self.closed = False
        self.pos = 0
        if "r" in mode:
            if path not in fs.files:
                raise FileNotFoundError(2, "No such file or directory", path)
            self.buf = fs.files[path] if "+" not in mode else list(fs.files[path])
        elif "a" in mode:
            self.buf = list(fs.files.get(path, []))
            self.pos = len(self.buf)
        else:
            if not fs.isdir(posixpath.dirname(path)):
                raise FileNotFoundError(2, "No such file or directory", path)
            self.buf = []
            fs.files[path] = self.buf
        self.writing = any(c in mode for c in "wa+x")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def readable(self):
        return True

    def seekable(self):
        return True

    def writable(self):
        return self.writing

    def _n(self, n):
        if isinstance(n, Node):
            rem = len(self.buf) - self.pos
            if bool(n >= rem):
                return rem
            if bool(n < 0):
                return -1
            return n.__index__()
        return n

    def read_raw(self, n=-1):
        n = self._n(-1 if n is None else n)
        if n < 0:
            n = max(0, len(self.buf) - self.pos)
        r = self.buf[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def read(self, n=-1):
        return SymBytes.make(self.read_raw(n))

    def readinto(self, b):
        if not isinstance(b, SymByteArray):
            raise Unsupported("readinto")
        r = self.read_raw(len(b))
        b[0:len(r)] = SymBytes(list(r))
        return len(r)

    def readline(self, limit=-1):
        out = []
        while self.pos < len(self.buf):
            b = self.buf[self.pos]
            self.pos += 1
            out.append(b)
            if isinstance(b, Node):
                if bool(_beq(b, 10)):
                    break
            elif b == 10:
                break
            if 0 <= limit <= len(out):
                break
        State.steps = getattr(State, "steps", 0) + 1
        if State.steps > State.step_limit:
            raise StepLimit()
        return SymBytes.make(out)

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if len(l) == 0:
                return
            yield l

    def seek(self, off, whence=0):
        off = off.__index__() if isinstance(off, Node) else off
        base = {0: 0, 1: self.pos, 2: len(self.buf)}[whence]
        if base + off < 0:
            raise OSError(22, "Invalid argument")
        self.pos = base + off
        return self.pos

    def tell(self):
        return self.pos

    def write(self, data):
        if State.guards:
            raise Unsupported("file write under guard")
        items = list(raw_items(data))
        if self.pos < len(self.buf):
            self.buf[self.pos:self.pos + len(items)] = items
        else:
            self.buf.extend([0] * (self.pos - len(self.buf)))
            self.buf.extend(items)
        self.pos += len(items)
        if "+" in self.mode or "a" in self.mode:
            self.fs.files[self.path] = self.buf
        return len(items)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def truncate(self, n=None):
        del self.buf[self.pos if n is None else n:]


class SymBytesIO(SymFile):
    def __init__(self, data=b""):
        self.buf = list(raw_items(data))
        self.pos = 0
        self.mode = "r+"
        self.closed = False
        self.writing = True
        self.fs = _Null()
        self.path = "<bytesio>"
        self.name = self.path

    def getvalue(self):
        return SymBytes.make(list(self.buf))

    def getbuffer(self):
        return self.getvalue()


class _Null:
    files: dict = {}


class StepLimit(BaseException):
    """unbounded loop while scanning input"""


State.step_limit = 5000
State.steps = 0
ROOT = "/symfs"


class _FS:
    def __init__(self):
        self.reset()

    def reset(self):
        self.files = {}
        self.dirs = {ROOT}

    def isdir(self, p):
        return p.rstrip("/") in self.dirs or p == ""

    def open(self, path, mode="r", *a, **k):
        path = str(path)
        if not path.startswith(ROOT):
            raise Unsupported(f"file access outside scratch: {path}")
        if "b" not in mode:
            raise Unsupported("text mode open")
        if "x" in mode and path in self.files:
            raise FileExistsError(17, "File exists", path)
        return SymFile(self, path, mode)

    def write(self, path, data):
        with self.open(path, "wb") as f:
            f.write(data)

    def content(self, path):
        return SymBytes.make(list(self.files[str(path)]))

    def path_method(self, p, name, args, kw):
        s = str(p)
        if name == "exists":
            return s in self.files or s in self.dirs
        if name == "is_file":
            return s in self.files
        if name == "is_dir":
            return s in self.dirs
        if name == "open":
            return self.open(s, *(args or (kw.get("mode", "r"),)))
        if name == "read_bytes":
            with self.open(s, "rb") as f:
                return f.read()
        if name == "write_bytes":
            self.write(s, args[0])
            return len(list(raw_items(args[0])))
        if name == "mkdir":
            self.dirs.add(s)
            return None
        if name == "stat":
            if s not in self.files:
                raise FileNotFoundError(2, "No such file or directory", s)
            import types
            return types.SimpleNamespace(st_size=len(self.files[s]))
        if name == "unlink":
            if s in self.files:
                del self.files[s]
                return None
            if kw.get("missing_ok"):
                return None
            raise FileNotFoundError(2, "No such file or directory", s)
        if name in ("resolve", "absolute", "expanduser"):
            return p
        if name in ("rename", "replace"):
            self.files[str(args[0])] = self.files.pop(s)
            return args[0]
        return NotImplemented


FS = _FS()
