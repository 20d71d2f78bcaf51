"""imagecodecs / json / zipfile stand-ins.

Images are looked up by their (opaque) encoded bytes; a JSON number literal
minted by `literal` parses to the symbolic number it stands for; zip archives
are real archives of concrete bytes."""
import io
import json
import types
import zipfile

from . import ir

IMAGES = {}
NUMBERS = {}


def reset():
    IMAGES.clear()
    NUMBERS.clear()


def image(a):
    tok = b"RIFF\x00\x00\x00\x00WEBPVP8L#%d#" % len(IMAGES)
    IMAGES[tok] = a.copy()
    return tok


def literal(node):
    lit = "7.25e-30%07d" % len(NUMBERS)
    NUMBERS[lit] = node
    return lit


class DecodeError(RuntimeError):
    pass


class _IC(types.ModuleType):
    def __init__(self):
        super().__init__("imagecodecs")
        self.WebpError = DecodeError

    def webp_decode(self, data, *a, **k):
        if a or k:
            raise ir.Unsupported("webp_decode options")
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise ir.Unsupported("symbolic image file")
        key = bytes(data)
        if key not in IMAGES:
            raise DecodeError("WebPDecode returned NULL")
        return IMAGES[key].copy()

    imread = imdecode = webp_decode


shim = _IC()


class _Json(types.ModuleType):
    def __init__(self):
        super().__init__("json")

    def loads(self, s, **k):
        pf = k.pop("parse_float", float)
        if not isinstance(s, (str, bytes, bytearray)):
            raise ir.Unsupported("JSON of symbolic text")
        return json.loads(s, parse_float=lambda t: NUMBERS[t] if t in NUMBERS else pf(t), **k)

    def load(self, fp, **k):
        return self.loads(fp.read(), **k)

    def __getattr__(self, n):
        return getattr(json, n)


class _ZipFile(zipfile.ZipFile):
    def __init__(self, file, mode="r", *a, **k):
        from .fsshim import FS, SymBytes, SymFile
        if mode != "r":
            raise ir.Unsupported("writing zip archives")
        if isinstance(file, SymFile):
            buf = file.buf
        else:
            buf = FS.open(str(file), "rb").buf
        b = SymBytes.make(list(buf))
        if not isinstance(b, bytes):
            raise ir.Unsupported("zip archive with symbolic bytes")
        super().__init__(io.BytesIO(b), mode, *a, **k)


class _Zip(types.ModuleType):
    def __init__(self):
        super().__init__("zipfile")
        self.ZipFile = _ZipFile

    def is_zipfile(self, f):
        try:
            _ZipFile(f).close()
            return True
        except (zipfile.BadZipFile, OSError):
            return False

    def __getattr__(self, n):
        return getattr(zipfile, n)


json_shim = _Json()
zip_shim = _Zip()
