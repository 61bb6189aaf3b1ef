"""Files, csv and os as the instrumented code sees them.

Symbolic file contents live in memory; an empty placeholder with the same path
exists in a private scratch directory so real `os.path` calls keep working.
"""
import builtins
import csv as _csv
import io
import os as _os
from .values import *
from .values import Sym, SymStr, SymInt
from .ops import to_text, concat
from .core import Unsupported

FILES = {}      # real path -> text (str or SymStr)
MTIMES = {}     # real path -> symbolic mtime
REMOVED = set()
ROOTS = []      # directories whose files are virtual


def reset():
    FILES.clear()
    MTIMES.clear()
    OBJECTS.clear()
    ENC.clear()


def _key(p):
    return _os.path.realpath(_os.fspath(p)) if isinstance(p, (str, _os.PathLike)) else p


def is_virtual(p):
    k = _key(p)
    return k in FILES or any(str(k).startswith(r + _os.sep) for r in ROOTS)


ENC = {}        # real path -> encoding it was written with


def norm(e):
    return "utf-8" if e is None else e.lower().replace("_", "-").replace("utf8", "utf-8")


def recode(chars, frm, to):
    """what `chars`, written with one encoding, reads as with another"""
    to = norm(to)
    out = chars
    if norm(frm).replace("-sig", "") != to.replace("-sig", "") and any((not isinstance(c, int)) or c > 127 for c in chars):
        out, run = [], []
        for c in list(chars) + [None]:
            if c is not None and not isinstance(c, int) and any(x > 127 for x in c.dom):
                # which one it is matters to the decoder
                if test(cin(c, lambda x: x > 127)):
                    c = chars_of(conc(mkstr([c])))[0]
                else:
                    c = SChar(c.e, tuple(x for x in c.dom if x <= 127))
            if isinstance(c, int):
                run.append(c)
                continue
            if run:
                out += [ord(x) for x in "".join(map(chr, run)).encode(norm(frm).replace("-sig", "")).decode(to)]
                run = []
            if c is not None:
                out.append(c)
    if to == "utf-8-sig" and out and isinstance(out[0], int) and out[0] == 0xfeff:
        out = out[1:]
    return out


class VFile:
    _vf_file = True
    _lazy = None

    def __init__(self, path, mode, newline=None, encoding=None):
        self.name, self.mode, self.encoding, self.newlines = path, mode, encoding, None
        self._k = _key(path)
        self._newline = newline
        self.closed = False
        if "r" in mode:
            if self._k not in FILES and not _as_text(self._k):
                raise FileNotFoundError(2, "No such file or directory", path)
            t = FILES[self._k]
            self._buf = chars_of(t)
            self._bare()
            if newline is None and self._buf:
                # universal newlines
                if any((c == 13) if isinstance(c, int) else 13 in c.dom for c in self._buf):
                    t = mkstr(self._buf)
                    t = t.replace("\r\n", "\n").replace("\r", "\n")
                    self._buf = chars_of(t)
        elif "a" in mode:
            self._buf = chars_of(FILES.get(self._k, ""))
        else:
            self._buf = [0xfeff] if norm(encoding) == "utf-8-sig" else []
            FILES[self._k] = mkstr(self._buf)
            ENC[self._k] = norm(encoding)
            OBJECTS.pop(self._k, None)
            _touch(self._k)
        self._pos = 0

    def _bare(self):
        """decode; text in another encoding is decoded when it is read, line by line"""
        frm, to = norm(ENC.get(self._k, "utf-8")).replace("-sig", ""), norm(self.encoding).replace("-sig", "")
        self._lazy = frm if frm != to and any((not isinstance(c, int)) or c > 127 for c in self._buf) else None
        if self._lazy is None:
            self._buf = recode(self._buf, frm, self.encoding)

    def _slice(self, i, j):
        r = self._buf[i:j]
        if self._lazy is not None:
            r = recode(r, self._lazy, norm(self.encoding).replace("-sig", "") if i else self.encoding)
        return mkstr(r)

    def write(self, s):
        if not str_like(s):
            raise TypeError("write() argument must be str, not " + pytype(s).__name__)
        self._buf = self._buf + chars_of(s)
        FILES[self._k] = mkstr(self._buf)
        _touch(self._k)
        return len(s)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def readline(self, *a):
        i = self._pos
        n = len(self._buf)
        while i < n:
            c = self._buf[i]
            i += 1
            if test(ceq(c, 10)):
                break
        r = self._slice(self._pos, i)
        self._pos = i
        return r

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if len(r) == 0:
            raise StopIteration
        return r

    def readlines(self, *a):
        return list(self)

    def read(self, n=-1):
        end = len(self._buf) if n is None or n < 0 else self._pos + n
        r = self._slice(self._pos, end)
        self._pos = min(end, len(self._buf))
        return r

    def seek(self, p, w=0):
        self._pos = p

    def tell(self):
        return self._pos

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def readable(self):
        return "r" in self.mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def _touch(k):
    try:
        with builtins.open(k, "a"):
            pass
    except OSError:
        pass


def open_(path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, **k):
    if isinstance(path, Sym):
        path = conc(path)
    if isinstance(path, (str, _os.PathLike)) and is_virtual(path):
        if "b" in mode:
            return VObjFile(path, mode)
        if "r" not in mode:
            d = _os.path.dirname(_key(path))
            if not _os.path.isdir(d):
                raise FileNotFoundError(2, "No such file or directory", path)
        return VFile(path, mode, newline, encoding)
    return builtins.open(path, mode, buffering, encoding, errors, newline, **k)


# ---- pickled objects (cache files)
OBJECTS = {}


class VObjFile:
    _vf_file = True

    def __init__(self, path, mode):
        self.name, self.mode, self._k = path, mode, _key(path)
        if "r" in mode:
            if self._k not in OBJECTS and not _os.path.exists(self._k):
                raise FileNotFoundError(2, "No such file or directory", path)
        else:
            if "a" not in mode:
                OBJECTS.pop(self._k, None)
                FILES.pop(self._k, None)
            _touch(self._k)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def write(self, b):
        old = OBJECTS.get(self._k)
        if isinstance(old, SymBytes) or isinstance(b, SymBytes):
            OBJECTS[self._k] = b if not old else SymBytes(_str(old) + _str(b), "utf-8")
        elif isinstance(old, bytes) and not hasattr(b, "kept"):
            OBJECTS[self._k] = old + b
        else:
            OBJECTS[self._k] = b
        return 0

    def read(self, *a):
        if self._k not in OBJECTS and self._k in FILES:
            t, enc = FILES[self._k], norm(ENC.get(self._k, "utf-8")).replace("-sig", "")
            return t.encode(enc) if isinstance(t, str) else SymBytes(t, enc)
        return OBJECTS.get(self._k, b"")


def _str(b):
    """text of bytes that are UTF-8"""
    if isinstance(b, SymBytes):
        return b.decode("utf-8")
    return bytes(b).decode("utf-8")


def _as_text(k):
    """bytes that were written, as a text file"""
    b = OBJECTS.get(k)
    if isinstance(b, SymBytes):
        FILES[k], ENC[k] = b.s, norm(b.enc)
    elif isinstance(b, (bytes, bytearray)) and not hasattr(b, "kept"):
        try:
            FILES[k], ENC[k] = b.decode("utf-8"), "utf-8"
        except UnicodeDecodeError:
            FILES[k], ENC[k] = b.decode("latin-1"), "latin-1"
    else:
        return False
    return True


class PickleProxy:
    """The real pickle, with symbolic values carried by reference (they are immutable)."""

    def __getattr__(self, n):
        import pickle
        return getattr(pickle, n)

    def dumps(self, obj, *a, **k):
        import io
        import pickle
        from .values import Sym
        kept = []

        class P(pickle.Pickler):
            def persistent_id(self, o):
                if isinstance(o, Sym):
                    kept.append(o)
                    return len(kept) - 1
                return None
        b = io.BytesIO()
        P(b, *a, **k).dump(obj)
        return Pickled(b.getvalue(), kept) if kept else b.getvalue()

    def loads(self, dat, *a, **k):
        import io
        import pickle
        kept = getattr(dat, "kept", [])

        class U(pickle.Unpickler):
            def persistent_load(self, i):
                return kept[i]
        return U(io.BytesIO(bytes(dat)), *a, **k).load()

    def dump(self, obj, f, *a, **k):
        if isinstance(f, VObjFile):
            OBJECTS[f._k] = self.dumps(obj)
        else:
            import pickle
            pickle.dump(obj, f, *a, **k)

    def load(self, f, *a, **k):
        import pickle
        if isinstance(f, VObjFile):
            if f._k not in OBJECTS:
                raise pickle.UnpicklingError("invalid load key")
            return self.loads(OBJECTS[f._k])
        return pickle.load(f, *a, **k)


class Pickled(bytes):
    def __new__(cls, dat, kept):
        x = bytes.__new__(cls, dat)
        x.kept = kept
        return x


class _Stat:
    def __init__(self, real, mtime):
        self._real, self.st_mtime = real, mtime

    def __getattr__(self, n):
        return getattr(self._real, n)

    def __getitem__(self, i):
        return self.st_mtime if i == 8 else self._real[i]


class _PathProxy:
    def __getattr__(self, n):
        f = getattr(_os.path, n)
        if not callable(f):
            return f

        def g(*a, **k):
            a = [conc(x) for x in a]
            if n == "getmtime" and _key(a[0]) in MTIMES:
                return MTIMES[_key(a[0])]
            return f(*a, **k)
        return g


class OsProxy:
    path = _PathProxy()

    def __getattr__(self, n):
        return getattr(_os, n)

    def stat(self, p, *a, **k):
        r = _os.stat(p, *a, **k)
        m = MTIMES.get(_key(p))
        return r if m is None else _Stat(r, m)

    def remove(self, p, *a, **k):
        FILES.pop(_key(p), None)
        OBJECTS.pop(_key(p), None)
        return _os.remove(p, *a, **k)
    unlink = remove

    def rename(self, a, b, *r, **k):
        x = _os.replace(a, b, *r, **k)
        for d in (FILES, OBJECTS, ENC, MTIMES):
            d.pop(_key(b), None)
            if _key(a) in d:
                d[_key(b)] = d.pop(_key(a))
        return x
    replace = rename

    def listdir(self, *a):
        return sorted(_os.listdir(*a))


OS = OsProxy()


# ------------------------------------------------------------ csv
class _Fmt:
    def __init__(self, dialect, kw):
        if isinstance(dialect, str):
            dialect = _csv.get_dialect(dialect)
        g = lambda n, d: kw[n] if n in kw else getattr(dialect, n, d)
        self.delimiter = g("delimiter", ",")
        self.quotechar = g("quotechar", '"')
        self.doublequote = g("doublequote", True)
        self.skipinitialspace = g("skipinitialspace", False)
        self.lineterminator = g("lineterminator", "\r\n")
        self.quoting = g("quoting", _csv.QUOTE_MINIMAL)
        self.escapechar = g("escapechar", None)
        self.strict = g("strict", False)


class Reader:
    def __init__(self, it, dialect="excel", **kw):
        self.it = iter(it)
        self.f = _Fmt(dialect, kw)
        self.dialect = self.f
        self.line_num = 0

    def __iter__(self):
        return self

    def __next__(self):
        f = self.f
        q = ord(f.quotechar) if f.quotechar and f.quoting != _csv.QUOTE_NONE else None
        d = ord(f.delimiter)
        esc = ord(f.escapechar) if f.escapechar else None
        eol = lambda c: test(cin(c, lambda v: v in (10, 13)))
        is_ = lambda c, v: v is not None and test(ceq(c, v))
        fields, cur = [], []
        state = "START_RECORD"
        unq = [True]

        def save():
            v = mkstr(cur)
            if f.quoting == _csv.QUOTE_NONNUMERIC and unq[0]:
                v = float(conc(v)) if len(v) else v
            fields.append(v)
            cur.clear()
            unq[0] = True
        while True:
            try:
                line = next(self.it)
            except StopIteration:
                if cur or state == "IN_QUOTED":
                    if f.strict:
                        raise _csv.Error("unexpected end of data")
                    save()
                    return fields
                raise
            if not str_like(line):
                raise _csv.Error("iterator should return strings, not %s (the file should be opened in text mode)" % pytype(line).__name__)
            self.line_num += 1
            for c in chars_of(line) + [None]:
                if state == "START_RECORD":
                    if c is None:
                        break
                    if eol(c):
                        state = "EAT_CRNL"
                        continue
                    state = "START_FIELD"
                if state == "START_FIELD":
                    if c is None or eol(c):
                        save()
                        state = "START_RECORD" if c is None else "EAT_CRNL"
                    elif is_(c, q):
                        unq[0] = False
                        state = "IN_QUOTED"
                    elif is_(c, esc):
                        state = "ESCAPED"
                    elif is_(c, 32) and f.skipinitialspace:
                        pass
                    elif is_(c, d):
                        save()
                    else:
                        cur.append(c)
                        state = "IN_FIELD"
                elif state == "ESCAPED":
                    cur.append(10 if c is None else c)
                    state = "IN_FIELD"
                elif state == "IN_FIELD":
                    if c is None or eol(c):
                        save()
                        state = "START_RECORD" if c is None else "EAT_CRNL"
                    elif is_(c, esc):
                        state = "ESCAPED"
                    elif is_(c, d):
                        save()
                        state = "START_FIELD"
                    else:
                        cur.append(c)
                elif state == "IN_QUOTED":
                    if c is None:
                        pass
                    elif is_(c, esc):
                        state = "ESC_IN_QUOTED"
                    elif is_(c, q):
                        state = "QUOTE_IN_QUOTED" if f.doublequote else "IN_FIELD"
                    else:
                        cur.append(c)
                elif state == "ESC_IN_QUOTED":
                    cur.append(10 if c is None else c)
                    state = "IN_QUOTED"
                elif state == "QUOTE_IN_QUOTED":
                    if c is None or eol(c):
                        save()
                        state = "START_RECORD" if c is None else "EAT_CRNL"
                    elif is_(c, q):
                        cur.append(c)
                        state = "IN_QUOTED"
                    elif is_(c, d):
                        save()
                        state = "START_FIELD"
                    elif not f.strict:
                        cur.append(c)
                        state = "IN_FIELD"
                    else:
                        raise _csv.Error("'%c' expected after '%c'" % (f.delimiter, f.quotechar))
                elif state == "EAT_CRNL":
                    if c is None:
                        state = "START_RECORD"
                    elif eol(c):
                        pass
                    else:
                        raise _csv.Error("new-line character seen in unquoted field - do you need to open the file with newline=''?")
            if state == "START_RECORD":
                return fields


class DictReader:
    def __init__(self, f, fieldnames=None, restkey=None, restval=None, dialect="excel", *a, **k):
        if fieldnames is not None and iter(fieldnames) is fieldnames:
            fieldnames = list(fieldnames)
        self._fieldnames, self.restkey, self.restval = fieldnames, restkey, restval
        self.reader = Reader(f, dialect, *a, **k)
        self.dialect = dialect
        self.line_num = 0

    def __iter__(self):
        return self

    @property
    def fieldnames(self):
        if self._fieldnames is None:
            try:
                self._fieldnames = next(self.reader)
            except StopIteration:
                pass
        self.line_num = self.reader.line_num
        return self._fieldnames

    @fieldnames.setter
    def fieldnames(self, v):
        self._fieldnames = v

    def __next__(self):
        from .containers import SDict
        if self.line_num == 0:
            self.fieldnames
        row = next(self.reader)
        self.line_num = self.reader.line_num
        while row == []:
            row = next(self.reader)
        d = SDict(zip(self.fieldnames, row))
        lf, lr = len(self.fieldnames), len(row)
        if lf < lr:
            d[self.restkey] = row[lf:]
        elif lf > lr:
            for key in self.fieldnames[lr:]:
                d[key] = self.restval
        return d


class Writer:
    def __init__(self, f, dialect="excel", **kw):
        self.file, self.f = f, _Fmt(dialect, kw)
        self.dialect = self.f

    def writerow(self, row):
        f = self.f
        out = []
        row = list(row)
        for i, v in enumerate(row):
            if i:
                out.append(f.delimiter)
            numeric = isinstance(v, (int, float, SymInt)) and not isinstance(v, bool)
            if v is None:
                t = ""
            elif isinstance(v, float):
                t = repr(v)
            else:
                t = to_text(v)
            want = f.quoting == _csv.QUOTE_ALL or (f.quoting == _csv.QUOTE_NONNUMERIC and not numeric)
            specials = [f.delimiter, f.quotechar, f.escapechar, "\n", "\r"] + list(f.lineterminator)
            specials = {ord(x) for x in specials if x}
            cs = chars_of(t)
            if f.quoting == _csv.QUOTE_NONE:
                raise Unsupported("csv QUOTE_NONE")
            if not want:
                want = test(zor([cin(c, lambda x: x in specials) for c in cs]))
                if not cs and len(row) == 1:
                    want = True
            if want:
                q = ord(f.quotechar)
                body = []
                for c in cs:
                    if test(ceq(c, q)):
                        body.append(q)
                    body.append(c)
                out.append(mkstr([q] + body + [q]))
            else:
                out.append(t)
        out.append(f.lineterminator)
        return self.file.write(concat(out))

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


class DictWriter:
    def __init__(self, f, fieldnames, restval="", extrasaction="raise", dialect="excel", *a, **k):
        self.fieldnames = list(fieldnames)
        self.restval = restval
        if extrasaction.lower() not in ("raise", "ignore"):
            raise ValueError("extrasaction (%s) must be 'raise' or 'ignore'" % extrasaction)
        self.extrasaction = extrasaction
        self.writer = Writer(f, dialect, *a, **k)

    def writeheader(self):
        return self.writerow(dict(zip(self.fieldnames, self.fieldnames)))

    def _row(self, d):
        from .containers import SDict
        d = d if isinstance(d, SDict) else SDict(d)
        if self.extrasaction == "raise":
            wrong = [k for k in d if not any(bool(k == x) for x in self.fieldnames)]
            if wrong:
                raise ValueError("dict contains fields not in fieldnames: " + ", ".join([repr(conc(x)) for x in wrong]))
        return [d.get(k, self.restval) for k in self.fieldnames]

    def writerow(self, d):
        return self.writer.writerow(self._row(d))

    def writerows(self, ds):
        for d in ds:
            self.writerow(d)


class CsvProxy:
    reader = Reader
    writer = Writer
    DictReader = DictReader
    DictWriter = DictWriter

    def __getattr__(self, n):
        return getattr(_csv, n)


CSV = CsvProxy()


class VStringIO:
    """io.StringIO for symbolic text"""
    _vf_file = True

    def __init__(self, initial="", newline="\n"):
        self._buf, self._pos, self.closed = chars_of(initial or ""), 0, False

    def write(self, s):
        if not str_like(s):
            raise TypeError("string argument expected, got '%s'" % pytype(s).__name__)
        c = chars_of(s)
        self._buf = self._buf[:self._pos] + c + self._buf[self._pos + len(c):]
        self._pos += len(c)
        return len(c)

    def getvalue(self):
        return mkstr(self._buf)
    _lazy = None
    _slice = VFile._slice
    readline = VFile.readline
    __iter__ = VFile.__iter__
    __next__ = VFile.__next__
    readlines = VFile.readlines
    read = VFile.read
    seek = VFile.seek
    tell = VFile.tell
    writelines = VFile.writelines
    flush = VFile.flush
    close = VFile.close
    __enter__ = VFile.__enter__
    __exit__ = VFile.__exit__


class IoProxy:
    StringIO = VStringIO

    def __getattr__(self, n):
        if n == "open":
            return open_
        return getattr(io, n)


IO = IoProxy()


# ------------------------------------------------------------ xml
class XmlTree:
    """xml.etree.ElementTree: symbolic characters go through the real parser as private use characters."""

    def __getattr__(self, n):
        import xml.etree.ElementTree as E
        return getattr(E, n)

    @staticmethod
    def _run(chars, make):
        sub, out = {}, []
        for ch in chars:
            if isinstance(ch, int):
                out.append(chr(ch))
                continue
            if any(v in (38, 60, 62, 34, 39) or v < 32 or v > 127 for v in ch.dom):
                raise Unsupported("symbolic markup in an xml file")
            p = chr(0xe000 + len(sub))
            sub[p] = ch
            out.append(p)
        root = make("".join(out))

        def back(t):
            if t is None or not any(x in sub for x in t):
                return t
            return mkstr([sub[x] if x in sub else ord(x) for x in t])
        for el in root.iter():
            if any(x in sub for x in el.tag):
                raise Unsupported("symbolic xml tag")
            el.text, el.tail = back(el.text), back(el.tail)
            for k, v in list(el.attrib.items()):
                el.attrib[k] = back(v)
        return root

    def parse(self, source, parser=None):
        import xml.etree.ElementTree as E
        if isinstance(source, Sym):
            source = conc(source)
        if isinstance(source, (str, _os.PathLike)) and is_virtual(source):
            if _key(source) not in FILES:
                raise FileNotFoundError(2, "No such file or directory", source)
            f = VFile(source, "r", newline="", encoding="utf-8")
            return E.ElementTree(self._run(f._buf, lambda t: E.fromstring(t.encode("utf-8"))))
        if getattr(source, "_vf_file", False):
            return E.ElementTree(self._run(chars_of(source.read()), E.fromstring))
        return E.parse(source, parser)

    def fromstring(self, text, parser=None):
        import xml.etree.ElementTree as E
        if isinstance(text, Sym):
            return self._run(chars_of(text), E.fromstring)
        return E.fromstring(text, parser)
    XML = fromstring


class _Ns:
    pass


XMLTREE = XmlTree()
XMLETREE = _Ns()
XMLETREE.ElementTree = XMLTREE
XML = _Ns()
XML.etree = XMLETREE


class JsonProxy:
    """json.dumps of values with symbolic strings in them: the real one, around what is free"""

    def __getattr__(self, n):
        import json
        return getattr(json, n)

    def dumps(self, obj, **kw):
        import json
        held, ascii_ = [], kw.get("ensure_ascii", True)

        def conv(o):
            if isinstance(o, SymStr):
                held.append(o)
                return "@@VF%d@@" % (len(held) - 1)
            if isinstance(o, Sym):
                return conc(o)
            if isinstance(o, (dict,)) or hasattr(o, "keys"):
                return {conv(k): conv(o[k]) for k in o.keys()}
            if isinstance(o, (list, tuple)):
                return [conv(x) for x in o]
            return o
        import re
        text = ""
        for i, x in enumerate(re.split("@@VF([0-9]+)@@", json.dumps(conv(obj), **kw))):
            text = text + (self._esc(held[int(x)], ascii_) if i % 2 else x)
        return text

    def _esc(self, s, ascii_):
        import json
        out = []
        for ch in chars_of(s):
            x = mkstr([ch])
            if isinstance(x, str):
                out.append(json.dumps(x, ensure_ascii=ascii_)[1:-1])
                continue
            for v in map(chr, ch.dom):
                e = json.dumps(v, ensure_ascii=ascii_)[1:-1]
                if e != v and bool(x == v):
                    out.append(e)
                    break
            else:
                out.append(x)
        r = ""
        for x in out:
            r = r + x
        return r

    def loads(self, text, **kw):
        import json
        return json.loads(conc(text), **kw)

    def load(self, fp, **kw):
        return self.loads(fp.read(), **kw)

    def dump(self, obj, fp, **kw):
        fp.write(self.dumps(obj, **kw))


JSON = JsonProxy()
