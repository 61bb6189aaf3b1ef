"""Run-time operations the instrumented code calls instead of Python's own."""
import builtins
import collections
import string as _string
import types
from .values import *
from .values import _WS
from .values import Sym, SymBool, SymInt, SymStr, SymHash, SymBytes
from .containers import *
from .containers import _MISSING
from .core import Engine, Unsupported

FUNCS = set()


def fn(name):
    FUNCS.add(name)


# ------------------------------------------------------------ text building
def to_text(x):
    """str(x), symbolic where x is"""
    if isinstance(x, (str, SymStr)):
        return x
    if isinstance(x, SymInt):
        return x.to_str()
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, SymHash):
        # assumption: no hash collisions, so the text of a hash stands for the text hashed
        return concat(["#", x.obj, "#"]) if str_like(x.obj) else str(hash(x.obj))
    t = type(x)
    if t in (int, float, bool, type(None), bytes):
        return str(x)
    if isinstance(x, BaseException) and t.__str__ in (BaseException.__str__, KeyError.__str__):
        if len(x.args) == 1:
            return to_repr(x.args[0]) if t.__str__ is KeyError.__str__ else to_text(x.args[0])
        if len(x.args) > 1:
            return to_repr(x.args)
    if t.__str__ is not object.__str__ and hasattr(t.__str__, "__code__"):
        return t.__str__(x)
    if t.__str__ is object.__str__ and hasattr(t.__repr__, "__code__"):
        return t.__repr__(x)
    if t in (list, tuple) or isinstance(x, (dict, set, frozenset, collections.abc.KeysView, collections.abc.ValuesView)):
        return to_repr(x)
    return str(x)


def to_repr(x):
    if isinstance(x, SymStr):
        if type(x) is LazyStr or any(cin(c, lambda v: v in (34, 39, 92) or not chr(v).isprintable()) is not False for c in x.c):
            return LazyStr(lambda: str_repr(x))
        return mkstr([39] + x.c + [39])
    if isinstance(x, SymInt):
        return x.to_str()
    if isinstance(x, SymBool):
        return repr(bool(x))
    t = type(x)
    if isinstance(x, list) and t is list:
        return concat(["["] + _sep([to_repr(y) for y in x]) + ["]"])
    if t is tuple:
        return concat(["("] + _sep([to_repr(y) for y in x]) + ([",)"] if len(x) == 1 else [")"]))
    if isinstance(x, SDict) or t is dict:
        return concat(["{"] + _sep([concat([to_repr(k), ": ", to_repr(v)]) for k, v in x.items()]) + ["}"])
    if t in (SSet, set):
        if not x:
            return "set()"
        return concat(["{"] + _sep([to_repr(k) for k in x]) + ["}"])
    if isinstance(x, collections.abc.ValuesView) or t is type({}.values()):
        return concat(["dict_values(["] + _sep([to_repr(k) for k in x]) + ["])"])
    if isinstance(x, collections.abc.KeysView) or t is type({}.keys()):
        return concat(["dict_keys(["] + _sep([to_repr(k) for k in x]) + ["])"])
    if hasattr(t.__repr__, "__code__"):
        return t.__repr__(x)
    return repr(x)


def _sep(xs):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(", ")
        out.append(x)
    return out


def concat(parts):
    if all(type(p) is str for p in parts):
        return "".join(parts)
    return join_parts(parts)


def fmt_value(v, spec="", conv=None):
    if conv == "r":
        v = to_repr(v)
    elif conv in ("s", "a"):
        v = to_text(v)
    if isinstance(v, Sym):
        if spec == "" or spec is None:
            return to_text(v)
        if isinstance(v, SymStr):
            return _pad_spec(v, spec)
        if isinstance(v, SymInt) and spec == "d":
            return v.to_str()
        return format(conc(v), spec)
    if isinstance(v, SymHash):
        return to_text(v)
    if hasattr(type(v).__format__, "__code__"):
        return type(v).__format__(v, spec or "")
    if spec:
        return format(v, spec)
    if type(v).__format__ is object.__format__ or type(v) in (list, tuple, SDict, SSet):
        return to_text(v)
    if isinstance(v, (BaseException,)):
        return to_text(v)
    return format(v, spec)


def _pad_spec(v, spec):
    import re
    m = re.fullmatch(r"(?:(.)?([<>^]))?(\d+)?(?:\.(\d+))?s?", spec)
    if not m:
        return format(v.realise(), spec)
    fill, align, width, prec = m.groups()
    if prec is not None:
        v = v[:int(prec)]
    if width is not None and not isinstance(v, str):
        v = {"<": v.ljust, ">": v.rjust, "^": v.center, None: v.ljust}[align](int(width), fill or " ")
    return v


_fmt = _string.Formatter()


def sym_format(tmpl, args, kwargs, auto=None):
    if isinstance(tmpl, SymStr):
        tmpl = tmpl.realise()
    if auto is None and not deep_sym(args) and not deep_sym(tuple(kwargs.values())):
        return tmpl.format(*args, **kwargs)
    parts, auto = [], auto or [0]
    for lit, field, spec, conv in _fmt.parse(tmpl):
        parts.append(lit)
        if field is None:
            continue
        if field == "" or field[0] in ".[":
            field = str(auto[0]) + field
            auto[0] += 1
        obj, _ = _get_field(field, args, kwargs)
        if spec and "{" in spec:
            spec = conc(sym_format(spec, args, kwargs, auto))
        parts.append(fmt_value(obj, spec, conv))
    return concat(parts)


def _get_field(field, args, kwargs):
    first, rest = _string._string.formatter_field_name_split(field)
    obj = args[first] if isinstance(first, int) else kwargs[first]
    for is_attr, i in rest:
        obj = getattr(obj, i) if is_attr else obj[i]
    return obj, first


def deep_sym(x, depth=4):
    """could formatting x involve symbolic data?"""
    if isinstance(x, (Sym, SymHash)):
        return True
    if isinstance(x, (str, int, float, bytes, type(None), type)):
        return False
    if depth == 0:
        return True
    if isinstance(x, dict):
        return any(deep_sym(k, depth - 1) or deep_sym(v, depth - 1) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(deep_sym(y, depth - 1) for y in x)
    return True


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            out.append(fmt_value(v, conc(spec) if spec is not None else "", conv))
        else:
            out.append(p)
    return concat(out)


def sym_percent(tmpl, args):
    if isinstance(tmpl, SymStr):
        tmpl = tmpl.realise()
    if not deep_sym(args):
        return tmpl % args
    import re
    seq = args if type(args) is tuple else None
    it = iter(seq if seq is not None else (args,))
    out, last, seen = [], 0, 0
    for m in re.finditer(r"%(?:\((\w+)\))?([-+ 0#]*\d*(?:\.\d+)?)([sdrifgx%])", tmpl):
        out.append(tmpl[last:m.start()])
        last = m.end()
        key, flags, c = m.groups()
        if c == "%":
            out.append("%")
            continue
        v = args[key] if key else next(it)
        if c == "s":
            v = to_text(v)
        elif c == "r":
            v = to_repr(v)
        elif c in "di" and isinstance(v, SymInt):
            v = v.to_str()
        else:
            v = ("%" + flags + c) % conc(v)
            out.append(v)
            seen += 1
            continue
        if flags:
            w = conc(args[key] if key else seq[seen] if seq is not None else args)
            v = ("%" + flags + c) % (conc(v) if c in "sr" else w)
        out.append(v)
        seen += 1
    out.append(tmpl[last:])
    return concat(out)


def mod(a, b):
    if type(a) is str:
        return sym_percent(a, b)
    return a % b


# ------------------------------------------------------------ operators
def contains(item, cont):
    if type(cont) is str and isinstance(item, SymStr):
        return SymStr([ord(c) for c in cont]).__contains__(item)
    if type(cont) is range and isinstance(item, SymInt):
        if cont.step == 1:
            return mkbool(z3.And(item.e >= cont.start, item.e < cont.stop))
        return item.concretize() in cont
    if type(cont) in (dict, set, frozenset) and (keysym(item) or any(keysym(k) for k in cont)):
        return SSet(cont).__contains__(item)
    if type(cont) is type({}.keys()) and keysym(item):
        return SSet(cont).__contains__(item)
    return item in cont


def getitem(obj, k):
    t = type(obj)
    if isinstance(k, Sym):
        if t is dict:
            return SDict(obj)[k]
        if t in (str, list, tuple, bytes, range):
            return obj[conc(k)]
    elif type(k) is slice and t in (str, list, tuple, bytes):
        return obj[slice(conc(k.start), conc(k.stop), conc(k.step))]
    elif t is dict and keysym(k):
        return SDict(obj)[k]
    return obj[k]


_STR_M = {}


def call(obj, name, /, *a, **k):
    t = type(obj)
    if t is str:
        if name == "format":
            return sym_format(obj, a, k)
        if name == "join":
            items = list(a[0])
            if any(isinstance(x, Sym) for x in items):
                return sym_join(obj, items)
            return obj.join(items)
        if any(isinstance(x, Sym) or (type(x) is tuple and any(isinstance(y, Sym) for y in x)) for x in a):
            a = tuple(conc(x) if isinstance(x, (SymInt, SymBool)) else x for x in a)
            if any(isinstance(x, Sym) or type(x) is tuple for x in a):
                m = getattr(SymStr, name, None)
                if m is None or name.startswith("_"):
                    return getattr(obj, name)(*[conc(x) for x in a], **k)
                return m(SymStr([ord(c) for c in obj]), *a, **k)
        return getattr(obj, name)(*a, **k)
    if t is dict and a and name in ("get", "pop", "setdefault") and keysym(a[0]):
        r = SDict(obj)
        v = getattr(r, name)(*a, **k)
        if name != "get":
            obj.clear()
            obj.update(r)
        return v
    if t is bytes and name == "join":
        items = list(a[0])
        if any(isinstance(x, SymBytes) for x in items):
            enc = [x.enc for x in items if isinstance(x, SymBytes)]
            if len(set(enc)) == 1:
                return SymBytes(sym_join(obj.decode(enc[0]), [x.s if isinstance(x, SymBytes) else x.decode(enc[0]) for x in items]), enc[0])
            return obj.join([x.realise() if isinstance(x, SymBytes) else x for x in items])
        return obj.join(items)
    if t is types.ModuleType and obj.__name__.startswith("numpy") or t.__module__ == "numpy":
        # compiled code wants plain values and types
        return getattr(obj, name)(*[_plainest(x) for x in a], **{n: _plainest(x) for n, x in k.items()})
    return getattr(obj, name)(*a, **k)


def _plainest(x):
    if isinstance(x, _TypeProxy):
        return x.real
    if type(x) in (list, tuple):
        return type(x)([_plainest(y) for y in x])
    return conc(x)


# ------------------------------------------------------------ builtins
class _TypeProxy:
    def __init__(self, real):
        self.real = real
        self.__name__ = real.__name__
        self.__qualname__ = real.__qualname__
        self.__module__ = "builtins"

    def __repr__(self):
        return repr(self.real)

    def __eq__(self, o):
        return o is self or o is self.real

    def __hash__(self):
        return hash(self.real)

    def __or__(self, o):
        return (self, o)

    def __getitem__(self, o):
        return self.real

    def __instancecheck__(self, x):
        return isinst(x, self.real)

    def __mro_entries__(self, bases):
        return (self.real,)


class StrProxy(_TypeProxy):
    def __call__(self, *a, **k):
        if len(a) == 1 and not k:
            return to_text(a[0])
        if a and isinstance(a[0], SymBytes):
            return a[0].decode(*a[1:], **k)
        return str(*a, **k)

    def __getattr__(self, name):
        f = getattr(str, name)
        if not callable(f) or name == "maketrans":
            return f

        def g(s, *a, **k):
            if isinstance(s, SymStr):
                return getattr(s, name)(*a, **k)
            return call(s, name, *a, **k)
        return g


class IntProxy(_TypeProxy):
    def __call__(self, *a, **k):
        if len(a) == 1 and not k:
            return to_int(a[0])
        if a and isinstance(a[0], Sym):
            return int(conc(a[0]), *a[1:], **k)
        return int(*a, **k)

    def __getattr__(self, name):
        return getattr(int, name)


class FloatProxy(_TypeProxy):
    def __call__(self, *a):
        if a and isinstance(a[0], Sym):
            return float(conc(a[0]))
        return float(*a)

    def __getattr__(self, name):
        return getattr(float, name)


class BoolProxy(_TypeProxy):
    def __call__(self, *a):
        return bool(*a)


class BytesProxy(_TypeProxy):
    def __call__(self, *a, **k):
        if a and isinstance(a[0], SymStr):
            return SymBytes(a[0], *a[1:], **k)
        if len(a) == 1 and not k and not isinstance(a[0], (bytes, bytearray, int, list)):
            m = getattr(type(a[0]), "__bytes__", None)
            if m is not None:
                r = m(a[0])
                if not isinstance(r, (bytes, SymBytes)):
                    raise TypeError("__bytes__ returned non-bytes (type %s)" % type(r).__name__)
                return r
        return bytes(*a, **k)

    def __getattr__(self, name):
        return getattr(bytes, name)


STR, INT, FLOAT, BOOL, BYTES = StrProxy(str), IntProxy(int), FloatProxy(float), BoolProxy(bool), BytesProxy(bytes)


def to_int(x):
    if isinstance(x, (SymInt,)):
        return x
    if isinstance(x, SymBool):
        return x.as_int()
    if not isinstance(x, SymStr):
        return int(x)
    s = x.strip()
    if not isinstance(s, SymStr):
        return int(s)
    c = list(s.c)
    bad = ValueError("invalid literal for int() with base 10")
    neg = False
    if test(cin(c[0], lambda v: v == 45)):
        neg, c = True, c[1:]
    elif test(cin(c[0], lambda v: v == 43)):
        c = c[1:]
    if not c:
        raise bad
    digs, prev_us = [], True
    for ch in c:
        if test(cin(ch, lambda v: chr(v).isdecimal())):
            if test(cin(ch, lambda v: 48 <= v <= 57)):
                digs.append(ch if isinstance(ch, int) else SChar(ch.e, tuple(v for v in ch.dom if 48 <= v <= 57)))
            else:
                v = ch if isinstance(ch, int) else Engine.current.concretize(ch.e).as_long()
                digs.append(48 + int(chr(v)))
            prev_us = False
        elif test(cin(ch, lambda v: v == 95)) and not prev_us:
            prev_us = True
        else:
            raise bad
    if prev_us:
        raise bad
    n = len(digs)
    e = z3.Sum([digit_expr(d) * (10 ** (n - 1 - i)) for i, d in enumerate(digs)])
    lo = sum(((d - 48) if isinstance(d, int) else d.dom[0] - 48) * 10 ** (n - 1 - i) for i, d in enumerate(digs))
    hi = sum(((d - 48) if isinstance(d, int) else d.dom[-1] - 48) * 10 ** (n - 1 - i) for i, d in enumerate(digs))
    r = SymInt.make(e, lo, hi)
    if isinstance(r, SymInt) and not neg:
        r.src = digs
    return -r if neg else r


def _realtype(t):
    if isinstance(t, _TypeProxy):
        return t.real
    if t is SDict:
        return dict
    if t is SSet:
        return set
    if t is SFrozenSet:
        return frozenset
    if t is SOrderedDict:
        return collections.OrderedDict
    if t is SDefaultDict:
        return collections.defaultdict
    if t is SCounter:
        return collections.Counter
    if isinstance(t, tuple):
        return tuple(_realtype(x) for x in t)
    return t


def isinst(x, t):
    t = _realtype(t)
    if isinstance(x, Sym):
        pt = pytype(x)
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for y in ts:
            flat += list(y) if isinstance(y, tuple) else [y]
        return any(isinstance(y, type) and issubclass(pt, y) or not isinstance(y, type) and isinstance(pt(), y) for y in flat)
    return isinstance(x, t)


def issub(a, b):
    return issubclass(_realtype(a), _realtype(b))


_TYPES = {str: STR, int: INT, float: FLOAT, bool: BOOL, bytes: BYTES, dict: SDict, set: SSet, frozenset: SFrozenSet,
          collections.OrderedDict: SOrderedDict, collections.Counter: SCounter, collections.defaultdict: SDefaultDict}


def type_(*a):
    if len(a) == 1:
        t = pytype(a[0])
        return _TYPES.get(t, t)
    return type(*a)


def hash_(x):
    if isinstance(x, SymHash):
        return x
    if isinstance(x, (Sym, str)):
        return SymHash(x)
    if isinstance(x, (tuple, frozenset)):
        return SymHash(x)
    if isinstance(x, (int, float, type(None))):
        return hash(x)
    h = type(x).__hash__
    if h is None:
        raise TypeError("unhashable type: '%s'" % type(x).__name__)
    return h(x)


def repr_(x):
    return to_repr(x)


def ord_(x):
    if isinstance(x, SymStr):
        c = x.c[0]
        if len(x.c) != 1:
            raise TypeError("ord() expected a character")
        if isinstance(c, int):
            return c
        if len(c.dom) > 12:
            r = z3.BV2Int(c.e)
        else:
            r = z3.IntVal(c.dom[-1])
            for v in c.dom[:-1]:
                r = z3.If(c.e == bv(v), z3.IntVal(v), r)
        return SymInt(r, c.dom[0], c.dom[-1])
    return ord(x)


def chr_(x):
    return chr(conc(x))


def getattr_(o, n, *d):
    return getattr(o, conc(n), *d)


def setattr_(o, n, v):
    return setattr(o, conc(n), v)


def hasattr_(o, n):
    return hasattr(o, conc(n))


def round_(x, *a):
    return round(x, *a)


def sorted_(it, key=None, reverse=False):
    return sorted(it, key=key, reverse=bool(reverse))


def print_(*a, **k):
    out = k.get("file")
    if out is not None and hasattr(out, "_vf_file"):
        sep, end = k.get("sep", " "), k.get("end", "\n")
        ps = []
        for i, x in enumerate(a):
            if i:
                ps.append(sep)
            ps.append(to_text(x))
        out.write(concat(ps + [end]))


def mkdict(*items):
    d = SDict()
    for it in items:
        if it[0] is _MISSING:
            d.update(it[1])
        else:
            d[it[0]] = it[1]
    return d


def mkset(*items):
    s = SSet()
    for x in items:
        s.add(x)
    return s


def truth(x):
    return bool(x) if isinstance(x, SymBool) else x


def plain(f):
    """A special method whose result the interpreter wants as a plain value."""
    import functools

    @functools.wraps(f)
    def g(*a, **k):
        return conc(f(*a, **k))
    return g


def ascii_(x):
    r = to_repr(x)
    return ascii(conc(x)) if isinstance(r, SymStr) or not r.isascii() else r


def match_seq(x, n, more):
    """Does a sequence pattern of n items (and a star) fit?"""
    if not isinstance(x, collections.abc.Sequence) or isinst(x, (str, bytes, bytearray)):
        return False
    return len(x) >= n if more else len(x) == n


def match_map(x, *keys):
    return isinst(x, collections.abc.Mapping) and all(contains(k, x) for k in keys)


def match_rest(x, *keys):
    return SDict([(k, x[k]) for k in x if not any(bool(k == y) for y in keys)])


def match_pos(x, cls, i):
    names = getattr(cls, "__match_args__", None)
    return x if names is None else getattr(x, names[i])


def range_(*a):
    return range(*[conc(x) for x in a])


def sum_(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def len_(x):
    return len(x)


class CollectionsProxy:
    """`collections` as the instrumented code sees it."""
    abc = collections.abc
    Counter = SCounter
    OrderedDict = SOrderedDict
    defaultdict = SDefaultDict

    def __getattr__(self, n):
        return getattr(collections, n)


COLLECTIONS = CollectionsProxy()

NAMES = {
    "str": STR, "int": INT, "float": FLOAT, "bool": BOOL, "bytes": BYTES,
    "dict": SDict, "set": SSet, "frozenset": SFrozenSet,
    "isinstance": isinst, "issubclass": issub, "type": type_, "hash": hash_, "repr": repr_,
    "ord": ord_, "chr": chr_, "getattr": getattr_, "setattr": setattr_, "hasattr": hasattr_,
    "print": print_, "ascii": ascii_, "sum": sum_, "range": range_,
}
