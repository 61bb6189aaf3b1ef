"""Symbolic values: SymBool, SymInt, SymStr (concrete length, symbolic characters), SymHash."""
import z3
from .core import Engine, Unsupported, BV

CONST_HASH = 0x5157


def E():
    return Engine.current


class Sym:
    __slots__ = ()


def is_sym(x):
    return isinstance(x, Sym)


# --------------------------------------------------------------------- bools
class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E().branch(self.e)

    def __repr__(self):
        return "SymBool(%s)" % self.e

    def __and__(self, o):
        b = bool_expr(o)
        return NotImplemented if b is None else mkbool(z3.And(self.e, b))
    __rand__ = __and__

    def __or__(self, o):
        b = bool_expr(o)
        return NotImplemented if b is None else mkbool(z3.Or(self.e, b))
    __ror__ = __or__

    def __xor__(self, o):
        b = bool_expr(o)
        return NotImplemented if b is None else mkbool(z3.Xor(self.e, b))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == bool_expr(o))
        if isinstance(o, (int, float, SymInt)):
            return self.as_int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else negate(r)

    def as_int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 0, 1)

    def __add__(self, o):
        return self.as_int() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o
    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __hash__(self):
        return hash(bool(self))

    def __lt__(self, o):
        return self.as_int() < o

    def __gt__(self, o):
        return self.as_int() > o

    def __le__(self, o):
        return self.as_int() <= o

    def __ge__(self, o):
        return self.as_int() >= o

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def bool_expr(o):
    if isinstance(o, SymBool):
        return o.e
    if isinstance(o, bool):
        return z3.BoolVal(o)
    return None


def mkbool(e):
    if e is True or e is False:
        return e
    e2 = z3.simplify(e)
    if z3.is_true(e2):
        return True
    if z3.is_false(e2):
        return False
    return SymBool(e2)


def negate(b):
    if isinstance(b, SymBool):
        return mkbool(z3.Not(b.e))
    return not b


def tobool(x):
    """z3 expr or python bool of any truthy value"""
    if isinstance(x, SymBool):
        return x.e
    return z3.BoolVal(bool(x))


# --------------------------------------------------------------------- ints
def _as_int(o):
    if isinstance(o, SymInt):
        return o.e, o.lo, o.hi
    if isinstance(o, bool):
        o = int(o)
    if isinstance(o, int):
        return z3.IntVal(int(o)), int(o), int(o)
    if isinstance(o, SymBool):
        s = o.as_int()
        return s.e, 0, 1
    return None


class SymInt(Sym):
    __slots__ = ("e", "lo", "hi", "src")

    def __init__(self, e, lo=None, hi=None):
        self.e, self.lo, self.hi = e, lo, hi
        self.src = None  # the decimal digits it was read from, most significant first

    @staticmethod
    def make(e, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        return SymInt(e, lo, hi)

    def __repr__(self):
        return "SymInt(%s)" % self.e

    def _bin(self, o, f, bounds, rev=False):
        if isinstance(o, float):
            if o.is_integer():
                o = int(o)
            else:
                v = self.concretize()
                return None, v
        t = _as_int(o)
        if t is None:
            return NotImplemented, None
        oe, olo, ohi = t
        b = (None, None)
        if None not in (self.lo, self.hi, olo, ohi):
            if rev:
                b = bounds(olo, ohi, self.lo, self.hi)
            else:
                b = bounds(self.lo, self.hi, olo, ohi)
        return SymInt.make(f(oe, self.e) if rev else f(self.e, oe), *b), None

    def _arith(self, o, f, bounds, pyop, rev=False):
        r, v = self._bin(o, f, bounds, rev)
        if r is None:
            return pyop(o, v) if rev else pyop(v, o)
        if isinstance(o, float) and r is not NotImplemented:
            return SymFloatInt(r) if is_sym(r) else float(r)
        return r

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, lambda a, b, c, d: (a + c, b + d), lambda x, y: x + y)

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda a, b, c, d: (a - d, b - c), lambda x, y: x - y)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda a, b, c, d: (a - d, b - c), lambda x, y: x - y, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes, SymStr)):
            return o * self.concretize()
        return self._arith(o, lambda a, b: a * b,
                           lambda a, b, c, d: (min(a * c, a * d, b * c, b * d), max(a * c, a * d, b * c, b * d)),
                           lambda x, y: x * y)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self):
        return SymInt.make(-self.e, None if self.hi is None else -self.hi, None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt.make(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o > 0:
            lo = None if self.lo is None else self.lo // o
            hi = None if self.hi is None else self.hi // o
            return SymInt.make(self.e / o, lo, hi)
        return self.concretize() // conc(o)

    def __mod__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o > 0:
            return SymInt.make(self.e % o, 0, o - 1)
        return self.concretize() % conc(o)

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return o // self.concretize()

    def __rmod__(self, o):
        return o % self.concretize()

    def __truediv__(self, o):
        return self.concretize() / conc(o)

    def __rtruediv__(self, o):
        return o / self.concretize()

    def __pow__(self, o):
        return self.concretize() ** conc(o)

    def __rpow__(self, o):
        return o ** self.concretize()

    def __and__(self, o):
        return self.concretize() & conc(o)

    def __or__(self, o):
        return self.concretize() | conc(o)

    def __xor__(self, o):
        return self.concretize() ^ conc(o)

    def __lshift__(self, o):
        return self.concretize() << conc(o)

    def __rshift__(self, o):
        return self.concretize() >> conc(o)

    def __invert__(self):
        return -self - 1

    def __rand__(self, o):
        return o & self.concretize()

    def __ror__(self, o):
        return o | self.concretize()

    def __rxor__(self, o):
        return o ^ self.concretize()

    def __rlshift__(self, o):
        return o << self.concretize()

    def __rrshift__(self, o):
        return o >> self.concretize()

    def bit_length(self):
        return self.concretize().bit_length()

    def _cmp(self, o, f, quick):
        if isinstance(o, float) and not isinstance(o, bool):
            if o != o or o in (float("inf"), float("-inf")):
                return quick(0, o)
            oe = z3.ToReal(self.e)
            import fractions
            fr = fractions.Fraction(o)
            return mkbool(f(oe, z3.Q(fr.numerator, fr.denominator)))
        t = _as_int(o)
        if t is None:
            return NotImplemented
        oe, olo, ohi = t
        return mkbool(f(self.e, oe))

    def __eq__(self, o):
        t = _as_int(o)
        if t is not None and None not in (self.lo, self.hi, t[1], t[2]):
            if t[1] > self.hi or t[2] < self.lo:
                return False
        if self.src is not None and t is not None:
            d = o.src if isinstance(o, SymInt) else (chars_of(str(int(o))) if isinstance(o, int) and o >= 0 else None)
            if d is not None:
                n = max(len(d), len(self.src))
                r = seq_eq([48] * (n - len(self.src)) + list(self.src), [48] * (n - len(d)) + list(d))
                return r if isinstance(r, bool) else mkbool(r)
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)
        return False if r is NotImplemented and not is_sym(o) and isinstance(o, (str, type(None), list, dict)) else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else negate(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __bool__(self):
        r = mkbool(self.e != 0)
        return bool(r)

    def concretize(self):
        return E().concretize(self.e).as_long()

    __int__ = concretize
    __index__ = concretize
    __trunc__ = concretize

    def __float__(self):
        return float(self.concretize())

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def is_integer(self):
        return True

    def __hash__(self):
        return CONST_HASH

    def __str__(self):
        return str(self.concretize())

    def __format__(self, spec):
        return format(self.concretize(), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def to_str(self):
        """Decimal text as a SymStr; forks on sign and number of digits only."""
        if self.src is not None:
            d = list(self.src)
            while len(d) > 1 and test(cin(d[0], lambda v: v == 48)):
                d = d[1:]
            return mkstr(d)
        n = self
        neg = False
        if bool(n < 0):
            neg, n = True, -n
            if not is_sym(n):
                return "-" + str(n)
        digits = 1
        while True:
            r = n < 10 ** digits
            if bool(r):
                break
            digits += 1
            if digits > 12:
                return str(self.concretize())
        if not is_sym(n):
            return ("-" if neg else "") + str(n)
        e = E()
        v = z3.simplify(n.e)
        key = ("dec", v.get_id(), digits)
        cache = e.__dict__.setdefault("_deccache", {})
        if cache.get("_path") is not e.decided:
            cache.clear()
            cache["_path"] = e.decided
        if key in cache:
            chars = cache[key]
        else:
            chars = []
            tot = z3.IntVal(0)
            for i in range(digits):
                lo = 1 if (i == 0 and digits > 1) else 0
                dom = tuple(range(48 + lo, 58))
                c = fresh_char("dig", dom)
                chars.append(c)
                tot = tot + digit_expr(c) * (10 ** (digits - 1 - i))
            e.add(tot == n.e)
            cache[key] = chars
            e.keep.append(v)
        return mkstr((["-"] if False else ([45] if neg else [])) + list(chars))


def SymFloatInt(x):
    return x


def conc(x):
    if isinstance(x, SymInt):
        return x.concretize()
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymStr):
        return x.realise()
    return x


# --------------------------------------------------------------------- chars
class SChar:
    __slots__ = ("e", "dom")

    def __init__(self, e, dom):
        self.e, self.dom = e, dom

    def __repr__(self):
        return "SChar(%s in %r)" % (self.e, "".join(map(chr, self.dom)))


def bv(v):
    return z3.BitVecVal(v, BV)


def fresh_char(base, dom, name=None):
    dom = tuple(sorted(set(dom)))
    if len(dom) == 1:
        return dom[0]
    e = z3.BitVec(name or E().name(base), BV)
    E().add(inset(e, dom))
    return SChar(e, dom)


def inset(e, vals, dom=None):
    """e in vals, as ranges; code points outside dom do not matter. vals non-empty and sorted."""
    if dom is None:
        vals = list(vals)
        runs = []
        for v in vals:
            if runs and v == runs[-1][1] + 1:
                runs[-1][1] = v
            else:
                runs.append([v, v])
        out = [e == bv(a) if a == b else z3.And(z3.UGE(e, bv(a)), z3.ULE(e, bv(b))) for a, b in runs]
        return out[0] if len(out) == 1 else z3.Or(out)
    yes = set(vals)
    runs, open_ = [], False
    for i, v in enumerate(dom):
        if v in yes:
            if open_:
                runs[-1][1] = i
            else:
                runs.append([i, i])
            open_ = True
        else:
            open_ = False
    out = []
    for a, b in runs:
        if a == b:
            out.append(e == bv(dom[a]))
        elif a == 0:
            out.append(z3.ULE(e, bv(dom[b])))
        elif b == len(dom) - 1:
            out.append(z3.UGE(e, bv(dom[a])))
        else:
            out.append(z3.And(z3.UGE(e, bv(dom[a])), z3.ULE(e, bv(dom[b]))))
    return out[0] if len(out) == 1 else z3.Or(out)


def digit_expr(c):
    if isinstance(c, int):
        return z3.IntVal(c - 48)
    r = z3.IntVal(c.dom[-1] - 48)
    for v in c.dom[:-1]:
        r = z3.If(c.e == bv(v), z3.IntVal(v - 48), r)
    return r


def ceq(a, b):
    """equality of two characters: python bool or z3 expr"""
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        a, b = b, a
    if isinstance(b, int):
        if b not in a.dom:
            return False
        return a.e == bv(b)
    if a.e.eq(b.e):
        return True
    if not set(a.dom) & set(b.dom):
        return False
    return a.e == b.e


def cin(c, pred):
    """Does the character satisfy pred (a predicate on code points)? bool or z3 expr"""
    if isinstance(c, int):
        return bool(pred(c))
    yes = [v for v in c.dom if pred(v)]
    if not yes:
        return False
    if len(yes) == len(c.dom):
        return True
    no = len(c.dom) - len(yes)
    if no < len(yes):
        ys = set(yes)
        return z3.Not(inset(c.e, [v for v in c.dom if v not in ys], c.dom))
    return inset(c.e, yes, c.dom)


def test(x):
    """decide bool-or-expr, forking"""
    if isinstance(x, bool):
        return x
    if isinstance(x, SymBool):
        return bool(x)
    x = z3.simplify(x)
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return E().branch(x)


def zand(xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x.e if isinstance(x, SymBool) else x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def zor(xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x.e if isinstance(x, SymBool) else x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


def cmap(c, f):
    """Map a code point function (int -> str) over a character; returns list of chars."""
    if isinstance(c, int):
        return [ord(x) for x in f(c)]
    img = {v: f(v) for v in c.dom}
    odd = [v for v in c.dom if len(img[v]) != 1]
    for v in odd:
        if test(c.e == bv(v)):
            return [ord(x) for x in img[v]]
    pairs = [(v, ord(img[v])) for v in c.dom if v not in odd]
    if not pairs:
        raise Unsupported("empty character image")
    if all(a == b for a, b in pairs):
        return [c if not odd else SChar(c.e, tuple(a for a, _ in pairs))]
    outs = sorted(set(b for _, b in pairs))
    if len(outs) == 1:
        return [outs[0]]
    r = c.e
    # group by image or by distance, whichever is fewer; identity is the default
    byimg, bydelta = {}, {}
    for a, b in pairs:
        if a != b:
            byimg.setdefault(b, []).append(a)
            bydelta.setdefault(b - a, []).append(a)
    if len(bydelta) < len(byimg):
        for d, aa in bydelta.items():
            r = z3.If(inset(c.e, aa, c.dom), c.e + bv(d), r)
    else:
        for b, aa in byimg.items():
            r = z3.If(inset(c.e, aa, c.dom), bv(b), r)
    return [SChar(r, tuple(outs))]


def cite_char(cond, a, b):
    """If(cond, a, b) for two single characters"""
    if isinstance(cond, bool):
        return a if cond else b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    da = (a,) if isinstance(a, int) else a.dom
    db = (b,) if isinstance(b, int) else b.dom
    ea = bv(a) if isinstance(a, int) else a.e
    eb = bv(b) if isinstance(b, int) else b.e
    return SChar(z3.If(cond, ea, eb), tuple(sorted(set(da) | set(db))))


def chars_of(s):
    if isinstance(s, SymStr):
        return s.c
    return [ord(x) for x in s]


def mkstr(chars):
    """str if every character is concrete, SymStr otherwise"""
    if all(isinstance(c, int) for c in chars):
        return "".join(map(chr, chars))
    return SymStr(list(chars))


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    return zand([ceq(x, y) for x, y in zip(a, b)])


def str_like(x):
    return isinstance(x, (str, SymStr))


_WS = lambda v: chr(v).isspace()
_LINEBREAKS = set(map(ord, "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"))


class SymStr(Sym):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return "SymStr(%s)" % "".join(chr(x) if isinstance(x, int) else "?" for x in self.c)

    def realise(self):
        """Concrete text, forking so all other texts are explored too."""
        out = []
        for x in self.c:
            out.append(x if isinstance(x, int) else E().concretize(x.e).as_long())
        return "".join(map(chr, out))

    def __str__(self):
        return self.realise()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic string")

    def __hash__(self):
        return CONST_HASH

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        for x in list(self.c):
            yield mkstr([x])

    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            r = seq_eq(self.c, chars_of(o))
            return r if isinstance(r, bool) else mkbool(r)
        if isinstance(o, Sym):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else negate(r)

    def _lex(self, o, strict):
        b = chars_of(o)
        a = self.c
        # result expression built right to left
        res = (len(a) < len(b)) if strict else (len(a) <= len(b))
        for x, y in reversed(list(zip(a, b))):
            lt = self._clt(x, y)
            eq = ceq(x, y)
            res = zor([lt, zand([eq, res])])
        return res if isinstance(res, bool) else mkbool(res)

    @staticmethod
    def _clt(x, y):
        if isinstance(x, int) and isinstance(y, int):
            return x < y
        if isinstance(y, int):
            return cin(x, lambda v: v < y)
        if isinstance(x, int):
            return cin(y, lambda v: x < v)
        if max(x.dom) < min(y.dom):
            return True
        if min(x.dom) >= max(y.dom):
            return False
        return z3.ULT(x.e, y.e)

    def __lt__(self, o):
        return self._lex(o, True) if str_like(o) else NotImplemented

    def __le__(self, o):
        return self._lex(o, False) if str_like(o) else NotImplemented

    def __gt__(self, o):
        return negate(self._lex(o, False)) if str_like(o) else NotImplemented

    def __ge__(self, o):
        return negate(self._lex(o, True)) if str_like(o) else NotImplemented

    def __add__(self, o):
        return join_parts([self, o]) if str_like(o) else NotImplemented

    def __radd__(self, o):
        return join_parts([o, self]) if str_like(o) else NotImplemented

    def __mul__(self, n):
        n = conc(n)
        return mkstr(self.c * n) if isinstance(n, int) else NotImplemented
    __rmul__ = __mul__

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice(conc(k.start), conc(k.stop), conc(k.step))
            return mkstr(self.c[k])
        k = conc(k)
        try:
            return mkstr([self.c[k]])
        except IndexError:
            raise IndexError("string index out of range")

    def __contains__(self, sub):
        if not str_like(sub):
            raise TypeError("'in <string>' requires string as left operand, not " + type(sub).__name__)
        return test(self._contains(sub))

    def _contains(self, sub):
        s = chars_of(sub)
        n, m = len(self.c), len(s)
        if m == 0:
            return True
        return zor([seq_eq(self.c[i:i + m], s) for i in range(n - m + 1)])

    def __mod__(self, args):
        from .ops import sym_percent
        return sym_percent(self, args)

    def __format__(self, spec):
        return format(self.realise(), spec)

    # ---- searching
    def _bounds(self, start, end):
        n = len(self.c)
        start = 0 if start is None else conc(start)
        end = n if end is None else conc(end)
        if start < 0:
            start = max(0, start + n)
        if end < 0:
            end = max(0, end + n)
        return start, min(end, n)

    def find(self, sub, start=None, end=None):
        s = chars_of(sub)
        start, end = self._bounds(start, end)
        if start > len(self.c):
            return -1
        for i in range(start, end - len(s) + 1):
            if test(seq_eq(self.c[i:i + len(s)], s)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        s = chars_of(sub)
        start, end = self._bounds(start, end)
        for i in range(end - len(s), start - 1, -1):
            if test(seq_eq(self.c[i:i + len(s)], s)):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        s = chars_of(sub)
        start, end = self._bounds(start, end)
        if not s:
            return end - start + 1 if end >= start else 0
        n, i = 0, start
        while i + len(s) <= end:
            if test(seq_eq(self.c[i:i + len(s)], s)):
                n += 1
                i += len(s)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        start, end = self._bounds(start, end)
        c = self.c[start:end]
        if isinstance(p, tuple):
            r = zor([seq_eq(c[:len(q)], chars_of(q)) for q in p])
        else:
            r = seq_eq(c[:len(p)], chars_of(p))
        return r if isinstance(r, bool) else mkbool(r)

    def endswith(self, p, start=None, end=None):
        start, end = self._bounds(start, end)
        c = self.c[start:end]

        def one(q):
            q = chars_of(q)
            if len(q) > len(c):
                return False
            return seq_eq(c[len(c) - len(q):], q)
        r = zor([one(q) for q in p]) if isinstance(p, tuple) else one(p)
        return r if isinstance(r, bool) else mkbool(r)

    # ---- splitting
    def _finds(self, s, limit):
        """non overlapping left to right occurrences"""
        out, i, n = [], 0, len(self.c)
        while i + len(s) <= n and (limit < 0 or len(out) < limit):
            if test(seq_eq(self.c[i:i + len(s)], s)):
                out.append(i)
                i += len(s)
            else:
                i += 1
        return out

    def split(self, sep=None, maxsplit=-1):
        maxsplit = conc(maxsplit)
        if sep is None:
            out, i, n = [], 0, len(self.c)
            while True:
                while i < n and test(cin(self.c[i], _WS)):
                    i += 1
                if i >= n:
                    break
                if 0 <= maxsplit <= len(out):
                    j = n
                    while test(cin(self.c[j - 1], _WS)):
                        j -= 1
                    out.append(mkstr(self.c[i:j]))
                    break
                j = i
                while j < n and not test(cin(self.c[j], _WS)):
                    j += 1
                out.append(mkstr(self.c[i:j]))
                i = j
            return out
        s = chars_of(sep)
        if not s:
            raise ValueError("empty separator")
        out, last = [], 0
        for p in self._finds(s, maxsplit):
            out.append(mkstr(self.c[last:p]))
            last = p + len(s)
        out.append(mkstr(self.c[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = conc(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            out, j = [], len(self.c)
            while True:
                while j > 0 and test(cin(self.c[j - 1], _WS)):
                    j -= 1
                if j <= 0:
                    break
                if len(out) >= maxsplit:
                    i = 0
                    while test(cin(self.c[i], _WS)):
                        i += 1
                    out.append(mkstr(self.c[i:j]))
                    break
                i = j
                while i > 0 and not test(cin(self.c[i - 1], _WS)):
                    i -= 1
                out.append(mkstr(self.c[i:j]))
                j = i
            return out[::-1]
        s = chars_of(sep)
        if not s:
            raise ValueError("empty separator")
        out, end = [], len(self.c)
        i = end - len(s)
        while i >= 0 and len(out) < maxsplit:
            if test(seq_eq(self.c[i:i + len(s)], s)):
                out.append(mkstr(self.c[i + len(s):end]))
                end = i
                i -= len(s)
            else:
                i -= 1
        out.append(mkstr(self.c[:end]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (mkstr(self.c[:i]), sep, mkstr(self.c[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (mkstr(self.c[:i]), sep, mkstr(self.c[i + len(sep):]))

    def splitlines(self, keepends=False):
        out, cur, i, n = [], [], 0, len(self.c)
        while i < n:
            x = self.c[i]
            if test(cin(x, lambda v: v in _LINEBREAKS)):
                brk = [x]
                if i + 1 < n and test(ceq(x, 13)) and test(ceq(self.c[i + 1], 10)):
                    brk.append(self.c[i + 1])
                    i += 1
                out.append(mkstr(cur + (brk if keepends else [])))
                cur = []
            else:
                cur.append(x)
            i += 1
        if cur:
            out.append(mkstr(cur))
        return out

    def strip(self, chars=None):
        return _strip(self.c, chars, True, True)

    def lstrip(self, chars=None):
        return _strip(self.c, chars, True, False)

    def rstrip(self, chars=None):
        return _strip(self.c, chars, False, True)

    def removeprefix(self, p):
        return mkstr(self.c[len(p):]) if test(tb(self.startswith(p))) else self

    def removesuffix(self, p):
        return mkstr(self.c[:len(self.c) - len(p)]) if len(p) and test(tb(self.endswith(p))) else self

    def replace(self, old, new, count=-1):
        count = conc(count)
        s, t = chars_of(old), chars_of(new)
        if not s:
            out, k = [], 0
            for x in self.c:
                if count < 0 or k < count:
                    out += t
                    k += 1
                out.append(x)
            if count < 0 or k < count:
                out += t
            return mkstr(out)
        if len(s) == 1 and len(t) == 1 and count < 0:
            return mkstr([cite_char(ceq(x, s[0]), t[0], x) for x in self.c])
        out, last = [], 0
        for p in self._finds(s, count):
            out += self.c[last:p] + t
            last = p + len(s)
        out += self.c[last:]
        return mkstr(out)

    def join(self, it):
        return sym_join(self, it)

    def format(self, *a, **k):
        from .ops import sym_format
        return sym_format(self.realise(), a, k)

    # ---- case
    def _map(self, f):
        out = []
        for x in self.c:
            out += cmap(x, f)
        return mkstr(out)

    def upper(self):
        return self._map(lambda v: chr(v).upper())

    def lower(self):
        if any((x == 0x3a3) if isinstance(x, int) else (0x3a3 in x.dom) for x in self.c):
            return self.realise().lower()
        return self._map(lambda v: chr(v).lower())

    def casefold(self):
        return self._map(lambda v: chr(v).casefold())

    def swapcase(self):
        return self._map(lambda v: chr(v).swapcase())

    def capitalize(self):
        out = []
        for i, x in enumerate(self.c):
            out += cmap(x, (lambda v: chr(v).title()) if i == 0 else (lambda v: chr(v).lower()))
        return mkstr(out)

    def title(self):
        out = []
        prev = False
        for x in self.c:
            cased = cin(x, lambda v: _is_cased(v))
            up = cmap(x, lambda v: chr(v).title())
            lo = cmap(x, lambda v: chr(v).lower())
            if isinstance(prev, bool):
                out += lo if prev else up
            elif len(up) == 1 and len(lo) == 1:
                out.append(cite_char(prev, lo[0], up[0]))
            else:
                out += lo if test(prev) else up
            prev = cased
        return mkstr(out)

    # ---- predicates
    def _all(self, pred):
        if not self.c:
            return False
        r = zand([cin(x, pred) for x in self.c])
        return r if isinstance(r, bool) else mkbool(r)

    def isdigit(self):
        return self._all(lambda v: chr(v).isdigit())

    def isnumeric(self):
        return self._all(lambda v: chr(v).isnumeric())

    def isdecimal(self):
        return self._all(lambda v: chr(v).isdecimal())

    def isalpha(self):
        return self._all(lambda v: chr(v).isalpha())

    def isalnum(self):
        return self._all(lambda v: chr(v).isalnum())

    def isspace(self):
        return self._all(lambda v: chr(v).isspace())

    def isascii(self):
        return self._all(lambda v: v < 128)

    def isprintable(self):
        return self._all(lambda v: chr(v).isprintable())

    def isupper(self):
        r = zand([zor([cin(x, _is_cased)for x in self.c]),
                  zand([cin(x, lambda v: not _is_cased(v) or chr(v).isupper()) for x in self.c])])
        return r if isinstance(r, bool) else mkbool(r)

    def islower(self):
        r = zand([zor([cin(x, _is_cased)for x in self.c]),
                  zand([cin(x, lambda v: not _is_cased(v) or chr(v).islower()) for x in self.c])])
        return r if isinstance(r, bool) else mkbool(r)

    def istitle(self):
        return self.realise().istitle()

    def isidentifier(self):
        return self.realise().isidentifier()

    # ---- padding
    def zfill(self, w):
        w = conc(w)
        if len(self.c) >= w:
            return self
        if test(cin(self.c[0], lambda v: v in (43, 45))):
            return mkstr([self.c[0]] + [48] * (w - len(self.c)) + self.c[1:])
        return mkstr([48] * (w - len(self.c)) + self.c)

    def ljust(self, w, fill=" "):
        return mkstr(self.c + chars_of(fill) * max(0, conc(w) - len(self.c)))

    def rjust(self, w, fill=" "):
        return mkstr(chars_of(fill) * max(0, conc(w) - len(self.c)) + self.c)

    def center(self, w, fill=" "):
        pad = max(0, conc(w) - len(self.c))
        left = pad // 2 + (pad & conc(w) & 1)
        return mkstr(chars_of(fill) * left + self.c + chars_of(fill) * (pad - left))

    def expandtabs(self, n=8):
        return self.realise().expandtabs(n)

    def translate(self, table):
        def f(v):
            try:
                r = table[v]
            except LookupError:
                return chr(v)
            if r is None:
                return ""
            return chr(r) if isinstance(r, int) else r
        return self._map(f)

    def encode(self, encoding="utf-8", errors="strict"):
        return SymBytes(self, encoding, errors)

    def __getattr__(self, name):
        raise AttributeError("'str' object has no attribute %r" % name)


class SymBytes(Sym):
    """Encoded text, kept as text; only comparison and decoding are supported."""
    __slots__ = ("s", "enc", "errors")

    def __init__(self, s, enc, errors="strict"):
        self.s, self.enc, self.errors = s, enc, errors

    def decode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("-", "") == self.enc.lower().replace("-", ""):
            return self.s
        return self.realise().decode(encoding, errors)

    def realise(self):
        return conc(self.s).encode(self.enc, self.errors)

    def __eq__(self, o):
        if isinstance(o, SymBytes):
            return self.s == o.s if o.enc == self.enc else self.realise() == o.realise()
        if isinstance(o, bytes):
            return self.s == o.decode(self.enc)
        return NotImplemented

    def __hash__(self):
        return CONST_HASH

    def __len__(self):
        return len(self.realise())


class LazyStr(SymStr):
    """Text that is worked out only when something looks at it (working it out may fork)."""
    __slots__ = ("f", "got")

    def __init__(self, f):
        self.f, self.got = f, None

    @property
    def c(self):
        if self.got is None:
            self.got = list(chars_of(self.f()))
        return self.got


def join_parts(parts):
    if any(type(p) is LazyStr and p.got is None for p in parts):
        return LazyStr(lambda: join_chars(parts))
    return join_chars(parts)


def join_chars(parts):
    out = []
    for p in parts:
        out = out + chars_of(p)
    return mkstr(out)


def str_repr(x):
    """repr of a symbolic string"""
    cs = x.c
    dq = 34 if test(zor([ceq(v, 39) for v in cs])) and not test(zor([ceq(v, 34) for v in cs])) else 39
    out = [dq]
    for v in cs:
        if test(cin(v, lambda n: n in (92, dq) or not chr(n).isprintable())):
            n = v if isinstance(v, int) else E().concretize(v.e).as_long()
            out += [92, n] if n in (92, dq) else [ord(y) for y in repr(chr(n))[1:-1]]
        else:
            out.append(v)
    return mkstr(out + [dq])


def _is_cased(v):
    ch = chr(v)
    return ch.isupper() or ch.islower() or ch.istitle()


def tb(x):
    return x.e if isinstance(x, SymBool) else x


def _strip(c, chars, left, right):
    if chars is None:
        p = lambda x: cin(x, _WS)
    else:
        cs = chars_of(chars)
        p = lambda x: zor([ceq(x, y) for y in cs])
    i, j = 0, len(c)
    if left:
        while i < j and test(p(c[i])):
            i += 1
    if right:
        while j > i and test(p(c[j - 1])):
            j -= 1
    return mkstr(c[i:j])


def sym_join(sep, it):
    items = list(it)
    out = []
    s = chars_of(sep)
    for k, x in enumerate(items):
        if not str_like(x):
            raise TypeError("sequence item %d: expected str instance, %s found" % (k, pytype(x).__name__))
        if k:
            out += s
        out += chars_of(x)
    return mkstr(out)


def pytype(x):
    if isinstance(x, SymStr):
        return str
    if isinstance(x, SymInt):
        return int
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymBytes):
        return bytes
    return type(x)


# --------------------------------------------------------------------- hash
class SymHash(int):
    """hash() of a value, compared by the value hashed (assumption: no hash collisions).

    The integer value is constant so every container built on it has to ask __eq__.
    """
    def __new__(cls, obj):
        r = int.__new__(cls, CONST_HASH)
        r.obj = obj
        return r

    def __eq__(self, o):
        if isinstance(o, SymHash):
            a, b = self.obj, o.obj
            if str_like(a) != str_like(b):
                return False
            return deep_eq(a, b)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else negate(r)

    def __hash__(self):
        return CONST_HASH

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def deep_eq(a, b):
    """a == b without forking where possible: bool or SymBool"""
    if a is b:
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if isinstance(a, tuple) != isinstance(b, tuple) or len(a) != len(b):
            return False
        r = zand([deep_eq(x, y) for x, y in zip(a, b)])
        return r if isinstance(r, bool) else mkbool(r)
    return a == b


def has_sym(x, depth=3):
    """Does a hashable key involve symbolic data (or hash through it)?"""
    if isinstance(x, (Sym, SymHash)):
        return True
    if isinstance(x, (str, int, float, type(None), bytes)):
        return False
    if isinstance(x, (tuple, frozenset)):
        return depth > 0 and any(has_sym(y, depth - 1) for y in x)
    return False
