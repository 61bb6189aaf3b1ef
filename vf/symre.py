"""`re` for symbolic text: a backtracking matcher over CPython's own parsed pattern.

It follows the order in which CPython's engine tries alternatives, deciding
each character test with the solver.
"""
import re as _re
from re import _parser, _constants as C
from .values import *
from .values import Sym, SymStr
from .core import Unsupported


def _cat(cat):
    w = lambda v: chr(v).isalnum() or v == 95
    d = lambda v: chr(v).isdecimal()
    s = lambda v: chr(v).isspace()
    return {C.CATEGORY_DIGIT: d, C.CATEGORY_NOT_DIGIT: lambda v: not d(v),
            C.CATEGORY_SPACE: s, C.CATEGORY_NOT_SPACE: lambda v: not s(v),
            C.CATEGORY_WORD: w, C.CATEGORY_NOT_WORD: lambda v: not w(v)}[cat]


def _inpred(items):
    neg = False
    preds = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            preds.append(lambda v, av=av: v == av)
        elif op is C.RANGE:
            preds.append(lambda v, av=av: av[0] <= v <= av[1])
        elif op is C.CATEGORY:
            preds.append(_cat(av))
        else:
            raise Unsupported("regex set item %s" % op)
    return lambda v: any(p(v) for p in preds) != neg


def _fold(p, flags):
    if flags & _re.IGNORECASE:
        def q(v):
            ch = chr(v)
            return any(len(x) == 1 and p(ord(x)) for x in {ch, ch.lower(), ch.upper()})
        return q
    return p


class _M:
    def __init__(self, chars, flags):
        self.c, self.n, self.flags = chars, len(chars), flags

    def seq(self, items, k, i, g, cont):
        """match items[k:] at i, then cont(i, g); returns result of cont or None"""
        if k == len(items):
            return cont(i, g)
        op, av = items[k]
        nxt = lambda j, h: self.seq(items, k + 1, j, h, cont)
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i >= self.n:
                return None
            if not self.one(op, av, i):
                return None
            return nxt(i + 1, g)
        if op is C.SUBPATTERN:
            grp, addf, delf, sub = av
            if addf or delf:
                raise Unsupported("inline regex flags")

            def after(j, h):
                if grp is not None:
                    h = dict(h)
                    h[grp] = (i, j)
                    h["last"] = grp
                return nxt(j, h)
            return self.seq(list(sub), 0, i, g, after)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, i, g, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            hi = float("inf") if hi is C.MAXREPEAT else hi
            if len(sub) == 1 and sub[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
                return self.simple_rep(sub[0], lo, hi, op is C.MAX_REPEAT, i, g, nxt)
            return self.rep(sub, lo, hi, op is C.MAX_REPEAT, i, g, nxt, 0, -1)
        if op is C.AT:
            if not self.at(av, i):
                return None
            return nxt(i, g)
        if op is C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            m = b - a
            if i + m > self.n or not test(seq_eq(self.c[a:b], self.c[i:i + m])):
                return None
            return nxt(i + m, g)
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            if d < 0:
                w = _re._parser  # look-behind of fixed width
                lo, hi = sub.getwidth()
                r = None if i < lo else self.seq(list(sub), 0, i - lo, g, lambda j, h: (j, h) if j == i else None)
            else:
                r = self.seq(list(sub), 0, i, g, lambda j, h: (j, h))
            if (r is not None) != (op is C.ASSERT):
                return None
            return nxt(i, r[1] if r is not None else g)
        raise Unsupported("regex op %s" % op)

    def one(self, op, av, i):
        ch = self.c[i]
        if op is C.LITERAL:
            p = lambda v: v == av
        elif op is C.NOT_LITERAL:
            p = lambda v: v != av
        elif op is C.ANY:
            p = (lambda v: True) if self.flags & _re.DOTALL else (lambda v: v != 10)
        else:
            p = _inpred(av)
        return test(cin(ch, _fold(p, self.flags)))

    def simple_rep(self, item, lo, hi, greedy, i, g, nxt):
        op, av = item
        if greedy:
            j = i
            while j - i < hi and j < self.n and self.one(op, av, j):
                j += 1
            while j - i >= lo:
                r = nxt(j, g)
                if r is not None:
                    return r
                j -= 1
            return None
        j = i
        while True:
            if j - i >= lo:
                r = nxt(j, g)
                if r is not None:
                    return r
            if j - i >= hi or j >= self.n or not self.one(op, av, j):
                return None
            j += 1

    def rep(self, sub, lo, hi, greedy, i, g, nxt, count, last):
        more = count < hi and not (i == last and count >= lo)

        def again():
            return self.seq(sub, 0, i, g, lambda j, h: self.rep(sub, lo, hi, greedy, j, h, nxt, count + 1, i))
        if count < lo:
            return again()
        if greedy:
            if more:
                r = again()
                if r is not None:
                    return r
            return nxt(i, g)
        r = nxt(i, g)
        if r is not None:
            return r
        return again() if more else None

    def at(self, where, i):
        n = self.n
        nl = lambda k: test(ceq(self.c[k], 10))
        if where is C.AT_BEGINNING:
            return i == 0 or bool(self.flags & _re.MULTILINE and nl(i - 1))
        if where is C.AT_BEGINNING_STRING:
            return i == 0
        if where is C.AT_END:
            if i == n:
                return True
            if self.flags & _re.MULTILINE:
                return nl(i)
            return i == n - 1 and nl(i)
        if where is C.AT_END_STRING:
            return i == n
        if where in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = _cat(C.CATEGORY_WORD)
            a = i > 0 and test(cin(self.c[i - 1], w))
            b = i < n and test(cin(self.c[i], w))
            return (a != b) == (where is C.AT_BOUNDARY)
        raise Unsupported("regex anchor %s" % where)


class SymMatch:
    def __init__(self, pat, s, a, b, g):
        self.re, self.string, self._a, self._b, self._g = pat, s, a, b, g
        self.pos, self.endpos = 0, len(s)

    def _num(self, k):
        if isinstance(k, str):
            return self.re._p.groupindex[k]
        if k > self.re._p.groups:
            raise IndexError("no such group")
        return k

    def span(self, k=0):
        k = self._num(k)
        if k == 0:
            return (self._a, self._b)
        return self._g.get(k, (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _one(self, k, default=None):
        a, b = self.span(k)
        return default if a < 0 else mkstr(chars_of(self.string)[a:b])

    def group(self, *ks):
        if not ks:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    def __getitem__(self, k):
        return self._one(k)

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re._p.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(k, default) for n, k in self.re._p.groupindex.items()}

    @property
    def lastindex(self):
        return self._g.get("last")

    def __bool__(self):
        return True

    def __copy__(self):
        return self


class SymPattern:
    def __init__(self, p):
        self._p = p
        self.pattern, self.flags, self.groups, self.groupindex = p.pattern, p.flags, p.groups, p.groupindex
        self._tree = None

    def _items(self):
        if self._tree is None:
            self._tree = list(_parser.parse(self._p.pattern, self._p.flags & ~_re.UNICODE & ~_re.DEBUG))
        return self._tree

    def _at(self, s, i, full=False):
        m = _M(chars_of(s), self._p.flags)
        r = m.seq(self._items(), 0, i, {}, lambda j, g: (j, g) if (not full or j == m.n) else None)
        return None if r is None else SymMatch(self, s, i, r[0], r[1])

    def match(self, s, pos=0, *e):
        if not isinstance(s, Sym):
            return self._p.match(s, pos, *e)
        return self._at(s, pos)

    def fullmatch(self, s, pos=0, *e):
        if not isinstance(s, Sym):
            return self._p.fullmatch(s, pos, *e)
        return self._at(s, pos, True)

    def search(self, s, pos=0, *e):
        if not isinstance(s, Sym):
            return self._p.search(s, pos, *e)
        for i in range(pos, len(s) + 1):
            m = self._at(s, i)
            if m is not None:
                return m
        return None

    def finditer(self, s):
        if not isinstance(s, Sym):
            yield from self._p.finditer(s)
            return
        i, last_empty = 0, -1
        prev_end = -1
        while i <= len(s):
            m = self._at(s, i)
            if m is None:
                i += 1
                continue
            a, b = m.span()
            if a == b and a == prev_end:
                i += 1
                continue
            yield m
            prev_end = b
            i = b if b > a else b
            if b == a:
                # an empty match: try a non-empty one later
                i = a + 1

    def findall(self, s):
        if not isinstance(s, Sym):
            return self._p.findall(s)
        out = []
        for m in self.finditer(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m._one(1, ""))
            else:
                out.append(m.groups(""))
        return out

    def split(self, s, maxsplit=0):
        if not isinstance(s, Sym):
            return self._p.split(s, maxsplit)
        c, out, last, n = chars_of(s), [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(mkstr(c[last:m.start()]))
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(mkstr(c[last:]))
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        if not isinstance(s, Sym) and not isinstance(repl, Sym):
            return self._p.subn(repl, s, count)
        c, out, last, n = chars_of(s), [], 0, 0
        for m in self.finditer(s) if isinstance(s, Sym) else self._p.finditer(s):
            if count and n >= count:
                break
            out += c[last:m.start()]
            if callable(repl):
                r = repl(m)
            elif isinstance(repl, str) and "\\" in repl:
                r = _expand(repl, m)
            else:
                r = repl
            out += chars_of(r)
            last = m.end()
            n += 1
        out += c[last:]
        return mkstr(out), n


def _expand(repl, m):
    out, i = [], 0
    for mm in _re.finditer(r"\\(?:g<(\w+)>|(\d)|(.))", repl):
        out += [ord(x) for x in repl[i:mm.start()]]
        if mm.group(3):
            out += [ord(x) for x in {"n": "\n", "t": "\t", "\\": "\\"}.get(mm.group(3), mm.group(0))]
        else:
            k = mm.group(1) or mm.group(2)
            out += chars_of(m._one(int(k) if k.isdigit() else k, ""))
        i = mm.end()
    out += [ord(x) for x in repl[i:]]
    return mkstr(out)


class ReProxy:
    def compile(self, p, flags=0):
        if isinstance(p, SymPattern):
            return p
        if isinstance(p, Sym):
            p = p.realise()
        return SymPattern(_re.compile(p, flags))

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def sub(self, p, r, s, count=0, flags=0):
        return self.compile(p, flags).sub(r, s, count)

    def subn(self, p, r, s, count=0, flags=0):
        return self.compile(p, flags).subn(r, s, count)

    def split(self, p, s, maxsplit=0, flags=0):
        return self.compile(p, flags).split(s, maxsplit)

    def findall(self, p, s, flags=0):
        return self.compile(p, flags).findall(s)

    def finditer(self, p, s, flags=0):
        return self.compile(p, flags).finditer(s)

    def escape(self, s):
        return _re.escape(conc(s))

    def __getattr__(self, n):
        return getattr(_re, n)


RE = ReProxy()
