"""The symbolic harness context (runs under the instrumented package)."""
import os
import z3
from .ctx import Base, canon
from .core import Engine, DeadPath, Unsupported
from .values import *
from .values import Sym, SymBool, SymInt, SymStr, SymBytes, SymHash
from . import symio
from .containers import SDict, SSet


class Counterexample(BaseException):
    def __init__(self, msg, model, detail=""):
        self.msg, self.model, self.detail = msg, model, detail


class SymCtx(Base):
    symbolic = True

    def __init__(self, mk, known_findings=()):
        super().__init__(mk)
        self.e = Engine.current
        self.known_findings = set(known_findings)
        self.asserted = 0

    def s(self, name, *pieces):
        chars = []
        k = 0
        for p in pieces:
            if isinstance(p, (str, SymStr)):
                chars += chars_of(p)
            else:
                alpha, n = p[0], (p[1] if len(p) > 1 else 1)
                for _ in range(n):
                    chars.append(fresh_char(name, [ord(x) for x in alpha], name="%s.%d" % (name, k)))
                    k += 1
        v = mkstr(chars)
        self.inputs[name] = v
        return v

    def i(self, name, lo, hi):
        if lo == hi:
            self.inputs[name] = lo
            return lo
        x = z3.Int(name)
        self.e.add(z3.And(x >= lo, x <= hi))
        v = SymInt(x, lo, hi)
        self.inputs[name] = v
        return v

    def b(self, name):
        v = SymBool(z3.Bool(name))
        self.inputs[name] = v
        return v

    def pick(self, name, options):
        options = list(options)
        v = self.i(name, 0, len(options) - 1)
        k = conc(v)
        return options[k]

    def assume(self, cond):
        if isinstance(cond, SymBool):
            if not self.e.branch(cond.e):
                self.e.dead = "assume"
                raise DeadPath("assume")
        elif not cond:
            self.e.dead = "assume"
            raise DeadPath("assume")

    def check(self, cond, msg="", actual=None, expected=None):
        self.nchecks += 1
        self.labels[msg] = self.labels.get(msg, 0) + 1
        if isinstance(cond, SymBool):
            self.asserted += 1
            r, m = self.e.possible(z3.Not(cond.e))
            if r == "sat":
                raise Counterexample(msg, m, "%r vs %r" % (actual, expected))
            if r == "unknown":
                self.e.dead_note("solver unknown on check: " + msg)
        elif not cond:
            m = self.e.feasible_model()
            raise Counterexample(msg, m, "%r vs %r" % (actual, expected))

    def known(self, fid, cond, region, msg=""):
        if fid not in self.known_findings:
            return self.check(cond, msg)
        self.nchecks += 1
        self.labels[msg] = self.labels.get(msg, 0) + 1
        ok = zor([tob(cond), tob(region)])
        self.check(ok if isinstance(ok, bool) else mkbool(ok), msg)
        bad = zand([znot(tob(cond)), tob(region)])
        if bad is False:
            return
        if bad is True:
            self.findings.append((fid, self.e.feasible_model()))
        else:
            r, m = self.e.possible(bad)
            if r == "sat":
                self.findings.append((fid, m))

    def observe(self, label, v):
        self.obs.append((label, snap(v)))

    def truth(self, x):
        return bool(x)

    def eq(self, a, b):
        return sym_eq(a, b)

    def all_(self, xs):
        r = zand([tob(x) for x in xs])
        return r if isinstance(r, bool) else mkbool(r)

    def any_(self, xs):
        r = zor([tob(x) for x in xs])
        return r if isinstance(r, bool) else mkbool(r)

    def not_(self, x):
        return negate(x)

    def count(self, xs):
        n, terms = 0, []
        for x in xs:
            if isinstance(x, SymBool):
                terms.append(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
            elif x:
                n += 1
        if not terms:
            return n
        return SymInt.make(z3.Sum(terms) + n, n, n + len(terms))

    def total(self, xs):
        r = 0
        for x in xs:
            r = r + x
        return r

    def ite(self, c, a, b):
        if not isinstance(c, SymBool):
            return a if c else b
        if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
            ea = a.e if isinstance(a, SymInt) else z3.IntVal(int(a))
            eb = b.e if isinstance(b, SymInt) else z3.IntVal(int(b))
            return SymInt.make(z3.If(c.e, ea, eb))
        return a if bool(c) else b

    def _on_tmp(self, d):
        symio.ROOTS.append(d)

    def put(self, rel, text, mtime=None, encoding="utf-8"):
        p = os.path.join(self.tmp(), rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        symio._touch(p)
        symio.FILES[os.path.realpath(p)] = text
        symio.ENC[os.path.realpath(p)] = symio.norm(encoding)
        if mtime is not None:
            symio.MTIMES[os.path.realpath(p)] = mtime
        return p

    def touch(self, p, mtime):
        symio.MTIMES[os.path.realpath(p)] = mtime

    def text(self, p, encoding="utf-8"):
        p = os.path.realpath(conc(p))
        if p not in symio.FILES:
            raise FileNotFoundError(2, "No such file or directory", p)
        return symio.FILES[p]


def tob(x):
    if isinstance(x, SymBool):
        return x.e
    return bool(x)


def znot(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def sym_eq(a, b):
    """a == b, without forking for strings, ints and sequences of them"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
            (isinstance(a, list) == isinstance(b, list)):
        if len(a) != len(b):
            return False
        r = zand([tob(sym_eq(x, y)) for x, y in zip(a, b)])
        return r if isinstance(r, bool) else mkbool(r)
    return a == b


def model_value(v, m, depth=8):
    """concrete value of v under model m"""
    if isinstance(v, LazyStr) and v.got is None:
        return "..."
    if isinstance(v, SymStr):
        return "".join(chr(x) if isinstance(x, int) else chr(m.eval(x.e, model_completion=True).as_long()) for x in v.c)
    if isinstance(v, SymInt):
        return m.eval(v.e, model_completion=True).as_long()
    if isinstance(v, SymBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, SymBytes):
        return model_value(v.s, m)
    if depth == 0:
        return "..."
    if isinstance(v, (list, tuple)):
        return [model_value(x, m, depth - 1) for x in v]
    if isinstance(v, dict):
        return dict2(model_value(k, m, depth - 1) for k in []) if False else PairDict(
            (freeze(model_value(k, m, depth - 1)), model_value(x, m, depth - 1)) for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return set(freeze(model_value(x, m, depth - 1)) for x in v)
    return v


class PairDict(dict):
    pass


def freeze(x):
    if isinstance(x, list):
        return tuple(freeze(y) for y in x)
    return x


def snap(v):
    """what v is now: containers are copied, so that later changes do not show"""
    if isinstance(v, (list, tuple)) and type(v) in (list, tuple):
        return [snap(x) for x in v]
    if isinstance(v, dict):
        return SDict([(k, snap(x)) for k, x in v.items()])
    if isinstance(v, LazyStr):
        return mkstr(v.c)
    return v
