"""What a harness sees: one interface, symbolic under the engine, concrete on replay."""
import json
import os
import shutil
import tempfile

REGISTRY = {}


class Violation(BaseException):
    """Concrete replay: a check failed."""


class Infeasible(BaseException):
    """Concrete replay: an assumption does not hold for these inputs."""


def harness(prop, quick, thorough=None, bounds="", doc=""):
    """Register a harness for property `prop`; quick/thorough list its shapes (keyword arguments)."""
    def deco(f):
        REGISTRY.setdefault(prop, []).append(
            dict(fn=f, name=f.__name__, module=f.__module__, quick=quick, thorough=thorough or quick, bounds=bounds))
        return f
    return deco


class Base:
    def __init__(self, mk):
        self.mk = mk
        self.obs = []
        self.inputs = {}
        self._tmp = None
        self.findings = []
        self.nchecks = 0
        self.labels = {}

    def tmp(self):
        if self._tmp is None:
            self._tmp = os.path.realpath(tempfile.mkdtemp(prefix="vf_"))
            self._on_tmp(self._tmp)
        return self._tmp

    def _on_tmp(self, d):
        pass

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def raises(self, f, *a, **k):
        """The exception f raises, or None."""
        try:
            f(*a, **k)
        except Exception as e:
            return e
        return None

    def attempt(self, f, *a, **k):
        """(result, None) or (None, exception)"""
        try:
            return f(*a, **k), None
        except Exception as e:
            return None, e

    def fail(self, msg):
        self.check(False, msg)

    def equal(self, actual, expected, msg=""):
        self.observe(msg, actual)
        self.check(self.eq(actual, expected), msg, actual, expected)

    def same_items(self, actual, expected, msg=""):
        """Equal as multisets."""
        actual, expected = list(actual), list(expected)
        self.check(len(actual) == len(expected), msg + " (number of items)", actual, expected)
        rest = list(expected)
        for x in actual:
            for i, y in enumerate(rest):
                if self.truth(self.eq(x, y)):
                    del rest[i]
                    break
            else:
                self.check(False, msg + " (unexpected item)", actual, expected)
                return
        self.observe(msg, len(actual))

    def same_map(self, actual, expected, msg=""):
        """Equal as mappings (expected: list of (key, value) with distinct keys)."""
        self.same_items([(k, v) for k, v in actual], [(k, v) for k, v in expected], msg)

    def distinct(self, xs):
        """The distinct values of xs in first-seen order."""
        out = []
        for x in xs:
            if not any(self.truth(self.eq(x, y)) for y in out):
                out.append(x)
        return out

    def member(self, x, xs):
        return self.any_([self.eq(x, y) for y in xs])


class ConcreteCtx(Base):
    symbolic = False

    def __init__(self, mk, inputs):
        super().__init__(mk)
        self.given = inputs
        self.violation = None

    def s(self, name, *pieces):
        if name in self.given:
            v = self.given[name]
        else:
            out = []
            for p in pieces:
                if isinstance(p, str):
                    out.append(p)
                else:
                    out.append(p[0][0] * (p[1] if len(p) > 1 else 1))
            v = "".join(out)
        self.inputs[name] = v
        return v

    def i(self, name, lo, hi):
        v = self.given.get(name, lo)
        self.inputs[name] = v
        return v

    def b(self, name):
        v = self.given.get(name, False)
        self.inputs[name] = v
        return v

    def pick(self, name, options):
        options = list(options)
        v = self.given.get(name, 0)
        self.inputs[name] = v
        return options[v]

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def check(self, cond, msg="", actual=None, expected=None):
        self.nchecks += 1
        if not cond:
            self.violation = "%s: got %r, expected %r" % (msg, actual, expected) if (actual is not None or expected is not None) else msg
            raise Violation(self.violation)

    def known(self, fid, cond, region, msg=""):
        """cond must hold, except that finding `fid` is allowed to break it where `region` holds."""
        self.nchecks += 1
        if not cond:
            if region:
                self.findings.append((fid, msg))
            else:
                self.violation = msg
                raise Violation(msg)

    def observe(self, label, v):
        self.obs.append((label, canon(v)))

    def truth(self, x):
        return bool(x)

    def eq(self, a, b):
        return a == b

    def all_(self, xs):
        return all(bool(x) for x in xs)

    def any_(self, xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not x

    def count(self, xs):
        return sum(1 for x in xs if x)

    def ite(self, c, a, b):
        return a if c else b

    def total(self, xs):
        return sum(xs)

    def put(self, rel, text, mtime=None, encoding="utf-8"):
        p = os.path.join(self.tmp(), rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding=encoding, newline="") as f:
            f.write(text)
        if mtime is not None:
            os.utime(p, (mtime, mtime))
        return p

    def touch(self, p, mtime):
        os.utime(p, (mtime, mtime))

    def text(self, p, encoding="utf-8"):
        with open(p, "r", encoding=encoding, newline="") as f:
            return f.read()

    def patch_names_db(self, rows):
        pass


def canon(v, depth=6):
    if isinstance(v, (str, int, bool, type(None))):
        return v
    if isinstance(v, bytes):
        return v.decode("utf-8", "replace")
    if isinstance(v, float):
        return round(v, 9)
    if depth == 0:
        return "..."
    if isinstance(v, (list, tuple)):
        return [canon(x, depth - 1) for x in v]
    if isinstance(v, dict):
        return sorted(([canon(k, depth - 1), canon(x, depth - 1)] for k, x in v.items()), key=repr)
    if isinstance(v, (set, frozenset)):
        return sorted((canon(x, depth - 1) for x in v), key=repr)
    return type(v).__name__
