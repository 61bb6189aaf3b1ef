"""dict/set subclasses whose lookups stay right when keys are symbolic.

Symbolic keys hash to a constant, concrete ones to their usual hash, so a
lookup involving a symbolic key scans the keys with (forking) equality.
"""
import collections.abc
from .values import Sym, SymHash, has_sym, CONST_HASH, SymBool

_MISSING = object()


def keysym(k):
    t = type(k)
    if t is str or t is int:
        return False
    if has_sym(k):
        return True
    return False


def _eq(a, b):
    if a is b:
        return True
    if isinstance(a, (str, int, float)) and isinstance(b, (str, int, float)) and \
            not isinstance(a, (Sym, SymHash)) and not isinstance(b, (Sym, SymHash)):
        return a == b
    return bool(a == b)


class _DictMixin:
    """Overrides of the lookup methods; `_nsym` says whether a symbolic key was ever stored."""

    def _find(self, k):
        base = self._base
        if not keysym(k):
            if base.__contains__(self, k):
                return k
            if not self._has_sym():
                return _MISSING
        for kk in list(base.keys(self)):
            if kk is k:
                return kk
        for kk in list(base.keys(self)):
            if not keysym(k) and not keysym(kk):
                continue
            if _eq(kk, k):
                return kk
        return _MISSING

    def _has_sym(self):
        d = self.__dict__
        n = len(self)
        if d.get("_n") != n:
            d["_n"] = n
            d["_s"] = any(keysym(k) for k in self._base.keys(self))
        return d["_s"]

    def __getitem__(self, k):
        kk = self._find(k)
        if kk is _MISSING:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return self._base.__getitem__(self, kk)

    def __setitem__(self, k, v):
        kk = self._find(k)
        if kk is _MISSING:
            self._base.__setitem__(self, k, v)
            self.__dict__["_n"] = None
        else:
            self._base.__setitem__(self, kk, v)

    def __delitem__(self, k):
        kk = self._find(k)
        if kk is _MISSING:
            raise KeyError(k)
        self._base.__delitem__(self, kk)
        self.__dict__["_n"] = None

    def __contains__(self, k):
        if keysym(k) or self._has_sym():
            return self._find(k) is not _MISSING
        return self._base.__contains__(self, k)

    def get(self, k, default=None):
        kk = self._find(k)
        return default if kk is _MISSING else self._base.__getitem__(self, kk)

    def setdefault(self, k, default=None):
        kk = self._find(k)
        if kk is _MISSING:
            self[k] = default
            return default
        return self._base.__getitem__(self, kk)

    def pop(self, k, *default):
        kk = self._find(k)
        if kk is _MISSING:
            if default:
                return default[0]
            raise KeyError(k)
        v = self._base.__getitem__(self, kk)
        self._base.__delitem__(self, kk)
        self.__dict__["_n"] = None
        return v

    def update(self, *a, **kw):
        for x in a:
            if hasattr(x, "keys"):
                for k in list(x.keys()):
                    self[k] = x[k]
            else:
                for k, v in x:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        r = self._empty()
        for k in self._base.keys(self):
            self._base.__setitem__(r, k, self._base.__getitem__(self, k))
        return r
    __copy__ = copy

    def _empty(self):
        return type(self)()

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        so = o if isinstance(o, _DictMixin) else SDict(o)
        for k in list(self._base.keys(self)):
            if not so.__contains__(k):
                return False
            if not (self._base.__getitem__(self, k) == so[k]):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def keys(self):
        return SKeys(self)


class SKeys(collections.abc.KeysView):
    def __init__(self, d):
        self._mapping = d

    def __repr__(self):
        return "dict_keys(%r)" % list(self)

    @classmethod
    def _from_iterable(cls, it):
        return SSet(it)


class SDict(_DictMixin, dict):
    _base = dict

    def __init__(self, *a, **kw):
        dict.__init__(self)
        if a or kw:
            self.update(*a, **kw)

    @classmethod
    def fromkeys(cls, it, v=None):
        return cls((k, v) for k in it)

    def __reduce_ex__(self, p):
        return (SDict, (list(dict.items(self)),))


class SOrderedDict(_DictMixin, collections.OrderedDict):
    _base = collections.OrderedDict

    def __init__(self, *a, **kw):
        collections.OrderedDict.__init__(self)
        if a or kw:
            self.update(*a, **kw)

    def move_to_end(self, k, last=True):
        kk = self._find(k)
        if kk is _MISSING:
            raise KeyError(k)
        collections.OrderedDict.move_to_end(self, kk, last)

    def __reduce_ex__(self, p):
        return (SOrderedDict, (list(collections.OrderedDict.items(self)),))


class SDefaultDict(_DictMixin, collections.defaultdict):
    _base = collections.defaultdict

    def __init__(self, factory=None, *a, **kw):
        collections.defaultdict.__init__(self, factory)
        if a or kw:
            self.update(*a, **kw)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v

    def _empty(self):
        return type(self)(self.default_factory)

    def __reduce_ex__(self, p):
        return (SDefaultDict, (self.default_factory, list(dict.items(self))))


class SCounter(_DictMixin, collections.Counter):
    _base = dict

    def __init__(self, *a, **kw):
        dict.__init__(self)
        self.update(*a, **kw)

    def __missing__(self, k):
        return 0

    def update(self, it=None, /, **kw):
        if it is not None:
            if isinstance(it, collections.abc.Mapping):
                for k in list(it.keys()):
                    self[k] = it[k] + self.get(k, 0)
            else:
                for k in it:
                    self[k] = self.get(k, 0) + 1
        for k, v in kw.items():
            self[k] = v + self.get(k, 0)

    def subtract(self, it=None, /, **kw):
        if isinstance(it, collections.abc.Mapping):
            for k in list(it.keys()):
                self[k] = self.get(k, 0) - it[k]
        elif it is not None:
            for k in it:
                self[k] = self.get(k, 0) - 1

    def copy(self):
        return SCounter(self)
    __copy__ = copy

    def __reduce_ex__(self, p):
        return (SCounter, (SDict(self),))

    def __eq__(self, o):
        return _DictMixin.__eq__(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __delitem__(self, k):
        if k in self:
            _DictMixin.__delitem__(self, k)

    def __add__(self, o):
        r = SCounter(self)
        r.update(o)
        return SCounter({k: v for k, v in r.items() if v > 0})


def _setlike(o):
    return isinstance(o, (set, frozenset, collections.abc.KeysView, collections.abc.ItemsView)) or type(o).__name__ in ('dict_keys', 'dict_items')


class _SetMixin:
    def _find(self, k):
        base = self._base
        if not keysym(k):
            if base.__contains__(self, k):
                return k
            if not any(keysym(kk) for kk in base.__iter__(self)):
                return _MISSING
        for kk in list(base.__iter__(self)):
            if kk is k:
                return kk
        for kk in list(base.__iter__(self)):
            if not keysym(k) and not keysym(kk):
                continue
            if _eq(kk, k):
                return kk
        return _MISSING

    def __contains__(self, k):
        return self._find(k) is not _MISSING

    def copy(self):
        return type(self)(self)
    __copy__ = copy

    def union(self, *os):
        r = list(self)
        for o in os:
            r += list(o)
        return type(self)(r)

    def intersection(self, *os):
        cur = list(self)
        for o in os:
            so = o if isinstance(o, _SetMixin) else SSet(o)
            cur = [x for x in cur if x in so]
        return type(self)(cur)

    def difference(self, *os):
        cur = list(self)
        for o in os:
            so = o if isinstance(o, _SetMixin) else SSet(o)
            cur = [x for x in cur if x not in so]
        return type(self)(cur)

    def symmetric_difference(self, o):
        so = o if isinstance(o, _SetMixin) else SSet(o)
        return type(self)([x for x in self if x not in so] + [x for x in so if x not in self])

    def __or__(self, o):
        if not _setlike(o):
            return NotImplemented
        return self.union(o) if isinstance(o, collections.abc.Set) else NotImplemented
    __ror__ = __or__

    def __and__(self, o):
        if not _setlike(o):
            return NotImplemented
        return self.intersection(o) if isinstance(o, collections.abc.Set) else NotImplemented
    __rand__ = __and__

    def __sub__(self, o):
        if not _setlike(o):
            return NotImplemented
        return self.difference(o) if isinstance(o, collections.abc.Set) else NotImplemented

    def __rsub__(self, o):
        if not _setlike(o):
            return NotImplemented
        return SSet(o).difference(self) if isinstance(o, collections.abc.Set) else NotImplemented

    def __xor__(self, o):
        if not _setlike(o):
            return NotImplemented
        return self.symmetric_difference(o) if isinstance(o, collections.abc.Set) else NotImplemented
    __rxor__ = __xor__

    def issubset(self, o):
        so = o if isinstance(o, _SetMixin) else SSet(o)
        return all(x in so for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __le__(self, o):
        return self.issubset(o) if isinstance(o, collections.abc.Set) else NotImplemented

    def __ge__(self, o):
        return self.issuperset(o) if isinstance(o, collections.abc.Set) else NotImplemented

    def __lt__(self, o):
        return (len(self) < len(o) and self.issubset(o)) if isinstance(o, collections.abc.Set) else NotImplemented

    def __gt__(self, o):
        return (len(self) > len(o) and self.issuperset(o)) if isinstance(o, collections.abc.Set) else NotImplemented

    def __eq__(self, o):
        if not isinstance(o, collections.abc.Set):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r


class SSet(_SetMixin, set):
    _base = set
    __hash__ = None

    def __init__(self, it=()):
        set.__init__(self)
        for x in it:
            self.add(x)

    def add(self, k):
        if self._find(k) is _MISSING:
            set.add(self, k)

    def discard(self, k):
        kk = self._find(k)
        if kk is not _MISSING:
            set.discard(self, kk)

    def remove(self, k):
        kk = self._find(k)
        if kk is _MISSING:
            raise KeyError(k)
        set.discard(self, kk)

    def update(self, *os):
        for o in os:
            for x in list(o):
                self.add(x)

    def difference_update(self, *os):
        for o in os:
            for x in list(o):
                self.discard(x)

    def intersection_update(self, *os):
        keep = self.intersection(*os)
        for x in list(self):
            if not any(x is y for y in keep):
                set.discard(self, x)

    def symmetric_difference_update(self, o):
        r = self.symmetric_difference(o)
        self.clear()
        self.update(r)

    def __ior__(self, o):
        if not _setlike(o):
            return NotImplemented
        self.update(o)
        return self

    def __iand__(self, o):
        if not _setlike(o):
            return NotImplemented
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        if not _setlike(o):
            return NotImplemented
        self.difference_update(list(o))
        return self

    def __ixor__(self, o):
        if not _setlike(o):
            return NotImplemented
        self.symmetric_difference_update(o)
        return self

    def __reduce_ex__(self, p):
        return (SSet, (list(self),))


class SFrozenSet(_SetMixin, frozenset):
    _base = frozenset

    def __new__(cls, it=()):
        return frozenset.__new__(cls, list(SSet(it)))

    def __hash__(self):
        return CONST_HASH
