"""Import hook: loads packages from their current source with every operation
that would need a concrete value routed through the symbolic run time."""
import ast
import builtins
import collections
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import ops, symre, symio

PKGS = {}     # package name -> root directory containing it


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def _call(self, f, args, kw=()):
        return ast.Call(func=self._name(f), args=args, keywords=list(kw))

    def _body(self, statements):
        out = []
        for x in statements:
            y = self.visit(x)
            out.extend(y if isinstance(y, list) else [y])
        return out

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        n.body = self._body(n.body)
        n.bases = [self.visit(x) for x in n.bases]
        n.keywords = [self.visit(x) for x in n.keywords]
        n.decorator_list = [self.visit(x) for x in n.decorator_list]
        self.stack.pop()
        return n

    def _fn(self, n):
        self.stack.append(n.name)
        n.args = self.visit(n.args)
        n.decorator_list = [self.visit(x) for x in n.decorator_list]
        if n.name in ("__bool__", "__len__", "__int__", "__index__"):
            n.decorator_list.append(self._name("_vf_plain"))
        n.returns = None
        body = self._body(n.body)
        mark = ast.Expr(self._call("_vf_fn", [ast.Constant("%s:%s" % (self.mod, ".".join(self.stack)))]))
        at = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
            and isinstance(body[0].value.value, str) else 0
        while at < len(body) and isinstance(body[at], (ast.Nonlocal, ast.Global)):
            at += 1
        body.insert(at, mark)
        n.body = body
        self.stack.pop()
        return n

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_arg(self, n):
        n.annotation = None
        return n

    def visit_AnnAssign(self, n):
        n.annotation = ast.Constant(ast.unparse(n.annotation))
        if n.value is not None:
            n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        items = []
        for k, v in zip(n.keys, n.values):
            items.append(ast.Tuple([self._name("_vf_missing") if k is None else k, v], ast.Load()))
        return self._call("_vf_dict", items)

    def visit_Set(self, n):
        self.generic_visit(n)
        return self._call("_vf_set", n.elts)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return self._call("_vf_SDict", [ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)])

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self._call("_vf_SSet", [ast.GeneratorExp(n.elt, n.generators)])

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                conv = {-1: None, 115: "s", 114: "r", 97: "a"}[v.conversion]
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(None)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(conv), spec], ast.Load()))
            else:
                parts.append(v)
        return self._call("_vf_fstr", parts)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return self._call("_vf_mod", [n.left, n.right])
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = self._call("_vf_in", [n.left, n.comparators[0]])
            return ast.UnaryOp(ast.Not(), c) if isinstance(n.ops[0], ast.NotIn) else c
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant) \
                and isinstance(n.comparators[0].value, bool):
            n.left = self._call("_vf_truth", [n.left])
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == "__class__" and isinstance(n.ctx, ast.Load):
            return self._call("_vf_type", [n.value])
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            return ast.Assign([n.target], self._call("_vf_mod", [self._name(n.target.id), n.value]))
        return n

    def visit_Match(self, n):
        """A match statement becomes the chain of tests it stands for."""
        fresh = iter("_vf_m%d_%d" % (n.lineno, i) for i in range(10 ** 6))
        subject = next(fresh)
        first = ast.Assign([ast.Name(subject, ast.Store())], self.visit(n.subject))
        chain = []
        for case in reversed(n.cases):
            test = self._pattern(case.pattern, self._name(subject), fresh)
            if case.guard is not None:
                test = ast.BoolOp(ast.And(), [test, self.visit(case.guard)])
            chain = [ast.If(test, self._body(case.body), chain)]
        return [ast.copy_location(first, n)] + [ast.copy_location(x, n) for x in chain]

    def _bind(self, name, value):
        """An expression that binds the name and is true."""
        return ast.Subscript(ast.Tuple([ast.NamedExpr(ast.Name(name, ast.Store()), value), ast.Constant(True)],
                                       ast.Load()), ast.Constant(1), ast.Load())

    def _pattern(self, p, x, fresh):
        both = lambda tests: ast.BoolOp(ast.And(), tests) if len(tests) > 1 else tests[0]
        if isinstance(p, ast.MatchValue):
            return ast.Compare(x, [ast.Eq()], [self.visit(p.value)])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(x, [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchOr):
            return ast.BoolOp(ast.Or(), [self._pattern(q, x, fresh) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            tests = [] if p.pattern is None else [self._pattern(p.pattern, x, fresh)]
            if p.name is not None:
                tests.append(self._bind(p.name, x))
            return both(tests or [ast.Constant(True)])

        def part(expr, q):
            name = next(fresh)
            return [self._bind(name, expr), self._pattern(q, self._name(name), fresh)]
        if isinstance(p, ast.MatchSequence):
            stars = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            count = len(p.patterns)
            tests = [self._call("_vf_match_seq", [x, ast.Constant(count - len(stars)), ast.Constant(bool(stars))])]
            for i, q in enumerate(p.patterns):
                if stars and i == stars[0]:
                    if q.name is not None:
                        last = i - count + 1
                        sl = self._call("_vf_slice", [ast.Constant(i), ast.Constant(last or None), ast.Constant(None)])
                        tests.append(self._bind(q.name, self._call("list", [self._call("_vf_getitem", [x, sl])])))
                else:
                    at = i if not stars or i < stars[0] else i - count
                    tests += part(self._call("_vf_getitem", [x, ast.Constant(at)]), q)
            return both(tests)
        if isinstance(p, ast.MatchMapping):
            keys = [self.visit(k) for k in p.keys]
            tests = [self._call("_vf_match_map", [x] + keys)]
            for k, q in zip(keys, p.patterns):
                tests += part(self._call("_vf_getitem", [x, k]), q)
            if p.rest is not None:
                tests.append(self._bind(p.rest, self._call("_vf_match_rest", [x] + keys)))
            return both(tests)
        if isinstance(p, ast.MatchClass):
            cls = self.visit(p.cls)
            tests = [self._call("isinstance", [x, cls])]
            for i, q in enumerate(p.patterns):
                tests += part(self._call("_vf_match_pos", [x, cls, ast.Constant(i)]), q)
            for name, q in zip(p.kwd_attrs, p.kwd_patterns):
                tests.append(self._call("hasattr", [x, ast.Constant(name)]))
                tests += part(self._call("getattr", [x, ast.Constant(name)]), q)
            return both(tests)
        raise TypeError(p)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load):
            return n
        s = n.slice
        if isinstance(s, ast.Slice):
            none = lambda x: x if x is not None else ast.Constant(None)
            s = self._call("_vf_slice", [none(s.lower), none(s.upper), none(s.step)])
        elif isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
            return n
        return self._call("_vf_getitem", [n.value, s])

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and not (f.attr.startswith("__")):
            return ast.Call(func=self._name("_vf_call"), args=[f.value, ast.Constant(f.attr)] + n.args, keywords=n.keywords)
        return n


class Plain:
    """A module of the standard library that needs plain values: what is free is fixed, value by value."""

    def __init__(self, name):
        self.__dict__["_m"] = importlib.import_module(name)

    def __getattr__(self, n):
        import types
        v = getattr(self._m, n)
        if isinstance(v, (types.FunctionType, types.BuiltinFunctionType)):
            return lambda *a, **k: v(*[self._fix(x) for x in a], **{n: self._fix(x) for n, x in k.items()})
        return v

    def _fix(self, x):
        if type(x) in (list, tuple):
            return type(x)(self._fix(y) for y in x)
        return ops.conc(x)


PROXY = {"re": symre.RE, "csv": symio.CSV, "os": symio.OS, "os.path": symio.OS.path,
         "collections": ops.COLLECTIONS, "pickle": symio.PickleProxy(), "io": symio.IO,
         "json": symio.JSON, "xml": symio.XML, "xml.etree": symio.XMLETREE, "xml.etree.ElementTree": symio.XMLTREE}


for _n in ("unicodedata", "textwrap", "html", "fnmatch", "difflib", "shlex", "statistics", "string"):
    PROXY[_n] = Plain(_n)


def import_(name, globals=None, locals=None, fromlist=(), level=0):
    m = builtins.__import__(name, globals, locals, fromlist, level)
    if level == 0:
        if fromlist:
            return PROXY.get(name, m)
        return PROXY.get(name.split(".")[0], m)
    return m


BUILTINS = dict(builtins.__dict__)
BUILTINS.update(ops.NAMES)
BUILTINS.update({
    "open": symio.open_, "__import__": import_,
    "_vf_fn": ops.fn, "_vf_dict": ops.mkdict, "_vf_set": ops.mkset, "_vf_SDict": ops.SDict, "_vf_SSet": ops.SSet,
    "_vf_fstr": ops.fstr, "_vf_mod": ops.mod, "_vf_in": ops.contains, "_vf_getitem": ops.getitem,
    "_vf_slice": slice, "_vf_call": ops.call, "_vf_plain": ops.plain, "_vf_truth": ops.truth, "_vf_type": ops.type_, "_vf_match_seq": ops.match_seq,
    "_vf_match_map": ops.match_map, "_vf_match_rest": ops.match_rest, "_vf_match_pos": ops.match_pos, "_vf_missing": ops._MISSING,
})


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, pkg):
        self.name, self.path, self.pkg = name, path, pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = T(self.name).visit(tree)
        ast.fix_missing_locations(tree)
        module.__dict__["__builtins__"] = BUILTINS
        exec(compile(tree, self.path, "exec", dont_inherit=True), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in PKGS:
            return None
        base = os.path.join(PKGS[top], *name.split("."))
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_file_location(name, p, loader=Loader(name, p, True),
                                                          submodule_search_locations=[base])
            return spec
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=Loader(name, base + ".py", False))
        return None


def install(pkgs):
    PKGS.update(pkgs)
    sys.meta_path.insert(0, Finder())
    import networkx as nx
    from .containers import SDict, _MISSING
    for c in (nx.Graph, nx.DiGraph, nx.MultiGraph, nx.MultiDiGraph):
        c.node_dict_factory = SDict
        c.adjlist_outer_dict_factory = SDict
        c.adjlist_inner_dict_factory = SDict
        c.node_attr_dict_factory = SDict
        _canonical(c, _MISSING)


def _canonical(cls, _MISSING):
    """networkx compares nodes by hash and identity in places of its own: keep one object per node."""
    def node(g, n, also=None):
        k = g._node._find(n)
        if k is not _MISSING:
            return k
        if also is not None and bool(also == n):
            return also
        return n

    def wrap(name, f):
        if name == "add_node":
            def w(g, n, /, **k):
                return f(g, node(g, n), **k)
        elif name == "add_edge":
            def w(g, u, v, /, *a, **k):
                u = node(g, u)
                return f(g, u, node(g, v, u), *a, **k)
        else:
            def w(g, es, **k):
                for e in list(es):
                    u = node(g, e[0])
                    f(g, [(u, node(g, e[1], u)) + tuple(e[2:])], **k)
        w.__name__ = name
        return w
    for name in ("add_node", "add_edge", "add_edges_from"):
        if name in cls.__dict__:
            setattr(cls, name, wrap(name, cls.__dict__[name]))
