"""Flow-insensitive, interprocedural inference of the kinds of values the package's expressions can have.

Kinds: 'num' (a measured quantity: Decimal, float, numpy scalar), 'int' (a count or index), 'bool', 'str', 'none',
('coll', site), ('tup', site, n), ('obj', ClassInfo), ('cls', ClassInfo), ('fn', key), ('bm', key, ClassInfo), ('ext', path), ('mod', name).
Sources are literals, documented and annotated parameter types, and known library functions; values flow through assignments,
attributes, containers, calls and returns until nothing changes."""
import ast
import re

from . import webs
from .model import ClassInfo, FuncInfo, Program, Unsupported, rel

QUANT = {"decimal.Decimal", "builtins.float", "builtins.abs", "builtins.round", "builtins.pow", "builtins.complex"}
COUNT = {"builtins.len", "builtins.int", "builtins.id", "builtins.hash", "builtins.ord"}
BOOLS = {"builtins.isinstance", "builtins.issubclass", "builtins.hasattr", "builtins.any", "builtins.all", "builtins.bool", "builtins.callable"}
STRS = {"builtins.str", "builtins.repr", "builtins.format", "builtins.chr"}
COLLS = {"builtins.list", "builtins.sorted", "builtins.set", "builtins.frozenset", "builtins.tuple", "builtins.reversed", "builtins.iter"}
NP_COLL = {"array", "asarray", "roll", "zeros", "ones", "arange", "linspace", "append", "concatenate", "empty", "full", "multiply", "add", "subtract"}
NP_INT = {"argmin", "argmax", "size"}


class Func:
    def __init__(self, node, module, cls=None, parent=None, info=None):
        self.node, self.module, self.cls, self.parent, self.info = node, module, cls, parent, info
        self.key = id(node)
        a = node.args
        self.params = [x.arg for x in (getattr(a, "posonlyargs", []) or []) + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.static = bool(info and info.static)
        self.classm = bool(info and info.classm)
        self.locals = set(self.params) | set(self.kwonly) | {x for x in (self.vararg, self.kwarg) if x}
        self.globals = set()
        body = node.body if isinstance(node.body, list) else [node.body]
        self.body = body
        for s in body:
            self._collect(s)
        self.locals -= self.globals
        if not isinstance(node, ast.Lambda):
            webs.mark(self.locals, self.params + self.kwonly + [x for x in (self.vararg, self.kwarg) if x], self.body)

    def _collect(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            self.globals |= set(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                self.locals.add((a.asname or a.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        for c in ast.iter_child_nodes(n):
            self._collect(c)

    @property
    def qual(self):
        if self.info is not None:
            return self.info.qual
        return (self.parent.qual + "." if self.parent else "") + getattr(self.node, "name", "<lambda>")


def doc_types(doc):
    """{parameter: set of kinds} from a numpydoc Parameters section"""
    out = {}
    if not doc or "Parameters" not in doc:
        return out
    m = re.search(r"Parameters\s*\n\s*-{3,}\s*\n(.*?)(?:\n\s*\n?\s*\w[\w ]*\s*\n\s*-{3,}|\Z)", doc, re.S)
    if not m:
        return out
    for name, t in re.findall(r"^\s*(\w+)\s*:\s*(.+)$", m.group(1), re.M):
        out[name] = parse_kind(t)
    return out


def parse_kind(t):
    t = t.strip()
    k = set()
    for part in re.split(r",|\bor\b|\|", re.sub(r"\(.*\)|\[.*\]", lambda g: "()" if t.split("(")[0].split("[")[0].strip().lower() in LISTY else "", t)):
        p = part.strip().strip(":").lower()
        w = p.split("(")[0].strip()
        if w in ("float", "decimal", "number", "numeric"):
            k.add("num")
        elif w == "int":
            k.add("int")
        elif w in ("bool", "boolean"):
            k.add("bool")
        elif w in ("str", "string"):
            k.add("str")
        elif w == "none" or w == "optional":
            k.add("none")
        elif w in LISTY:
            k.add("list")
        else:
            g = re.search(r"([A-Z]\w+)`?$", part.strip().split("(")[0].strip())
            if g:
                k.add(("class", g.group(1)))
    return k


LISTY = ("list", "set", "tuple", "sequence", "iterable", "array", "collection")


class Types:
    def __init__(self, prog, extra=()):
        """extra: [ModuleInfo] - further code, outside the package, to analyse (see snippet)"""
        self.p = prog
        self.v = {}
        self.changed = True
        self.funcs = {}
        self.by_info = {}
        self.cur = None
        self.scopes = []
        self.parent = {}
        self.recv = {}
        self.hooks = []
        for m in [*prog.modules.values(), *extra]:
            self.scopes.append((m, None, m.tree.body))
            self._funcs(m.tree, m, None, None)
        for f in prog.functions():
            g = self.funcs.get(id(f.node))
            if g is not None:
                g.info = f
                g.static, g.classm, g.cls = f.static, f.classm, f.cls
        for f in self.funcs.values():
            self._entry(f)
        self.rounds = 0
        self.guess = False

    def _funcs(self, node, m, cls, parent):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                f = Func(c, m, cls if isinstance(node, ast.ClassDef) else None, parent)
                self.funcs[id(c)] = f
                self._funcs(c, m, None, f)
            elif isinstance(c, ast.ClassDef):
                self._funcs(c, m, c.name, parent)
            else:
                self._funcs(c, m, cls if isinstance(node, ast.ClassDef) else None, parent)

    def _entry(self, f):
        """documented and annotated kinds of the parameters, defaults"""
        node = f.node
        a = node.args
        names = [x for x in (getattr(a, "posonlyargs", []) or []) + a.args]
        if isinstance(node, ast.FunctionDef):
            doc = doc_types(ast.get_docstring(node))
            for x in names + a.kwonlyargs:
                kinds = set(doc.get(x.arg, ()))
                if x.annotation is not None:
                    kinds |= parse_kind(ast.unparse(x.annotation))
                for k in kinds:
                    if k == "none":
                        continue
                    if isinstance(k, tuple):
                        c = self.p.classes.get(k[1])
                        if c is not None:
                            self.add(("v", f.key, x.arg), {("obj", c)})
                    elif k == "list":
                        site = ("doc", f.key, x.arg)
                        self.add(("v", f.key, x.arg), {("coll", site)})
                    else:
                        self.add(("v", f.key, x.arg), {k})
            if f.info and f.info.cls and not f.static and f.params:
                c = f.info.cls
                self.add(("v", f.key, f.params[0]), {("cls", c) if f.classm else ("obj", c)})
                for s in self.p.classes.values():
                    if s is not c and s.is_sub(c) and s.method(f.info.name) is f.info and not f.classm:
                        self.add(("v", f.key, f.params[0]), {("obj", s)})

    # ------------------------------------------------------------ the map
    def get(self, k):
        return self.v.get(k, frozenset())

    def add(self, k, kinds):
        kinds = frozenset(kinds)
        old = self.v.get(k, frozenset())
        if not kinds <= old:
            self.v[k] = old | kinds
            self.changed = True

    def solve(self, limit=60):
        """first with what is known of the receivers, then with every class that has the attribute where nothing is known"""
        self.guess = False
        self.settle(limit)
        self.guess = self.changed = True
        self.settle(2 * limit)
        return self

    def settle(self, limit):
        while self.changed and self.rounds < limit:
            self.changed = False
            self.rounds += 1
            for m, f, body in self.scopes:
                self.m, self.f = m, f
                for s in body:
                    self.stmt(s)
            for f in list(self.funcs.values()):
                self.m, self.f = f.module, f
                a = f.node.args
                pos = (getattr(a, "posonlyargs", []) or []) + a.args
                for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
                    self.f = f.parent
                    t = self.ev(d)
                    self.f = f
                    self.add(("v", f.key, x.arg), t)
                for x, d in zip(a.kwonlyargs, a.kw_defaults):
                    if d is not None:
                        self.add(("v", f.key, x.arg), self.ev(d))
                if f.kwarg:
                    self.add(("v", f.key, f.kwarg), {("coll", ("kw", f.key))})
                if f.vararg:
                    self.add(("v", f.key, f.vararg), {("coll", ("va", f.key))})
                if isinstance(f.node, ast.Lambda):
                    self.add(("r", f.key), self.ev(f.node.body))
                else:
                    for s in f.body:
                        self.stmt(s)
                    if not _always_returns(f.body):
                        self.add(("r", f.key), {"none"})
        if self.changed:
            raise Unsupported("kind inference did not settle")

    # ------------------------------------------------------------ names
    def scope_of(self, name):
        f = self.f
        while f is not None:
            if name in f.locals:
                return f
            f = f.parent
        return None

    def name(self, n, node=None):
        f = self.scope_of(n)
        if f is not None:
            return self.get(("v", f.key, getattr(node, "_web", n)))
        b = self.p.lookup(self.m, n)
        if b is None:
            return self.get(("m", self.m.name, n))
        return self.binding(b, n)

    def binding(self, b, n=None):
        if isinstance(b, ClassInfo):
            return frozenset({("cls", b)})
        if isinstance(b, FuncInfo):
            return frozenset({("fn", id(b.node))})
        if isinstance(b, tuple):
            if b[0] == "ext":
                return frozenset({("ext", b[1])})
            if b[0] == "mod":
                return frozenset({("mod", b[1])})
            if b[0] in ("const", "var"):
                m = b[2] if len(b) > 2 else self.m
                return self.get(("m", m.name, n))
        return frozenset()

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        t = type(s)
        if t is ast.Expr:
            self.ev(s.value)
        elif t is ast.Assign:
            v = self.ev(s.value)
            for x in s.targets:
                self.assign(x, v, s.value)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s.value)
        elif t is ast.AugAssign:
            v = self.binop(s.op, self.ev(_load(s.target)), self.ev(s.value), s)
            self.assign(s.target, v, None)
        elif t is ast.Return:
            self.add(("r", self.f.key), self.ev(s.value) if s.value is not None else {"none"})
        elif t in (ast.If, ast.While):
            self.ev(s.test)
            for x in s.body + s.orelse:
                self.stmt(x)
        elif t is ast.For:
            self.assign(s.target, self.elem(self.ev(s.iter)), None)
            for x in s.body + s.orelse:
                self.stmt(x)
        elif t is ast.With:
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, None)
            for x in s.body:
                self.stmt(x)
        elif t is ast.Try:
            for x in s.body + s.orelse + s.finalbody:
                self.stmt(x)
            for h in s.handlers:
                for x in h.body:
                    self.stmt(x)
        elif t is ast.FunctionDef:
            if self.f is not None:
                self.add(("v", self.f.key, s.name), {("fn", id(s))})
        elif t in (ast.Assert,):
            self.ev(s.test)
            if s.msg is not None:
                self.ev(s.msg)
        elif t is ast.Raise:
            if s.exc is not None:
                self.ev(s.exc)
        elif t is ast.Delete:
            for x in s.targets:
                if isinstance(x, ast.Subscript):
                    self.ev(x.value)
        elif t is ast.ClassDef:
            c = self.p.classes.get(s.name)
            for x in s.body:
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None and c is not None:
                    v = self.ev(x.value)
                    for y in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                        if isinstance(y, ast.Name):
                            self.add(("a", c.name, y.id), v)
        elif t in (ast.Import, ast.ImportFrom):
            if self.f is not None:
                for name, b in self.p.import_bindings(self.m, s):
                    if name != "*":
                        self.add(("v", self.f.key, name), self.binding(self.p.chase(b), name))

    def assign(self, t, v, value):
        if isinstance(t, ast.Name):
            f = self.scope_of(t.id)
            if f is not None:
                self.add(("v", f.key, getattr(t, "_web", t.id)), v)
            else:
                self.add(("m", self.m.name, t.id), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, frozenset({("coll", ("star", id(t)))}), None)
            self.add(("e", ("star", id(t))), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.assign(x, self.item(v, i, len(t.elts)), None)
        elif isinstance(t, ast.Attribute):
            r = self.ev(t.value)
            self.recv[id(t)] = r
            for k in r:
                if isinstance(k, tuple) and k[0] in ("obj", "cls"):
                    c = k[1]
                    st = c.setter(t.attr) if k[0] == "obj" else None
                    if st is not None:
                        g = self.funcs[id(st.node)]
                        if len(g.params) > 1:
                            self.add(("v", g.key, g.params[1]), v)
                    else:
                        self.add(("a", c.name, t.attr), v)
            if not any(isinstance(k, tuple) and k[0] in ("obj", "cls") for k in r) and not (r - {"none"}):
                self.add(("a", "?", t.attr), v)
        elif isinstance(t, ast.Subscript):
            for k in self.ev(t.value):
                if isinstance(k, tuple) and k[0] == "coll":
                    self.add(("e", k[1]), v)

    # ------------------------------------------------------------ containers
    def elem(self, v):
        out = set()
        for k in v:
            if k == "str":
                out.add("str")
            elif isinstance(k, tuple) and k[0] == "coll":
                out |= self.get(("e", k[1]))
            elif isinstance(k, tuple) and k[0] == "tup":
                for i in range(k[2]):
                    out |= self.get(("e", k[1], i))
        return frozenset(out)

    def item(self, v, i, n=None):
        out = set()
        for k in v:
            if isinstance(k, tuple) and k[0] == "tup" and i is not None and -k[2] <= i < k[2]:
                out |= self.get(("e", k[1], i % k[2]))
            else:
                out |= self.elem({k})
        return frozenset(out)

    def coll(self, node, kinds, tag=""):
        site = (tag, id(node))
        self.add(("e", site), kinds)
        return frozenset({("coll", site)})

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        v = self.ev_(e)
        for h in self.hooks:
            h(e, v)
        return v

    def ev_(self, e):
        t = type(e)
        if t is ast.Constant:
            c = e.value
            if c is None:
                return frozenset({"none"})
            if isinstance(c, bool):
                return frozenset({"bool"})
            if isinstance(c, int):
                return frozenset({"int"})
            if isinstance(c, (float, complex)):
                return frozenset({"num"})
            return frozenset({"str"})
        if t is ast.Name:
            return self.name(e.id, e)
        if t is ast.Attribute:
            return self.attribute(e)
        if t is ast.Call:
            return self.call(e)
        if t is ast.BinOp:
            return self.binop(e.op, self.ev(e.left), self.ev(e.right), e)
        if t is ast.UnaryOp:
            v = self.ev(e.operand)
            return frozenset({"bool"}) if isinstance(e.op, ast.Not) else frozenset(k for k in v if k in ("num", "int")) or (frozenset({"int"}) if v == {"bool"} else v)
        if t is ast.Compare:
            self.ev(e.left)
            for c in e.comparators:
                self.ev(c)
            return frozenset({"bool"})
        if t is ast.BoolOp:
            out = set()
            for i, x in enumerate(e.values):
                v = self.ev(x)
                out |= v if i == len(e.values) - 1 or isinstance(e.op, ast.And) else v - {"none"}
            return frozenset(out)
        if t is ast.IfExp:
            self.ev(e.test)
            a, b = self.ev(e.body), self.ev(e.orelse)
            g = none_test(e.test)
            if g and ast.dump(g[0]) == ast.dump(e.body if g[1] else e.orelse):
                a, b = (a - {"none"}, b) if g[1] else (a, b - {"none"})
            return a | b
        if t in (ast.List, ast.Set):
            out = set()
            for x in e.elts:
                out |= self.elem(self.ev(x.value)) if isinstance(x, ast.Starred) else self.ev(x)
            return self.coll(e, out)
        if t is ast.Tuple:
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return self.coll(e, set().union(*[self.elem(self.ev(x.value)) if isinstance(x, ast.Starred) else self.ev(x) for x in e.elts]))
            for i, x in enumerate(e.elts):
                self.add(("e", ("t", id(e)), i), self.ev(x))
            return frozenset({("tup", ("t", id(e)), len(e.elts))})
        if t is ast.Dict:
            out = set()
            for k, x in zip(e.keys, e.values):
                out |= self.ev(x) if k is not None else self.elem(self.ev(x))
                if k is not None:
                    self.ev(k)
            return self.coll(e, out)
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            for g in e.generators:
                self.assign_c(g.target, self.elem(self.ev(g.iter)))
                for x in g.ifs:
                    self.ev(x)
            if t is ast.DictComp:
                self.ev(e.key)
                return self.coll(e, self.ev(e.value))
            v = self.ev(e.elt)
            cut = set()
            for g in e.generators:
                for x in g.ifs:
                    n = none_test(x)
                    if n and n[1] and ast.dump(_load(n[0])) == ast.dump(_load(e.elt)):
                        cut = {"none"}
            return self.coll(e, v - cut)
        if t is ast.Lambda:
            return frozenset({("fn", id(e))})
        if t is ast.Subscript:
            v = self.ev(e.value)
            if isinstance(e.slice, ast.Slice):
                for x in (e.slice.lower, e.slice.upper, e.slice.step):
                    if x is not None:
                        self.ev(x)
                return self.coll(e, self.elem(v)) if any(isinstance(k, tuple) and k[0] in ("coll", "tup") for k in v) else v
            self.ev(e.slice)
            i = None
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
                i = e.slice.value
            if isinstance(e.slice, ast.UnaryOp) and isinstance(e.slice.operand, ast.Constant) and isinstance(e.slice.operand.value, int):
                i = -e.slice.operand.value
            return self.item(v, i)
        if t is ast.JoinedStr:
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    self.ev(x.value)
            return frozenset({"str"})
        if t is ast.Starred:
            return self.ev(e.value)
        if t is ast.NamedExpr:
            v = self.ev(e.value)
            self.assign(e.target, v, None)
            return v
        if t in (ast.Await, ast.Yield, ast.YieldFrom):
            if e.value is not None:
                v = self.ev(e.value)
                if self.f is not None:
                    self.add(("e", ("gen", self.f.key)), v if t is ast.Yield else self.elem(v))
                    self.add(("r", self.f.key), {("coll", ("gen", self.f.key))})
            return frozenset()
        return frozenset()

    def assign_c(self, t, v):
        self.assign(t, v, None)

    def binop(self, op, a, b, node):
        if isinstance(op, ast.Mod) and "str" in a and not ({"num", "int"} & a):
            return frozenset({"str"})
        ca = [k for k in a | b if isinstance(k, tuple) and k[0] in ("coll", "tup")]
        if ca and isinstance(op, (ast.Add, ast.Mult, ast.BitOr, ast.BitAnd, ast.Sub)):
            return self.coll(node, self.elem(a) | self.elem(b))
        if "str" in a | b and isinstance(op, (ast.Add, ast.Mult)):
            return frozenset({"str"})
        objs = [k for k in a if isinstance(k, tuple) and k[0] == "obj"]
        if objs:
            out = set()
            name = {ast.Sub: "__sub__", ast.Add: "__add__", ast.Mult: "__mul__", ast.Div: "__truediv__"}.get(type(op))
            for k in objs:
                f = name and k[1].method(name)
                if f is not None:
                    g = self.funcs[id(f.node)]
                    self.add(("v", g.key, g.params[1]), b)
                    out |= self.get(("r", g.key))
            return frozenset(out)
        if a <= {"int", "bool"} and b <= {"int", "bool"} and a and b and not isinstance(op, ast.Div):
            return frozenset({"int"})
        if isinstance(op, ast.Mod) and a <= {"int", "bool"} and a:
            return frozenset({"int"})
        if not ((a | b) & {"num", "int", "bool"}):
            return frozenset()
        return frozenset({"num"})

    # ------------------------------------------------------------ attributes and calls
    def attribute(self, e):
        r = self.ev(e.value)
        self.recv[id(e)] = r
        out = set()
        known = False
        for k in r:
            if isinstance(k, tuple) and k[0] in ("obj", "cls"):
                known = True
                out |= self.member(k[1], e.attr, k[0] == "cls", e)
            elif isinstance(k, tuple) and k[0] == "mod":
                known = True
                mm = self.p.modules.get(k[1])
                if mm is not None:
                    b = self.p.lookup(mm, e.attr)
                    if isinstance(b, tuple) and b[0] in ("const", "var"):
                        mm2 = b[2] if len(b) > 2 else mm
                        out |= self.get(("m", mm2.name, e.attr))
                    elif b is not None:
                        out |= self.binding(b, e.attr)
                    elif f"{k[1]}.{e.attr}" in self.p.modules:
                        out.add(("mod", f"{k[1]}.{e.attr}"))
            elif isinstance(k, tuple) and k[0] == "ext":
                known = True
                out.add(("ext", f"{k[1]}.{e.attr}"))
            elif k in ("num", "int", "str", "bool") or (isinstance(k, tuple) and k[0] in ("coll", "tup")):
                known = True
                if k in ("num", "int") and e.attr in ("real", "imag"):
                    out.add("num")
                else:
                    out.add(("xm", k, e.attr))
        if not known and self.guess:
            out |= self.get(("a", "?", e.attr))
            for c in self.p.classes.values():
                out |= self.member(c, e.attr, False, e)
        return frozenset(out)

    def family(self, c):
        return [x for x in self.p.classes.values() if x in c.mro or x.is_sub(c)]

    def member(self, c, name, on_class, node=None):
        g = c.getter(name)
        if g is not None and not on_class:
            f = self.funcs[id(g.node)]
            return self.get(("r", f.key))
        m = c.method(name)
        if m is not None:
            if m.static or on_class and not m.classm:
                return frozenset({("fn", id(m.node))})
            return frozenset({("bm", id(m.node), c)})
        if c.is_enum and on_class and name in c.attrs:
            return frozenset({("obj", c)})
        out = set()
        for x in self.family(c):
            out |= self.get(("a", x.name, name))
        out |= self.get(("a", "?", name))
        return frozenset(out)

    def bind(self, g, first, args, kwargs, star=(), dstar=()):
        ps = list(g.params)
        vals = ([first] if first is not None else []) + args
        for p, v in zip(ps, vals):
            self.add(("v", g.key, p), v)
        if len(vals) > len(ps) and g.vararg:
            for v in vals[len(ps):]:
                self.add(("e", ("va", g.key)), v)
        for k, v in kwargs.items():
            if k in ps or k in g.kwonly:
                self.add(("v", g.key, k), v)
            elif g.kwarg:
                self.add(("e", ("kw", g.key)), v)
        for v in star:
            for p in ps[len(vals):]:
                self.add(("v", g.key, p), v)
        for v in dstar:
            if g.kwarg:
                self.add(("e", ("kw", g.key)), v)

    def invoke(self, k, args, kwargs, star=(), dstar=()):
        if k[0] == "fn":
            g = self.funcs.get(k[1])
            if g is None:
                return frozenset()
            self.bind(g, None, args, kwargs, star, dstar)
            return self.get(("r", g.key))
        if k[0] == "bm":
            g = self.funcs.get(k[1])
            c = k[2]
            self.bind(g, frozenset({("cls" if g.classm else "obj", c)}), args, kwargs, star, dstar)
            return self.get(("r", g.key))
        if k[0] == "cls":
            c = k[1]
            f = c.method("__init__")
            if f is not None:
                self.bind(self.funcs[id(f.node)], frozenset({("obj", c)}), args, kwargs, star, dstar)
            return frozenset({("obj", c)})
        return frozenset()

    def call(self, e):
        args, star = [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                star.append(self.elem(self.ev(a.value)))
            else:
                args.append(self.ev(a))
        kwargs = {k.arg: self.ev(k.value) for k in e.keywords if k.arg}
        dstar = [self.elem(self.ev(k.value)) for k in e.keywords if not k.arg]
        # super().name(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            out = set()
            f = self.f
            while f is not None and not (f.info and f.info.cls):
                f = f.parent
            if f is not None:
                for c in f.info.cls.mro[1:]:
                    m = c.methods.get(e.func.attr)
                    if m is not None:
                        g = self.funcs[id(m.node)]
                        self.bind(g, self.get(("v", f.key, f.params[0])) if not g.static else None, args, kwargs, star, dstar)
                        return self.get(("r", g.key))
            return frozenset(out)
        fv = self.ev(e.func)
        out = set()
        for k in fv:
            if not isinstance(k, tuple):
                continue
            if k[0] in ("fn", "bm", "cls"):
                out |= self.invoke(k, args, kwargs, star, dstar)
            elif k[0] == "ext":
                out |= self.ext(k[1], args, kwargs, e)
            elif k[0] == "xm":
                out |= self.xmethod(k[1], k[2], args, kwargs, e)
            elif k[0] == "obj":
                m = k[1].method("__call__")
                if m is not None:
                    out |= self.invoke(("bm", id(m.node), k[1]), args, kwargs)
        return frozenset(out)

    def apply(self, fset, args):
        out = set()
        for k in fset:
            if isinstance(k, tuple) and k[0] in ("fn", "bm", "cls"):
                out |= self.invoke(k, list(args), {})
            elif isinstance(k, tuple) and k[0] == "ext":
                out |= self.ext(k[1], list(args), {}, None)
        return frozenset(out)

    def ext(self, path, args, kwargs, e):
        short = path.split(".")[-1]
        if path in ("decimal.Decimal", "builtins.float") and e is not None and len(e.args) == 1:
            # what is converted to a number is one
            a = e.args[0]
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "str" and len(a.args) == 1:
                a = a.args[0]
            if isinstance(a, ast.Name) and not (args[0] - {"str"}):
                f = self.scope_of(a.id)
                if f is not None:
                    self.add(("v", f.key, getattr(a, "_web", a.id)), {"num"})
        if path in ("queue.PriorityQueue", "queue.Queue", "queue.LifoQueue", "collections.deque") and e is not None:
            return self.coll(e, self.elem(args[0]) if args else frozenset())
        if path == "heapq.heappush" and len(args) > 1:
            for k in args[0]:
                if isinstance(k, tuple) and k[0] == "coll":
                    self.add(("e", k[1]), args[1])
            return frozenset({"none"})
        if path == "heapq.heappop" and args:
            return self.elem(args[0])
        if path in QUANT or path.startswith("decimal."):
            return frozenset({"num"})
        if path in COUNT:
            return frozenset({"int"})
        if path in BOOLS:
            return frozenset({"bool"})
        if path in STRS:
            return frozenset({"str"})
        if path in COLLS:
            v = self.elem(args[0]) if args else frozenset()
            if "key" in kwargs:
                self.apply(kwargs["key"], [v])
            return self.coll(e, v) if e is not None else frozenset()
        if path in ("builtins.min", "builtins.max"):
            v = self.elem(args[0]) if len(args) == 1 else frozenset().union(*args) if args else frozenset()
            if "key" in kwargs:
                self.apply(kwargs["key"], [v])
            return v | kwargs.get("default", frozenset())
        if path == "builtins.sum":
            return frozenset({"num"})
        if path == "builtins.range":
            return self.coll(e, {"int"}) if e is not None else frozenset()
        if path == "builtins.enumerate" and e is not None:
            s = ("t", id(e), "enum")
            self.add(("e", s, 0), {"int"})
            self.add(("e", s, 1), self.elem(args[0]) if args else frozenset())
            return self.coll(e, {("tup", s, 2)})
        if path == "builtins.zip" and e is not None:
            s = ("t", id(e), "zip")
            for i, a in enumerate(args):
                self.add(("e", s, i), self.elem(a))
            return self.coll(e, {("tup", s, len(args))})
        if path == "builtins.map" and e is not None:
            return self.coll(e, self.apply(args[0], [self.elem(a) for a in args[1:]])) if args else frozenset()
        if path == "builtins.filter" and e is not None and len(args) == 2:
            self.apply(args[0], [self.elem(args[1])])
            return self.coll(e, self.elem(args[1]))
        if path == "builtins.next":
            return (self.elem(args[0]) if args else frozenset()) | (args[1] if len(args) > 1 else frozenset())
        if path == "builtins.getattr" and e is not None and len(e.args) > 1 and isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str):
            n = ast.copy_location(ast.Attribute(value=e.args[0], attr=e.args[1].value, ctx=ast.Load()), e)
            return self.attribute(n) | (args[2] if len(args) > 2 else frozenset())
        if path == "builtins.dict" and e is not None:
            out = set().union(*kwargs.values()) if kwargs else set()
            for a in args:
                out |= self.elem(a)
            return self.coll(e, out)
        if path in ("copy.copy", "copy.deepcopy") and args:
            return args[0]
        if path == "functools.reduce" and args:
            return self.apply(args[0], [self.elem(args[1]) if len(args) > 1 else frozenset()] * 2)
        if path.startswith(("numpy.", "np.")):
            if short in NP_INT:
                return frozenset({"int"})
            if short in NP_COLL:
                v = set()
                for a in args:
                    v |= self.elem(a) | (a & {"num", "int"})
                return self.coll(e, (v - {"int"}) | {"num"}) if e is not None else frozenset({"num"})
            return frozenset({"num"})
        if path.startswith(("math.", "cmath.", "statistics.")):
            return frozenset({"num"})
        return frozenset()

    def xmethod(self, k, name, args, kwargs, e):
        if k in ("num", "int"):
            return frozenset({"num"}) if name not in ("is_integer", "is_nan", "is_zero", "is_finite", "is_infinite") else frozenset({"bool"})
        if k == "str":
            return frozenset({"str"}) if name not in ("startswith", "endswith", "isdigit") else frozenset({"bool"})
        if k == "bool":
            return frozenset({"bool"})
        site = k[1]
        el = self.elem({k})
        if name in ("append", "add", "appendleft", "put", "put_nowait"):
            for a in args:
                self.add(("e", site), a)
            return frozenset({"none"})
        if name in ("extend", "update"):
            for a in args:
                self.add(("e", site), self.elem(a))
            for a in kwargs.values():
                self.add(("e", site), a)
            return frozenset({"none"})
        if name == "insert":
            if len(args) > 1:
                self.add(("e", site), args[1])
            return frozenset({"none"})
        if name in ("empty", "full"):
            return frozenset({"bool"})
        if name == "qsize":
            return frozenset({"int"})
        if name == "get" and not args:
            return el
        if name in ("pop", "popleft", "get_nowait"):
            return el | (args[1] if len(args) > 1 else frozenset())
        if name in ("get", "setdefault"):
            return el | (args[1] if len(args) > 1 else frozenset({"none"}))
        if name in ("index", "count"):
            return frozenset({"int"})
        if name == "sort":
            if "key" in kwargs:
                self.apply(kwargs["key"], [el])
            return frozenset({"none"})
        if name in ("copy", "union", "difference", "intersection"):
            for a in args:
                el = el | self.elem(a)
            return self.coll(e, el)
        if name == "values":
            return self.coll(e, el)
        if name == "items":
            s = ("t", id(e), "items")
            self.add(("e", s, 0), {"str"})
            self.add(("e", s, 1), el)
            return self.coll(e, {("tup", s, 2)})
        if name == "keys":
            return self.coll(e, {"str"})
        if name in ("remove", "clear", "reverse", "discard"):
            return frozenset({"none"})
        return frozenset()


def _load(n):
    import copy
    n = copy.deepcopy(n)
    for x in ast.walk(n):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return n


def _always_returns(body):
    for s in body:
        if isinstance(s, (ast.Return, ast.Raise)):
            return True
        if isinstance(s, ast.If) and s.orelse and _always_returns(s.body) and _always_returns(s.orelse):
            return True
        if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(x, ast.Break) for x in ast.walk(s)):
            return True
        if isinstance(s, ast.Try) and _always_returns(s.body) and all(_always_returns(h.body) for h in s.handlers):
            return True
    return False


def none_test(t):
    """(expression, polarity) if t is `x is not None` (True) or `x is None` (False)"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
        if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
            return t.left, True
        if isinstance(t.ops[0], (ast.Is, ast.Eq)):
            return t.left, False
    return None
