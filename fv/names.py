"""Resolution of every name, attribute and call against the kinds inferred for their receivers (see ntypes, docs)."""
import ast
import builtins
import importlib
import re

from . import docs
from .model import ClassInfo, FuncInfo, rel
from .ntypes import Types, _load, doc_types

STDLIB = {"math", "decimal", "copy", "queue", "heapq", "itertools", "functools", "collections", "enum", "abc", "typing", "os", "random", "time", "operator"}


def enclosing(T):
    """(module, function or None, statements) of every scope"""
    for m, f, body in T.scopes:
        yield m, None, body
    for f in T.funcs.values():
        yield f.module, f, f.body


def walk(n):
    """the nodes of a scope, without those of the functions inside it (their defaults and decorators excepted)"""
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None] + getattr(n, "decorator_list", []):
            yield from walk(d)
        return
    yield n
    for c in ast.iter_child_nodes(n):
        yield from walk(c)


class Names:
    def __init__(self, prog, rep):
        self.p, self.rep = prog, rep
        self.snips, self.faults = docs.snippets(prog)
        self.T = Types(prog, extra=self.snips)
        for m in self.snips:
            self.context(m)
        self.T.solve()
        self.given = {}             # class name -> names set on its objects from anywhere
        for k in self.T.v:
            if k[0] == "a":
                self.given.setdefault(k[1], set()).add(k[2])
        for m, f, body in enclosing(self.T):
            for s in body:
                for n in walk(s):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        for k in self.T.recv.get(id(n), ()):
                            if isinstance(k, tuple) and k[0] in ("obj", "cls"):
                                self.given.setdefault(k[1].name, set()).add(n.attr)
        for c in prog.classes.values():
            for n in ast.walk(c.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                    self.given.setdefault(c.name, set()).add("*")
                if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                    self.given.setdefault(c.name, set()).add("*")
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__slots__" for t in n.targets):
                    self.given.setdefault(c.name, set()).update(x.value for x in ast.walk(n.value) if isinstance(x, ast.Constant))
            if c.method("__getattr__") is not None or c.method("__getattribute__") is not None:
                self.given.setdefault(c.name, set()).add("*")
        self.skipped, self.sole = 0, False
        self.callbacks = {}         # function of an example -> [why a call of it in the package does not fit | None]

    def context(self, m):
        """the free names of a doc string's example stand for objects of the class they are named after, or of the class described"""
        if not m.context:
            return
        bound = {x.id for x in ast.walk(m.tree) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)} | \
                {a.arg for x in ast.walk(m.tree) if isinstance(x, (ast.FunctionDef, ast.Lambda)) for a in x.args.args} | \
                {x.name for x in ast.walk(m.tree) if isinstance(x, ast.FunctionDef)} | set(m.sym)
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name) and x.id not in bound and self.p.lookup(m, x.id) is None:
                c = m.context.get(x.id.lower()) or m.context.get("")
                # names the annotations of an example use are imported by convention
                if x.id in self.p.classes:
                    m.sym[x.id] = self.p.classes[x.id]
                elif _typing(x.id):
                    m.sym[x.id] = ("ext", f"typing.{x.id}")
                elif c is not None and x.id[:1].islower():
                    self.T.add(("m", m.name, x.id), {("obj", c)})

    # ------------------------------------------------------------ attributes
    def ext_bases(self, c):
        return [b for b in c.ext_bases() if b.split(".")[-1] not in ("object", "ABC", "Enum", "IntEnum")]

    def has(self, c, name, on_class):
        if c.method(name) or c.getter(name) or c.attr(name) or c.setter(name) or name in c.attrs:
            return True
        if name.startswith("__") and name.endswith("__"):
            return True
        if c.is_enum and name in ("name", "value", "__members__"):
            return True
        for x in self.T.family(c):
            if {name, "*"} & self.given.get(x.name, set()):
                return True
        for x in c.mro:
            for n in x.node.body:
                if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name == name:
                    return True
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                    return True
                if isinstance(n, (ast.For, ast.Assign, ast.With, ast.If)) and any(isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store) for y in ast.walk(n)):
                    return True
        return bool(self.ext_bases(c))

    def where(self, m, f, n):
        return f"{rel(m.path)}:{getattr(n, 'lineno', 0)} {f.qual if f is not None else ''}".strip()

    def attribute(self, m, f, n, strict):
        T, rep = self.T, self.rep
        T.m, T.f = m, f
        kinds = T.recv.get(id(n))
        if kinds is None:
            return
        where = self.where(m, f, n)
        text = ast.unparse(n)[:60]
        objs = [k for k in kinds if isinstance(k, tuple) and k[0] in ("obj", "cls")]
        if isinstance(n.ctx, ast.Store):
            return
        if objs:
            if self.guarded(f, n.attr):
                return
            ok = [k for k in objs if self.has(k[1], n.attr, k[0] == "cls")]
            other = [k for k in kinds if k not in objs and k != "none"]
            if other and not ok:
                self.skipped += 1
                return
            names = "/".join(sorted({k[1].name for k in objs}))
            rep.ob(bool(ok), "the attribute exists", where, f"{text} of {names}", f"no {names} has an attribute `{n.attr}`")
        for k in kinds:
            if not isinstance(k, tuple):
                continue
            if k[0] == "mod" and len(kinds) == 1:
                mm = self.p.modules.get(k[1])
                ok = mm is None or self.p.lookup(mm, n.attr) is not None and not self.is_builtin(mm, n.attr) or f"{k[1]}.{n.attr}" in self.p.modules
                rep.ob(ok, "the attribute exists", where, f"{text} of module {k[1]}", f"the module {k[1]} has no `{n.attr}`")
            elif k[0] == "ext" and len(kinds) == 1:
                ok = self.ext_has(k[1], n.attr)
                if ok is not None:
                    rep.ob(ok, "the attribute exists", where, f"{text} of {k[1]}", f"{k[1]} has no `{n.attr}`")
        if strict and isinstance(n.value, ast.Call) and "none" in kinds:
            rep.ob(False, "the call has a result", where, text, f"`{ast.unparse(n.value)[:60]}` may return None")

    def related(self, a, b):
        return bool({x for x in a.mro} & {x for x in b.mro})

    def is_builtin(self, m, name):
        b = self.p.lookup(m, name)
        return isinstance(b, tuple) and b[0] == "ext" and b[1].startswith("builtins.")

    def guarded(self, f, name):
        while f is not None:
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) > 1 \
                        and isinstance(x.args[1], ast.Constant) and x.args[1].value == name:
                    return True
                if isinstance(x, ast.ExceptHandler) and x.type is not None and "AttributeError" in ast.unparse(x.type):
                    return True
            f = f.parent
        return False

    def ext_has(self, path, attr):
        head = path.split(".")[0]
        if head not in STDLIB or path.count("."):
            return None
        return hasattr(importlib.import_module(head), attr)       # the standard library only

    # ------------------------------------------------------------ names
    def name(self, m, f, n):
        T = self.T
        T.m, T.f = m, f
        if not isinstance(n.ctx, ast.Load):
            return
        ok = T.scope_of(n.id) is not None or self.p.lookup(m, n.id) is not None or hasattr(builtins, n.id) or n.id in ("__name__", "__file__", "__doc__") \
            or ("m", m.name, n.id) in T.v or bool(m.star_ext) or self.stored(m, n.id) or self.in_class(m, f, n)
        self.rep.ob(ok, "the name is bound", self.where(m, f, n), n.id, f"nothing binds the name `{n.id}`")

    def stored(self, m, name):
        c = m.__dict__.setdefault("_stored", None)
        if c is None:
            c = m._stored = {x.id for s in m.tree.body for x in walk(s) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)} | \
                {x.name for x in m.tree.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))} | \
                {(a.asname or a.name).split(".")[0] for x in ast.walk(m.tree) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names} | \
                {y for x in ast.walk(m.tree) if isinstance(x, ast.Global) for y in x.names} | \
                {x.name for s in m.tree.body for x in walk(s) if isinstance(x, ast.ExceptHandler) and x.name}
        return name in c

    def in_class(self, m, f, n):
        return any(c.module is m and (n.id in c.attrs or n.id in c.methods or n.id in c.getters) and any(x is n for x in ast.walk(c.node)) for c in self.p.classes.values())

    # ------------------------------------------------------------ imports
    def imports(self, m, f, n):
        where = self.where(m, f, n)
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split(".")[0] == "foronoi":
                    self.rep.ob(a.name in self.p.modules, "the import resolves", where, a.name, f"there is no module {a.name}")
            return
        for name, b in self.p.import_bindings(m, n):
            if isinstance(b, tuple) and b[0] == "from":
                ok = self.p.chase(b) is not None
                if not ok and self.p.modules.get(b[1]) is not None:
                    ok = self.stored(self.p.modules[b[1]], b[2])
                self.rep.ob(ok, "the import resolves", where, f"{b[2]} from {b[1]}", f"{b[1]} defines no `{b[2]}`")
            elif isinstance(b, tuple) and b[0] == "ext" and b[1].split(".")[0] == "foronoi":
                self.rep.ob(False, "the import resolves", where, b[1], f"there is no module {'.'.join(b[1].split('.')[:-1])}")

    # ------------------------------------------------------------ calls
    def fits(self, k, e):
        """why the call does not fit the function, or None"""
        if k[0] == "cls":
            c = k[1]
            init = c.method("__init__")
            if init is None:
                if self.ext_bases(c) or c.is_enum or c.method("__new__"):
                    return None
                if any("dataclass" in ast.unparse(d) for x in c.mro for d in x.node.decorator_list):
                    return None
                return f"{c.name} takes no arguments" if e.args or e.keywords else None
            g, first = self.T.funcs[id(init.node)], 1
        else:
            g, first = self.T.funcs.get(k[1]), int(k[0] == "bm")
            if g is None:
                return None
        if g.info is not None and any(d.split("(")[0].split(".")[-1] not in ("staticmethod", "classmethod", "property", "setter", "abstractmethod", "wraps", "contextmanager")
                                      for d in g.info.deco):
            return None
        a = g.node.args
        pos = list(getattr(a, "posonlyargs", []) or []) + list(a.args)
        need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
        if any(isinstance(x, ast.Starred) for x in e.args):
            return None
        n = len(e.args) + first
        if n > len(pos) and not a.vararg:
            return f"{g.qual} takes {len(pos) - first} positional arguments, not {n - first}"
        taken = {x.arg for x in pos[:n]}
        names = {x.arg for x in a.args} | {x.arg for x in a.kwonlyargs}
        for kw in e.keywords:
            if kw.arg is None:
                return self.options(kw.value, names, a, g)
            if kw.arg not in names and not a.kwarg:
                return f"{g.qual} has no parameter `{kw.arg}`"
            if kw.arg in taken:
                return f"{g.qual} gets `{kw.arg}` twice"
            taken.add(kw.arg)
        for x in need:
            if x.arg not in taken:
                return f"{g.qual} is called without `{x.arg}`"
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in taken:
                return f"{g.qual} is called without `{x.arg}`"
        return None

    def keys(self, v):
        """the keys of a dictionary display or dict(...) call, or None"""
        if isinstance(v, ast.Dict) and all(isinstance(k, ast.Constant) for k in v.keys):
            return [k.value for k in v.keys]
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "dict" and not v.args and all(k.arg for k in v.keywords):
            return [k.arg for k in v.keywords]
        return None

    def options(self, v, names, a, g):
        """a call with **v: the keys known of v"""
        if a.kwarg:
            return None
        ks = self.keys(v)
        if ks is None:
            cs = [k for k in self.T.ev(v) if k != "none"]
            if len(cs) != 1 or not (isinstance(cs[0], tuple) and cs[0][0] == "coll" and isinstance(cs[0][1], tuple) and len(cs[0][1]) == 2):
                return None
            ks = self.displays().get(cs[0][1][1])
            if self.sole is False:
                return None
        for k in ks or ():
            if k not in names:
                return f"{g.qual} has no parameter `{k}`"
        return None

    def displays(self):
        if not hasattr(self, "_disp"):
            self._disp = {}
            for m, f, body in enclosing(self.T):
                for s in body:
                    for n in walk(s):
                        if isinstance(n, (ast.Dict, ast.Call)):
                            ks = self.keys(n)
                            if ks:
                                self._disp[id(n)] = ks
        return self._disp

    def unknown_bound(self, f, name):
        for s in f.body if isinstance(f.body, list) else [f.body]:
            for a in ast.walk(s):
                if isinstance(a, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and isinstance(a.value, ast.Attribute):
                    ts = a.targets if isinstance(a, ast.Assign) else [a.target]
                    if any(isinstance(t, ast.Name) and getattr(t, "_web", t.id) == name for t in ts) \
                            and not (self.T.recv.get(id(a.value), frozenset()) - {"none"}):
                        return True
        return False

    def call(self, m, f, n, strict):
        T, rep = self.T, self.rep
        T.m, T.f = m, f
        where = self.where(m, f, n)
        text = ast.unparse(n)[:70]
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super":
            g = f
            while g is not None and not (g.info and g.info.cls):
                g = g.parent
            if g is None:
                return
            for c in g.info.cls.mro[1:]:
                fn = c.methods.get(n.func.attr)
                if fn is not None:
                    why = self.fits(("fn" if fn.static else "bm", id(fn.node)), n)
                    rep.ob(why is None, "the call fits", where, text, why or "")
                    return
            if not self.ext_bases(g.info.cls) and not (n.func.attr.startswith("__")):
                rep.ob(False, "the attribute exists", where, text, f"no base class of {g.info.cls.name} has `{n.func.attr}`")
            return
        if isinstance(n.func, ast.Attribute) and not (T.recv.get(id(n.func), frozenset()) - {"none"}):
            self.skipped += 1          # nothing is known of the receiver
            return
        if isinstance(n.func, ast.Name) and f is not None and self.unknown_bound(f, getattr(n.func, "_web", n.func.id)):
            self.skipped += 1          # ... nor of the one a method was taken from before
            return
        kinds = T.ev(n.func)
        cands = [k for k in kinds if isinstance(k, tuple) and k[0] in ("fn", "bm", "cls")]
        if not cands:
            data = kinds and all(k in ("num", "int", "bool", "str", "none") for k in kinds)
            if data and "none" not in kinds:
                rep.ob(False, "the call fits", where, text, f"`{ast.unparse(n.func)[:50]}` is no function but {'/'.join(sorted(map(str, kinds)))}")
            return
        if not strict:
            for k in cands:
                g = self.T.funcs.get(k[1]) if k[0] == "fn" else None
                if g is not None and isinstance(g.module, docs.Snippet):
                    self.sole = False
                    self.callbacks.setdefault(k, []).append((self.fits(k, n), where, text))
            cands = [k for k in cands if k not in self.callbacks]
            if not cands:
                return
        self.sole = len(cands) == 1
        why = {k: self.fits(k, n) for k in cands}
        bad = [k for k in cands if why[k] is not None]
        good = [k for k in cands if why[k] is None]
        rep.ob(bool(good), "the call fits", where, text, why[bad[0]] if bad else "")
        for k in bad:
            c = k[2] if k[0] == "bm" else k[1] if k[0] == "cls" else None
            kin = [g for g in good if g[0] == k[0] == "bm" and self.related(g[2], c)]
            if kin:
                rep.ob(False, "the call fits", where, f"{text} for {c.name}", why[k])
        if strict:
            # settings given to an observer are options of plot_all
            for kw in n.keywords:
                if kw.arg == "settings" and any(k[0] == "cls" and k[1].name == "VoronoiObserver" for k in cands):
                    g = self.T.funcs[id(self.p.cls("Visualizer").method("plot_all").node)]
                    self.T.ev(kw.value)
                    ks = self.keys(kw.value)
                    for k in T.ev(kw.value) if ks is None else ():
                        if isinstance(k, tuple) and k[0] == "coll" and isinstance(k[1], tuple) and len(k[1]) == 2:
                            ks = (ks or []) + (self.displays().get(k[1][1]) or [])
                    for k in ks or ():
                        rep.ob(k in g.params or k in g.kwonly or g.kwarg is not None, "the option exists", where, k, f"plot_all has no option `{k}`")

    # ------------------------------------------------------------ documented results
    def fit_kind(self, ann, kinds, result=False):
        """why a value of these kinds is not what the text says, or None"""
        missing = "none" in kinds
        kinds = set(kinds) - {"none"}
        if not kinds:
            return None
        T = self.T
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            ann = ast.parse(ann.value, mode="eval").body
        if isinstance(ann, ast.Name):
            n = ann.id
            if n in ("float", "int", "Decimal"):
                if result and missing and kinds & {"num", "int"}:
                    return "may be None"
                return None if kinds & {"num", "int"} else f"is no number but {describe(kinds)}"
            if n == "str":
                return None if "str" in kinds else f"is no string but {describe(kinds)}"
            if n == "bool":
                return None if "bool" in kinds else f"is no bool but {describe(kinds)}"
            c = self.p.classes.get(n)
            if c is not None:
                return None if any(isinstance(k, tuple) and k[0] == "obj" and k[1].is_sub(c) for k in kinds) else f"is no {n} but {describe(kinds)}"
            return None
        if isinstance(ann, ast.Subscript) and ast.unparse(ann.value).split(".")[-1] in ("List", "list", "Sequence", "Iterable", "Set", "Tuple", "tuple"):
            cs = [k for k in kinds if isinstance(k, tuple) and k[0] in ("coll", "tup")]
            if not cs:
                return f"is no list but {describe(kinds)}"
            return self.fit_kind(ann.slice, T.elem(cs)) if not isinstance(ann.slice, ast.Tuple) else None
        if isinstance(ann, ast.Subscript) and ast.unparse(ann.value).split(".")[-1] == "Optional":
            return self.fit_kind(ann.slice, kinds)
        if isinstance(ann, (ast.List, ast.Tuple)):
            cs = [k for k in kinds if isinstance(k, tuple) and k[0] in ("coll", "tup")]
            if not cs:
                return f"is no pair but {describe(kinds)}"
            if all(k[0] == "tup" and k[2] != len(ann.elts) for k in cs):
                return f"has {cs[0][2]} parts, not {len(ann.elts)}"
            for i, x in enumerate(ann.elts):
                why = self.fit_kind(x, T.item(cs, i))
                if why:
                    return f"part {i} {why}"
        return None

    def annotated(self, m, f, n):
        if n.value is None:
            return
        self.T.m, self.T.f = m, f
        why = self.fit_kind(n.annotation, self.T.ev(n.value), isinstance(n.value, ast.Call))
        self.rep.ob(why is None, "the documented result", self.where(m, f, n), f"{ast.unparse(n.value)}: {ast.unparse(n.annotation)}",
                    f"`{ast.unparse(n.value)}` {why}" if why else "")

    def iterates(self, m, f, node, it):
        self.T.m, self.T.f = m, f
        kinds = set(self.T.ev(it)) - {"none"}
        if not kinds:
            return
        ok = not all(k in ("int", "bool") or isinstance(k, tuple) and (k[0] in ("fn", "bm") or k[0] == "obj" and not k[1].method("__iter__") and not k[1].method("__getitem__")
                                                                          and not self.ext_bases(k[1])) for k in kinds)
        self.rep.ob(ok, "the loop has a list", self.where(m, f, node), ast.unparse(it)[:60], f"`{ast.unparse(it)[:60]}` is no list but {describe(kinds)}")

    # ------------------------------------------------------------ what the doc strings describe
    def described(self):
        """parameters, attributes and results described in the doc strings of public functions"""
        T, rep = self.T, self.rep
        for f in T.funcs.values():
            n = f.node
            if not isinstance(n, ast.FunctionDef) or f.info is None or isinstance(f.module, docs.Snippet):
                continue
            if n.name.startswith("_") and n.name != "__init__":
                continue
            doc = ast.get_docstring(n)
            if not doc:
                continue
            c = f.info.cls
            where = self.where(f.module, f, n)
            for sec in re.finditer(r"^(Parameters|Attributes|Returns)\n-{3,}\n(.*?)(?=^\w[\w ]*\n-{3,}|\Z)", doc, re.M | re.S):
                entries = re.findall(r"^(\w+)\s*:\s*(.*)$", sec.group(2), re.M)
                if sec.group(1) == "Returns" and len(entries) != 1:
                    continue
                for name, text in entries:
                    ann = kind_text(text)
                    if sec.group(1) == "Parameters" and not f.info.prop and not f.info.setter:
                        ok = name in f.params or name in f.kwonly or name in (f.vararg, f.kwarg)
                        rep.ob(ok, "the parameter described exists", where, name, f"{f.qual} has no parameter `{name}`")
                    elif sec.group(1) == "Attributes" and c is not None:
                        ok = self.has(c, name, False)
                        rep.ob(ok, "the attribute described exists", where, f"{c.name}.{name}", f"{c.name} has no attribute `{name}`")
                        if ok and ann is not None:
                            why = self.fit_kind(ann, T.member(c, name, False))
                            rep.ob(why is None, "the documented result", where, f"{c.name}.{name}: {text}", f"`{name}` {why}" if why else "")
                    elif sec.group(1) == "Returns" and ann is not None:
                        kinds = T.get(("r", f.key))
                        why = self.fit_kind(ann, kinds, not f.info.prop) or ("is always None" if kinds == {"none"} else None)
                        rep.ob(why is None, "the documented result", where, f"{f.qual} returns {text}", f"`{name}` {why}" if why else "")
                        if name == "self":
                            rep.ob("none" not in kinds, "the call has a result", where, f.qual, "may return None")
                            for r in own_returns(n):
                                T.m, T.f = f.module, f
                                got = T.ev(r.value) if r.value is not None else {"none"}
                                ok = any(isinstance(k, tuple) and k[0] == "obj" and c is not None and (k[1].is_sub(c) or c.is_sub(k[1])) for k in got)
                                rep.ob(ok, "the documented result", self.where(f.module, f, r), f"{f.qual} returns {text}",
                                       f"`{ast.unparse(r.value) if r.value else None}` is no {c.name if c else 'object'}" if not ok else "")

    def pages(self):
        """the classes the documentation pages describe"""
        for path, line, name in docs.directives(self.p):
            parts = name.split(".")
            b, m = None, None
            for i in range(len(parts), 0, -1):
                m = self.p.modules.get(".".join(parts[:i]))
                if m is not None:
                    rest = parts[i:]
                    b = self.p.lookup(m, rest[0]) if rest and not self.is_builtin(m, rest[0]) else (True if not rest else None)
                    for a in rest[1:]:
                        b = True if isinstance(b, ClassInfo) and self.has(b, a, True) else None
                    break
            self.rep.ob(b is not None, "the documented name exists", f"{rel(path)}:{line}", name, f"there is no {name}")

    # ------------------------------------------------------------ all
    def run(self):
        rep = self.rep
        for where, text in self.faults:
            rep.ob(False, "the example is Python", where, "syntax", f"`{text}`")
        n = dict(attributes=0, calls=0, names=0)
        for m, f, body in enclosing(self.T):
            strict = isinstance(m, docs.Snippet)
            if strict and f is None:
                rep.ob(True, "the example is Python", m.name[4:], "syntax")
            for s in body:
                for x in walk(s):
                    if isinstance(x, ast.Attribute):
                        self.attribute(m, f, x, strict)
                        n["attributes"] += 1
                        rep.functions.add((rel(m.path), f.qual if f is not None else "<module>"))
                        rep.lines.add((rel(m.path), x.lineno))
                    elif isinstance(x, ast.Name):
                        self.name(m, f, x)
                        n["names"] += 1
                    elif isinstance(x, ast.Call):
                        self.call(m, f, x, strict)
                        n["calls"] += 1
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        self.imports(m, f, x)
                    elif isinstance(x, ast.AnnAssign) and strict:
                        self.annotated(m, f, x)
                    elif isinstance(x, (ast.For, ast.comprehension)):
                        self.iterates(m, f, x if isinstance(x, ast.For) else x.iter, x.iter)
        self.described()
        self.pages()
        for k, uses in self.callbacks.items():
            g = self.T.funcs[k[1]]
            rep.ob(any(w is None for w, _, _ in uses), "the callback is called as documented", self.where(g.module, g, g.node), ast.unparse(g.node.args),
                   "; ".join(f"{t} at {p}: {w}" for w, p, t in uses if w))
        for k, v in n.items():
            rep.count(k, v)
        rep.count("examples", len(self.snips))
        rep.count("attributes_of_unknown_receivers", sum(1 for r in self.T.recv.values() if not r) + self.skipped)


def own_returns(n):
    todo = list(n.body)
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Return):
            yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(x))


def describe(kinds):
    out = set()
    for k in kinds:
        out.add(k if isinstance(k, str) else {"coll": "a list", "tup": "a tuple", "obj": getattr(k[1], "name", "an object") if len(k) > 1 else "an object",
                                              "fn": "a function", "bm": "a method", "cls": "a class"}.get(k[0], "something else"))
    return " or ".join(sorted({"num": "a number", "int": "a number", "str": "a string"}.get(x, x) for x in out))


def kind_text(text):
    """a documented type as an annotation, or None where the text is no single known type"""
    t = re.sub(r":class:`(?:[\w.]*\.)?(\w+)`", r"\1", text).strip()
    t = re.sub(r"\s+or\s+None$", "", t)
    m = re.fullmatch(r"(?:list|List|set)\s*[(\[]\s*(\w+)\s*[)\]]", t)
    if m:
        return ast.parse(f"List[{m.group(1)}]", mode="eval").body
    if t in ("list", "List"):
        return ast.parse("List[Any]", mode="eval").body
    if re.fullmatch(r"\w+", t):
        return ast.parse(t, mode="eval").body
    return None


def _typing(name):
    import typing
    return name in typing.__all__
