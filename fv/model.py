"""Resolved program model of the package under /repo (parsed, never imported)."""
import ast
import builtins
import hashlib
import os

REPO = os.environ.get("FV_REPO", "/repo")
PKG = "foronoi"


class Unsupported(Exception):
    """the analysis cannot decide: error exit, never a verdict"""


class ModuleInfo:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.sym = {}          # name -> binding
        self.star_ext = []     # external modules imported with *
        self.is_pkg = path.endswith("__init__.py")


class FuncInfo:
    def __init__(self, node, module, cls=None, parent=None):
        self.node, self.module, self.cls, self.parent = node, module, cls, parent
        self.name = getattr(node, "name", "<lambda>")
        deco = []
        for d in getattr(node, "decorator_list", []):
            deco.append(ast.unparse(d))
        self.deco = deco
        self.static = "staticmethod" in deco
        self.classm = "classmethod" in deco
        self.prop = any(d == "property" or d.endswith("cached_property") for d in deco)
        self.setter = any(d.endswith(".setter") for d in deco)

    @property
    def qual(self):
        p = f"{self.cls.name}." if self.cls else (f"{self.parent.qual}.<locals>." if self.parent else "")
        return p + self.name

    @property
    def where(self):
        return f"{rel(self.module.path)}:{self.node.lineno} {self.qual}"

    def __repr__(self):
        return f"<fn {self.qual}>"


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.bases = []        # ClassInfo | ("ext", path)
        self.getters, self.setters, self.methods, self.attrs = {}, {}, {}, {}
        self._mro = None

    @property
    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def find(self, table, name):
        for c in self.mro:
            if name in getattr(c, table):
                return getattr(c, table)[name]
        return None

    def method(self, name):
        for c in self.mro:
            if name in c.methods:
                return c.methods[name]
            if name in c.getters or name in c.attrs:
                return None
        return None

    def getter(self, name):
        for c in self.mro:
            if name in c.getters:
                return c.getters[name]
            if name in c.methods or name in c.attrs:
                return None
        return None

    def setter(self, name):
        return self.find("setters", name)

    def attr(self, name):
        for c in self.mro:
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_sub(self, other):
        return other in self.mro

    def ext_bases(self):
        return [b[1] for c in self.mro for b in c.bases if isinstance(b, tuple)]

    @property
    def is_enum(self):
        return any(b.split(".")[-1] in ("Enum", "IntEnum") for b in self.ext_bases())

    def __repr__(self):
        return f"<class {self.name}>"


def _c3(c):
    seqs = [list(b.mro) for b in c.bases if isinstance(b, ClassInfo)]
    seqs.append([b for b in c.bases if isinstance(b, ClassInfo)])
    out = [c]
    while any(seqs):
        for s in seqs:
            if s and not any(s[0] in t[1:] for t in seqs):
                h = s[0]
                break
        else:
            raise Unsupported(f"no MRO for {c.name}")
        out.append(h)
        for s in seqs:
            if s and s[0] is h:
                s.pop(0)
    return out


def rel(p):
    return os.path.relpath(p, REPO)


class Program:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.classes = {}
        self.files = []
        h = hashlib.sha256()
        base = os.path.join(self.root, PKG)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                src = open(path, encoding="utf-8").read()
                h.update(path.encode() + b"\0" + src.encode() + b"\0")
                name = os.path.relpath(path, self.root)[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        tree = ast.parse(src)
                    except SyntaxError as e:
                        raise Unsupported(f"{path}: {e}")
                self.modules[name] = ModuleInfo(name, path, tree, src)
                self.files.append(path)
        self.digest = h.hexdigest()[:16]
        for m in self.modules.values():
            self._collect(m)
        for m in self.modules.values():
            self._imports(m)
        for m in self.modules.values():
            for b in list(m.sym.values()):
                if isinstance(b, ClassInfo) and b.module is m:
                    for e in b.node.bases:
                        r = self.resolve_expr(m, e)
                        b.bases.append(r if isinstance(r, ClassInfo) else ("ext", ast.unparse(e)))

    # ------------------------------------------------------------ building
    def _collect(self, m):
        self._collect_body(m, m.tree.body)

    def _collect_body(self, m, body):
        for n in body:
            if isinstance(n, ast.ClassDef):
                c = ClassInfo(n, m)
                m.sym[n.name] = c
                self.classes.setdefault(n.name, c)
                for k in n.body:
                    if isinstance(k, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        f = FuncInfo(k, m, c)
                        if f.prop:
                            c.getters[k.name] = f
                        elif f.setter:
                            c.setters[k.name] = f
                        else:
                            c.methods[k.name] = f
                    elif isinstance(k, ast.Assign):
                        for t in k.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = k.value
                                # name = property(getter, setter)
                                if isinstance(k.value, ast.Call) and isinstance(k.value.func, ast.Name) \
                                        and k.value.func.id == "property":
                                    c.attrs.pop(t.id)
                                    a = k.value.args
                                    if a and isinstance(a[0], ast.Name) and a[0].id in c.methods:
                                        c.getters[t.id] = c.methods[a[0].id]
                                    if len(a) > 1 and isinstance(a[1], ast.Name) and a[1].id in c.methods:
                                        c.setters[t.id] = c.methods[a[1].id]
                    elif isinstance(k, ast.AnnAssign) and isinstance(k.target, ast.Name) and k.value is not None:
                        c.attrs[k.target.id] = k.value
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.sym[n.name] = FuncInfo(n, m)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.sym[t.id] = ("const", n.value)
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                m.sym[e.id] = ("var", n)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                m.sym[n.target.id] = ("const", n.value) if n.value is not None else ("var", n)
            elif isinstance(n, (ast.If, ast.Try)):
                if isinstance(n, ast.If) and _is_main_guard(n.test):
                    continue
                for part in ("body", "orelse", "finalbody"):
                    self._collect_body(m, getattr(n, part, []))
                for hnd in getattr(n, "handlers", []):
                    self._collect_body(m, hnd.body)

    def _imports(self, m):
        def walk(body):
            for n in body:
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for name, b in self.import_bindings(m, n):
                        if name == "*":
                            m.star_ext.append(b)
                        else:
                            m.sym.setdefault(name, b)
                elif isinstance(n, (ast.If, ast.Try)):
                    if isinstance(n, ast.If) and _is_main_guard(n.test):
                        continue
                    for part in ("body", "orelse", "finalbody"):
                        walk(getattr(n, part, []))
                    for hnd in getattr(n, "handlers", []):
                        walk(hnd.body)
        walk(m.tree.body)

    def import_bindings(self, m, n):
        out = []
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name in self.modules:
                    out.append((a.asname or a.name.split(".")[0],
                                ("mod", a.name if a.asname else a.name.split(".")[0])))
                else:
                    out.append((a.asname or a.name.split(".")[0],
                                ("ext", a.name if a.asname else a.name.split(".")[0])))
        else:
            base = n.module or ""
            if n.level:
                pk = m.name.split(".")
                if not m.is_pkg:
                    pk = pk[:-1]
                pk = pk[:len(pk) - (n.level - 1)]
                base = ".".join(pk + ([n.module] if n.module else []))
            for a in n.names:
                if base in self.modules:
                    if a.name == "*":
                        for k in self.modules[base].sym:
                            if not k.startswith("_"):
                                out.append((k, ("from", base, k)))
                    else:
                        out.append((a.asname or a.name, ("from", base, a.name)))
                else:
                    if a.name == "*":
                        out.append(("*", base))
                    else:
                        out.append((a.asname or a.name, ("ext", f"{base}.{a.name}")))
        return out

    # ------------------------------------------------------------ resolving
    def lookup(self, m, name, depth=0):
        """binding of a module-level name, or None"""
        if depth > 12:
            return None
        b = m.sym.get(name)
        if b is None:
            for s in m.star_ext:
                if _ext_has(s, name):
                    return ("ext", f"{s}.{name}")
            if hasattr(builtins, name):
                return ("ext", f"builtins.{name}")
            return None
        return self.chase(b, depth)

    def chase(self, b, depth=0):
        while isinstance(b, tuple) and b[0] == "from":
            depth += 1
            if depth > 12:
                return None
            _, base, name = b
            mm = self.modules[base]
            if name in mm.sym:
                b = mm.sym[name]
                if isinstance(b, tuple) and b[0] in ("const", "var"):
                    return b + (mm,)
            elif f"{base}.{name}" in self.modules:
                return ("mod", f"{base}.{name}")
            else:
                for s in mm.star_ext:
                    if _ext_has(s, name):
                        return ("ext", f"{s}.{name}")
                return None
        return b

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.lookup(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, tuple) and b[0] == "mod":
                mm = self.modules.get(b[1])
                if mm is not None:
                    r = self.lookup(mm, e.attr)
                    if r is None and f"{b[1]}.{e.attr}" in self.modules:
                        return ("mod", f"{b[1]}.{e.attr}")
                    return r
            if isinstance(b, tuple) and b[0] == "ext":
                return ("ext", f"{b[1]}.{e.attr}")
        return None

    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise Unsupported(f"class {name} not found in {PKG}")
        return c

    def functions(self):
        for m in self.modules.values():
            for b in m.sym.values():
                if isinstance(b, FuncInfo) and b.module is m:
                    yield b
                elif isinstance(b, ClassInfo) and b.module is m:
                    seen = set()
                    for t in (b.methods, b.getters, b.setters):
                        for f in t.values():
                            if id(f) not in seen:
                                seen.add(id(f))
                                yield f

    def backing(self, cls):
        """{private field: public property} for properties that just return a field
        (optionally through list()/tuple() or a memo test)."""
        key = "_backing"
        if key in cls.__dict__:
            return cls.__dict__[key]
        out = {}
        for c in cls.mro:
            for name, g in c.getters.items():
                f = self._backing_field(g)
                if f is not None and f.startswith("_"):
                    out.setdefault(f, name)
        setattr(cls, key, out)
        return out

    def _backing_field(self, g):
        """the one field a getter reads, itself or through the methods of self it is made of"""
        level, seen = [g], set()
        while level:
            fields, nxt = set(), []
            for f in level:
                a, b = self._self_reads(f, seen)
                fields |= a
                nxt += b
            fields = {f for f in fields if f.startswith("_")} or fields
            if fields:
                return fields.pop() if len(fields) == 1 else None
            level = nxt
        return None

    def _self_reads(self, g, seen):
        """(fields of self, methods of self) a function uses"""
        if id(g.node) in seen or not g.node.args.args:
            return set(), []
        seen.add(id(g.node))
        me, more = {g.node.args.args[0].arg}, True
        while more:
            more = False
            for n in ast.walk(g.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in me:
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id not in me:
                            me.add(t.id)
                            more = True
        out, calls = set(), []
        called = {id(c.func) for c in ast.walk(g.node) if isinstance(c, ast.Call)}
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in me and not n.attr.startswith("__"):
                c = g.cls
                m = (c.method(n.attr) or c.getter(n.attr)) if c is not None else None
                if m is not None:
                    calls.append(m)
                elif id(n) not in called:
                    out.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) >= 2 \
                    and isinstance(n.args[0], ast.Name) and n.args[0].id in me and isinstance(n.args[1], ast.Constant) \
                    and isinstance(n.args[1].value, str):
                out.add(n.args[1].value)
        return out, calls

    def field_of(self, cls, public):
        """the field behind a public attribute: a property's backing field, or the attribute itself"""
        c = self.cls(cls)
        g = c.getter(public)
        if g is None:
            return public
        f = self._backing_field(g)
        if f is None:
            raise Unsupported(f"no backing field for {cls}.{public}")
        return f


def _is_main_guard(t):
    return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__"


def _ext_has(mod, name):
    import importlib
    if mod in ("decimal", "math", "typing", "enum", "abc", "queue", "collections", "itertools", "functools"):
        m = importlib.import_module(mod)   # standard library only, never the code under analysis
        return name in getattr(m, "__all__", dir(m))
    return False
