"""Ownership and effect analysis: a whole-program, allocation-site points-to analysis with k-limited call
strings (flow-sensitive in locals, flow-insensitive in the heap) that records every heap write with the set of
abstract objects it may hit.  Nothing is executed."""
import ast
from collections import defaultdict

from .model import ClassInfo, FuncInfo, Unsupported, rel

EMPTY = frozenset()
EXT = ("R", "EXT")

MUTATORS = {"append", "add", "remove", "pop", "insert", "extend", "clear", "sort", "reverse", "update", "discard",
            "setdefault", "popitem", "put", "put_nowait", "get_nowait", "appendleft", "popleft", "extendleft",
            "rotate", "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__",
            "__delitem__", "move_to_end", "fill", "itemset", "resize"}
ADDERS = {"append", "add", "insert", "extend", "update", "setdefault", "put", "put_nowait", "appendleft",
          "extendleft", "__setitem__"}
TAKERS = {"pop", "popitem", "setdefault", "get_nowait", "popleft", "get", "__getitem__", "peek"}
FRESHERS = {"copy", "items", "values", "keys", "union", "intersection", "difference", "__add__", "tolist", "most_common"}
CONTAINERS = {"list", "set", "dict", "tuple", "frozenset", "deque", "defaultdict", "OrderedDict", "Counter",
              "PriorityQueue", "Queue", "LifoQueue", "SimpleQueue", "bytearray"}
PASSERS = {"list", "tuple", "set", "frozenset", "sorted", "reversed", "iter", "copy", "dict", "deque", "defaultdict",
           "OrderedDict", "Counter", "chain", "islice", "cycle", "array", "asarray", "roll", "append", "concatenate",
           "flip", "unique", "where"}
PICKERS = {"min", "max", "next", "sum", "heappop", "choice", "nsmallest", "nlargest"}
PURE_SCALAR = {"len", "abs", "round", "float", "int", "bool", "isinstance", "issubclass", "hasattr", "callable", "id",
               "hash", "ord", "chr", "divmod", "pow", "range", "any", "all", "Decimal", "Fraction", "type", "sqrt",
               "super", "object", "open", "input", "atan2", "degrees", "uuid4", "warn"}


RESET = "#reset"       # must-have-been-assigned set of the current path; None is the full set


def meet(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a & b


class Own:
    K = 3
    MAXPASS = 40

    def __init__(self, prog, opaque=()):
        self.p = prog
        self.heap = defaultdict(set)
        self.info = {}
        self.frames = {}           # frame -> (FuncInfo, closure frame)
        self.ret = defaultdict(set)
        self.params = defaultdict(lambda: defaultdict(set))   # frame -> name -> set
        self.outer = defaultdict(lambda: defaultdict(set))    # frame -> name -> set (all values, for closures)
        self.writes = {}           # (loc, field, where) -> (kind, func)
        self.opaque = set(opaque)
        self.changed = False
        self.stack = []
        self.roots = []
        self.expr_locs = {}        # (frame, id(node)) -> locs, last pass
        self.calls = {}            # (frame, id(call node)) -> set of callee frames
        self.shared_kind = {}      # loc -> description (module-level object, class attribute, default argument)
        self.functions = set()
        self.active = set()
        self.framestack = []
        self.static_cache = {}
        self.instantiated = self._rta()
        self.opaque_calls = set()
        self.tracked = set()       # locations whose fields are tracked for reset-before-read
        self.entry_reset, self.exit_reset = {}, {}
        self.early_reads = {}      # (loc, field) -> where

    # ------------------------------------------------------------ setup
    def _rta(self):
        out = set()
        for m in self.p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    c = self.p.resolve_expr(m, n.func)
                    if isinstance(c, ClassInfo):
                        out.add(c)
                if isinstance(n, ast.ClassDef):
                    pass
        for m in self.p.modules.values():
            for b in m.sym.values():
                if isinstance(b, ClassInfo) and not any(b in c.mro[1:] for c in self.p.classes.values()):
                    out.add(b)          # leaf classes may be created by users
        # classes exported at the top of the package
        top = self.p.modules.get("foronoi")
        if top:
            for name in top.sym:
                b = self.p.lookup(top, name)
                if isinstance(b, ClassInfo):
                    out.add(b)
        return out

    def obj(self, site, kind, cls=None, shared=None, desc=""):
        loc = ("O", site, kind)
        if loc not in self.info:
            self.info[loc] = {"kind": kind, "cls": cls, "desc": desc}
            if shared:
                self.shared_kind[loc] = shared
        return loc

    def root(self, fn):
        """fn(self) is re-run on every pass"""
        self.roots.append(fn)

    def solve(self):
        for i in range(self.MAXPASS):
            self.changed = False
            self.done = set()
            self.writes = {}
            self.expr_locs = {}
            self.early_reads = {}
            for r in self.roots:
                r(self)
            if not self.changed:
                return i + 1
        raise Unsupported("ownership analysis does not stabilise")

    # ------------------------------------------------------------ heap
    def add(self, table_set, vals):
        n = len(table_set)
        table_set |= vals
        if len(table_set) != n:
            self.changed = True

    def load(self, loc, field):
        if loc[0] == "R":
            return {loc} | self.heap.get((loc, "*"), set())
        return self.heap.get((loc, field), set())

    def content(self, locs):
        out = set()
        for l in locs:
            if l[0] == "R":
                out |= self.load(l, "*")
            elif l[0] == "O":
                out |= self.heap.get((l, "[]"), set())
                k = self.info[l]["kind"]
                if k == "tuple":
                    for i in range(12):
                        out |= self.heap.get((l, str(i)), set())
        return frozenset(out)

    def write(self, loc, field, vals, node, kind):
        if loc[0] in ("F", "X", "B"):
            return
        if loc in self.opaque or loc == EXT:
            return
        w = self.where(node)
        self.writes[(loc, field, w)] = (kind, self.stack[-1][0].qual if self.stack else "?")
        self.add(self.heap[(loc, "*" if loc[0] == "R" else field)], set(vals))

    def where(self, node):
        if not self.stack:
            return "<entry>"
        f = self.stack[-1][0]
        return f"{rel(f.module.path)}:{getattr(node, 'lineno', '?')} {f.qual}"

    def reach(self, locs, stop=()):
        seen, todo = set(), list(locs)
        while todo:
            l = todo.pop()
            if l in seen or l in stop:
                continue
            seen.add(l)
            for (o, f), vs in list(self.heap.items()):
                if o == l:
                    todo += list(vs)
            if l[0] == "B":
                todo += list(l[2])
        return seen

    # ------------------------------------------------------------ calls
    def call_fn(self, f, args, kwargs, site, ctx, closure=None, star=EMPTY, self_locs=None):
        """args: list of loc sets (incl. self)"""
        nctx = ((site,) + ctx)[:self.K]
        frame = (id(f.node), nctx)
        self.functions.add(f)
        if frame not in self.frames:
            self.frames[frame] = (f, closure)
            self.changed = True
        P = self.params[frame]
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        rest = set()
        for i, v in enumerate(args):
            if i < len(pos):
                self.add(P[pos[i]], set(v))
            else:
                rest |= set(v)
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        kwrest = set()
        for k, v in kwargs.items():
            if k == "**":
                for nme in names:
                    if nme not in ("self", "cls"):
                        self.add(P[nme], set(v))
                kwrest |= set(v)
            elif k in names:
                self.add(P[k], set(v))
            else:
                kwrest |= set(v)
        if star:
            for nme in pos[len(args):]:
                self.add(P[nme], set(star))
            rest |= set(star)
        if a.vararg:
            l = self.obj((id(a.vararg), nctx), "tuple")
            self.add(self.heap[(l, "[]")], rest)
            self.add(P[a.vararg.arg], {l})
        if a.kwarg:
            l = self.obj((id(a.kwarg), nctx), "dict")
            self.add(self.heap[(l, "[]")], kwrest)
            self.add(P[a.kwarg.arg], {l})
        # defaults
        defaults = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
            [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        given = set(pos[:len(args)]) | set(kwargs)
        for nme, d in defaults:
            if nme not in given or "**" in kwargs:
                self.add(P[nme], self.static(d, f.module, f"default value of {f.qual}({nme})"))
        caller = self.framestack[-1] if self.framestack else None
        cur = caller.env.get(RESET, EMPTY) if caller is not None and caller.env is not None else EMPTY
        new = meet(self.entry_reset.get(frame), cur)
        if frame not in self.entry_reset or new != self.entry_reset[frame]:
            self.entry_reset[frame] = new
            self.changed = True
        if not (frame in self.done or frame in self.active):
            self.run_frame(frame)
        if caller is not None and caller.env is not None and frame in self.exit_reset:
            ex = self.exit_reset[frame]
            if ex is not None:
                caller.env[RESET] = ex if cur is None else cur | ex
        return frozenset(self.ret[frame])

    def static(self, expr, m, what):
        """value of a module-level expression (default, class attribute, module variable); objects it allocates
        are shared"""
        key = id(expr)
        if key not in self.static_cache:
            self.static_cache[key] = EMPTY
            fake = FuncInfo(ast.parse("def static(): pass").body[0], m)
            self.stack.append((fake, ("static", key)))
            try:
                v = Frame(self, fake, ("static", key), {}, None).ev(expr)
            finally:
                self.stack.pop()
            self.static_cache[key] = v
            for l in self.reach(v):
                if l[0] == "O" and self.info[l]["kind"] not in ("tuple",):
                    self.shared_kind.setdefault(l, what)
        return self.static_cache[key]

    def run_frame(self, frame):
        f, closure = self.frames[frame]
        if len(self.active) > 120:
            return
        self.active.add(frame)
        self.stack.append((f, frame))
        try:
            env = {k: frozenset(v) for k, v in self.params[frame].items()}
            for k, v in env.items():
                self.add(self.outer[frame][k], set(v))
            env[RESET] = self.entry_reset.get(frame, EMPTY)
            fr = Frame(self, f, frame, env, closure)
            fr.exits = []
            self.framestack.append(fr)
            if isinstance(f.node, ast.Lambda):
                self.add(self.ret[frame], set(fr.ev(f.node.body)))
            else:
                gen = [n for n in ast.walk(f.node) if isinstance(n, (ast.Yield, ast.YieldFrom))]
                fr.block(f.node.body)
                if gen:
                    l = self.obj((id(f.node), frame[1], "gen"), "list")
                    self.add(self.ret[frame], {l})
            outs = fr.exits + ([fr.env[RESET]] if fr.env is not None else [])
            ex = None
            for o in outs:
                ex = meet(ex, o)
            if frame not in self.exit_reset or self.exit_reset[frame] != ex:
                self.exit_reset[frame] = ex
                self.changed = True
        finally:
            self.stack.pop()
            self.active.discard(frame)
            if self.framestack and self.framestack[-1].frame == frame:
                self.framestack.pop()
        self.done.add(frame)

    def candidates(self, name, table="methods"):
        out = []
        for c in self.instantiated:
            f = c.method(name) if table == "methods" else (c.getter(name) if table == "getters" else c.setter(name))
            if f is not None and f not in out:
                out.append(f)
        return sorted(out, key=lambda f: f.where)


class Entry:
    """calls from outside the package (user code), for use in root functions"""

    def __init__(self, O, tag="entry"):
        self.O, self.tag, self.n = O, tag, 0
        self.node = ast.parse("0").body[0]

    def _site(self):
        self.n += 1
        return (self.tag, self.n)

    def new(self, cls, *args, **kw):
        c = self.O.p.cls(cls) if isinstance(cls, str) else cls
        site = self._site()
        l = self.O.obj((site, c.name), "inst", c)
        init = c.method("__init__")
        if init is not None:
            self.O.call_fn(init, [frozenset({l})] + [frozenset(a) for a in args],
                           {k: frozenset(v) for k, v in kw.items()}, site, ())
        return l

    def call(self, f, *args, **kw):
        return self.O.call_fn(f, [frozenset(a) for a in args], {k: frozenset(v) for k, v in kw.items()},
                              self._site(), ())

    def lst(self, elems, kind="list"):
        l = self.O.obj((self._site(), kind), kind, desc="caller's data")
        self.O.add(self.O.heap[(l, "[]")], set(elems))
        return l


class Frame:
    def __init__(self, O, f, frame, env, closure):
        self.O, self.f, self.frame, self.env, self.closure = O, f, frame, env, closure
        self.ctx = frame[1] if isinstance(frame[1], tuple) else (frame[1],)
        self.loops = []
        self.exits = []
        self.env.setdefault(RESET, EMPTY)
        self.globals = set()
        self.nonlocals = set()
        self.quiet = False

    # ------------------------------------------------------------ statements
    def join(self, *envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return None
        out = {}
        for e in envs:
            for k, v in e.items():
                if k == RESET:
                    out[k] = meet(out[k], v) if k in out else v
                else:
                    out[k] = out.get(k, EMPTY) | v
        return out

    def block(self, stmts):
        """executes with self.env; self.env becomes None when control does not fall through"""
        for s in stmts:
            if self.env is None:
                return
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at {self.O.where(s)}")
        m(s)

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for name, b in self.O.p.import_bindings(self.f.module, s):
            self.setname(name, self.binding(b, name))

    def s_ImportFrom(self, s):
        self.s_Import(s)

    def s_Global(self, s):
        self.globals |= set(s.names)

    def s_Nonlocal(self, s):
        self.nonlocals |= set(s.names)

    def s_FunctionDef(self, s):
        fi = self.O.static_cache.setdefault(("fi", id(s)), FuncInfo(s, self.f.module, None, self.f))
        self.setname(s.name, frozenset({("F", fi, self.frame)}))

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s):
        raise Unsupported(f"local class at {self.O.where(s)}")

    def s_Return(self, s):
        if s.value is not None:
            v = self.ev(s.value)
            self.O.add(self.O.ret[self.frame], set(v))
        self.exits.append(self.env[RESET])
        self.env = None

    def s_Raise(self, s):
        if s.exc is not None:
            self.ev(s.exc)
        self.env = None

    def s_Assert(self, s):
        self.ev(s.test)
        if s.msg:
            self.ev(s.msg)

    def s_Break(self, s):
        self.loops[-1].append(self.env)
        self.env = None

    def s_Continue(self, s):
        self.loops[-1].append(self.env)
        self.env = None

    def const_test(self, t):
        """value of a test that names a module-level constant, else None"""
        if isinstance(t, ast.Constant):
            return bool(t.value)
        if isinstance(t, ast.Name) and t.id not in self.env:
            b = self.O.p.lookup(self.f.module, t.id)
            if isinstance(b, tuple) and b[0] == "const" and isinstance(b[1], ast.Constant) \
                    and not self.O.heap.get((("M", self.f.module.name), t.id)):
                return bool(b[1].value)
        return None

    def s_If(self, s):
        c = self.const_test(s.test)
        if c is not None:
            self.block(s.body if c else s.orelse)
            return
        self.ev(s.test)
        e0 = dict(self.env)
        self.block(s.body)
        e1 = self.env
        self.env = e0
        self.block(s.orelse)
        self.env = self.join(e1, self.env)

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, s)
        self.block(s.body)

    def s_Try(self, s):
        e0 = dict(self.env)
        self.block(s.body)
        mid = self.env
        if mid is not None:
            self.block(s.orelse)
        outs = [self.env]
        for h in s.handlers:
            self.env = self.join(e0, mid)
            if h.name:
                self.setname(h.name, frozenset({EXT}))
            self.block(h.body)
            outs.append(self.env)
        self.env = self.join(*outs)
        if s.finalbody:
            if self.env is None:
                self.env = dict(e0)
                self.block(s.finalbody)
                self.env = None
            else:
                self.block(s.finalbody)

    def loop(self, s, bind):
        for _ in range(6):
            start = dict(self.env)
            self.loops.append([])
            bind()
            self.block(s.body)
            breaks = self.loops.pop()
            self.env = self.join(start, self.env, *breaks)
            if self.env == start:
                break
        self.block(s.orelse)

    def s_For(self, s):
        it = self.ev(s.iter)
        self.loop(s, lambda: self.assign(s.target, self.iterate(it, s.iter), s))

    def s_While(self, s):
        self.loop(s, lambda: self.ev(s.test))

    def s_Assign(self, s):
        # pairwise tuple assignment keeps components apart
        if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and \
                isinstance(s.value, (ast.Tuple, ast.List)) and len(s.value.elts) == len(s.targets[0].elts) and \
                not any(isinstance(e, ast.Starred) for e in s.value.elts + s.targets[0].elts):
            vs = [self.ev(e) for e in s.value.elts]
            for t, v in zip(s.targets[0].elts, vs):
                self.assign(t, v, s)
            return
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)

    def s_AugAssign(self, s):
        v = self.ev(s.value)
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id)
            for l in old:
                if l[0] == "O" and self.O.info[l]["kind"] in ("list", "set", "dict", "deque"):
                    self.O.write(l, "[]", self.O.content(v), s, "in-place operator")
                elif l[0] == "R":
                    self.O.write(l, "[]", self.O.content(v), s, "in-place operator")
            if any(l[0] == "O" and self.O.info[l]["kind"] == "tuple" for l in old):
                self.setname(t.id, old | v)
            else:
                self.setname(t.id, old | (EMPTY if old else EMPTY))
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            old = self.attr_load(base, t.attr, t)
            for l in old:
                if (l[0] == "O" and self.O.info[l]["kind"] in ("list", "set", "dict", "deque")):
                    self.O.write(l, "[]", self.O.content(v), s, "in-place operator")
            self.attr_store(base, t.attr, old, s)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            self.ev(t.slice)
            for l in base:
                self.O.write(l, "[]", v, s, "item store")

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                for l in self.ev(t.value):
                    self.O.write(l, t.attr, EMPTY, s, "attribute delete")
            elif isinstance(t, ast.Subscript):
                whole = isinstance(t.slice, ast.Slice) and not (t.slice.lower or t.slice.upper)
                self.quiet = whole
                base = self.ev(t.value)
                self.quiet = False
                if whole and isinstance(t.value, ast.Attribute):
                    holders = self.ev(t.value.value)
                    if len(holders) == 1 and next(iter(holders)) in self.O.tracked:
                        self.reset(next(iter(holders)), t.value.attr)
                for l in base:
                    self.O.write(l, "[]", EMPTY, s, "item delete")

    def s_Match(self, s):
        raise Unsupported("match statement")

    # ------------------------------------------------------------ names and stores
    def setname(self, name, v):
        if name in self.globals:
            m = ("M", self.f.module.name)
            self.O.write(m, name, v, self.f.node, "global store")
            return
        if name in self.nonlocals and self.closure is not None:
            fr = self.closure
            self.O.add(self.O.outer[fr][name], set(v))
            return
        self.env[name] = frozenset(v)
        self.O.add(self.O.outer[self.frame][name], set(v))

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            self.setname(t.id, v)
        elif isinstance(t, ast.Starred):
            l = self.O.obj((id(t), self.ctx), "list")
            self.O.add(self.O.heap[(l, "[]")], set(v))
            self.assign(t.value, frozenset({l}), s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                out = set()
                for l in v:
                    if l[0] == "R":
                        out |= self.O.load(l, "*")
                    elif l[0] == "O":
                        out |= self.O.heap.get((l, "[]"), set())
                        if self.O.info[l]["kind"] == "tuple":
                            if any(isinstance(x, ast.Starred) for x in t.elts):
                                out |= self.O.content([l])
                            else:
                                out |= self.O.heap.get((l, str(i)), set())
                self.assign(e, frozenset(out), s)
        elif isinstance(t, ast.Attribute):
            self.attr_store(self.ev(t.value), t.attr, v, s)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            self.ev(t.slice)
            vals = self.O.content(v) if isinstance(t.slice, ast.Slice) else v
            for l in base:
                cls = self.O.info[l]["cls"] if l[0] == "O" else None
                if isinstance(cls, ClassInfo) and cls.method("__setitem__"):
                    self.O.call_fn(cls.method("__setitem__"), [frozenset({l}), EMPTY, v], {}, id(t), self.ctx)
                else:
                    self.O.write(l, "[]", vals, s, "item store")

    def attr_store(self, base, name, v, node):
        base = frozenset(base)
        if len(base) == 1 and next(iter(base)) in self.O.tracked:
            l = next(iter(base))
            c = self.O.info[l]["cls"]
            if not (isinstance(c, ClassInfo) and c.setter(name)):
                self.reset(l, name)
        for l in base:
            if l[0] == "O":
                c = self.O.info[l]["cls"]
                if isinstance(c, ClassInfo):
                    st = c.setter(name)
                    if st is not None:
                        self.O.call_fn(st, [frozenset({l}), v], {}, (id(node), name), self.ctx)
                        continue
                self.O.write(l, name, v, node, "attribute store")
            elif l[0] == "R":
                if l not in self.O.opaque and l != EXT:
                    for st in self.O.candidates(name, "setters"):
                        self.O.call_fn(st, [frozenset({l}), v], {}, (id(node), name), self.ctx)
                self.O.write(l, name, v, node, "attribute store")
            elif l[0] in ("C", "M"):
                self.O.write(l, name, v, node, "class attribute store" if l[0] == "C" else "module attribute store")

    def reset(self, l, name):
        r = self.env.get(RESET, EMPTY)
        if r is not None:
            self.env[RESET] = r | {(l, name)}

    def name(self, n):
        if n in self.env and n not in self.globals:
            return self.env[n]
        fr = self.closure
        while fr is not None:
            d = self.O.outer.get(fr)
            if d is not None and n in d:
                return frozenset(d[n])
            fr = self.O.frames[fr][1] if fr in self.O.frames else None
        m = self.f.module
        b = self.O.p.lookup(m, n)
        v = self.binding(b, n)
        extra = self.O.heap.get((("M", m.name), n))
        return v | frozenset(extra) if extra else v

    def binding(self, b, n):
        if b is None:
            return EMPTY
        if isinstance(b, ClassInfo):
            return frozenset({("C", b)})
        if isinstance(b, FuncInfo):
            return frozenset({("F", b, None)})
        k = b[0]
        if k == "mod":
            return frozenset({("M", b[1])})
        if k == "ext":
            return frozenset({("X", b[1])})
        if k == "from":
            return self.binding(self.O.p.chase(b), n)
        if k == "const":
            mm = b[2] if len(b) > 2 else self.f.module
            return self.O.static(b[1], mm, f"module variable {mm.name}.{n}")
        return EMPTY

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at {self.O.where(e)}")
        v = m(e)
        k = (self.frame, id(e))
        self.O.expr_locs[k] = self.O.expr_locs.get(k, EMPTY) | v
        return v

    def e_Constant(self, e):
        return EMPTY

    def e_Name(self, e):
        return self.name(e.id)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    def e_JoinedStr(self, e):
        for x in e.values:
            self.ev(x)
        return EMPTY

    def e_FormattedValue(self, e):
        self.to_str(self.ev(e.value), e)
        if e.format_spec is not None:
            self.ev(e.format_spec)
        return EMPTY

    def to_str(self, locs, node):
        todo, seen = list(locs), set()
        while todo:
            l = todo.pop()
            if l in seen:
                continue
            seen.add(l)
            if l[0] == "O":
                c = self.O.info[l]["cls"]
                if isinstance(c, ClassInfo):
                    for d in ("__format__", "__str__", "__repr__"):
                        f = c.method(d)
                        if f is not None:
                            self.O.call_fn(f, [frozenset({l})], {}, (id(node), d), self.ctx)
                else:
                    todo += list(self.O.content([l]))
            elif l[0] == "R" and l not in self.O.opaque and l != EXT:
                for d in ("__format__", "__str__", "__repr__"):
                    for f in self.O.candidates(d):
                        self.O.call_fn(f, [frozenset({l})], {}, (id(node), d, f.where), self.ctx)

    def e_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant):
            self.to_str(b, e)
            return EMPTY
        out = set()
        D = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__"}.get(type(e.op))
        lists = set()
        for l in a:
            c = self.O.info[l]["cls"] if l[0] == "O" else None
            if isinstance(c, ClassInfo) and D and c.method(D):
                out |= self.O.call_fn(c.method(D), [frozenset({l}), b], {}, (id(e), D), self.ctx)
            elif l[0] == "R" and l not in self.O.opaque and l != EXT:
                for f in (self.O.candidates(D) if D else []):
                    out |= self.O.call_fn(f, [frozenset({l}), b], {}, (id(e), f.where), self.ctx)
                lists.add(l)
            elif l[0] == "O":
                lists.add(l)
        lists |= {l for l in b if l[0] in ("O", "R") and not isinstance(self.O.info.get(l, {}).get("cls"), ClassInfo)}
        if lists:
            cont = self.O.content(lists)
            if cont or any(l[0] == "O" for l in lists):
                l = self.O.obj((id(e), self.ctx), "list")
                self.O.add(self.O.heap[(l, "[]")], set(cont))
                out.add(l)
        return frozenset(out)

    def e_UnaryOp(self, e):
        self.ev(e.operand)
        return EMPTY

    def e_BoolOp(self, e):
        out = EMPTY
        for v in e.values:
            out |= self.ev(v)
        return out

    def e_Compare(self, e):
        vs = [self.ev(e.left)] + [self.ev(c) for c in e.comparators]
        names = {ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__", ast.Eq: "__eq__",
                 ast.NotEq: "__ne__"}
        for op, a, b in zip(e.ops, vs, vs[1:]):
            d = names.get(type(op))
            if d is None:
                continue
            for l in a:
                c = self.O.info[l]["cls"] if l[0] == "O" else None
                if isinstance(c, ClassInfo) and c.method(d):
                    self.O.call_fn(c.method(d), [frozenset({l}), b], {}, (id(e), d), self.ctx)
        return EMPTY

    def e_IfExp(self, e):
        self.ev(e.test)
        return self.ev(e.body) | self.ev(e.orelse)

    def e_Lambda(self, e):
        fi = self.O.static_cache.setdefault(("fi", id(e)), FuncInfo(e, self.f.module, None, self.f))
        return frozenset({("F", fi, self.frame)})

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Tuple(self, e):
        l = self.O.obj((id(e), self.ctx), "tuple")
        for i, x in enumerate(e.elts):
            v = self.ev(x)
            if isinstance(x, ast.Starred):
                self.O.add(self.O.heap[(l, "[]")], set(self.O.content(v)))
            else:
                self.O.add(self.O.heap[(l, str(i))], set(v))
        return frozenset({l})

    def seq(self, e, kind):
        l = self.O.obj((id(e), self.ctx), kind)
        for x in e.elts:
            v = self.ev(x)
            self.O.add(self.O.heap[(l, "[]")], set(self.O.content(v) if isinstance(x, ast.Starred) else v))
        return frozenset({l})

    def e_List(self, e):
        return self.seq(e, "list")

    def e_Set(self, e):
        return self.seq(e, "set")

    def e_Dict(self, e):
        l = self.O.obj((id(e), self.ctx), "dict")
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v)
            if k is not None:
                vv |= self.ev(k)
            else:
                vv = self.O.content(vv)
            self.O.add(self.O.heap[(l, "[]")], set(vv))
        return frozenset({l})

    def comp(self, e, elts, kind):
        saved = dict(self.env)
        for _ in range(2):
            for g in e.generators:
                it = self.ev(g.iter)
                self.assign(g.target, self.iterate(it, g.iter), e)
                for c in g.ifs:
                    self.ev(c)
        l = self.O.obj((id(e), self.ctx), kind)
        for x in elts:
            self.O.add(self.O.heap[(l, "[]")], set(self.ev(x)))
        self.env = saved
        return frozenset({l})

    def e_ListComp(self, e):
        return self.comp(e, [e.elt], "list")

    def e_GeneratorExp(self, e):
        return self.comp(e, [e.elt], "list")

    def e_SetComp(self, e):
        return self.comp(e, [e.elt], "set")

    def e_DictComp(self, e):
        return self.comp(e, [e.key, e.value], "dict")

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value else EMPTY
        l = self.O.obj((id(self.f.node), self.frame[1], "gen"), "list")
        self.O.add(self.O.heap[(l, "[]")], set(v))
        return EMPTY

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        l = self.O.obj((id(self.f.node), self.frame[1], "gen"), "list")
        self.O.add(self.O.heap[(l, "[]")], set(self.O.content(v)))
        return EMPTY

    def e_Slice(self, e):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x)
        return EMPTY

    def e_Subscript(self, e):
        base = self.ev(e.value)
        self.ev(e.slice)
        if isinstance(e.slice, ast.Slice):
            l = self.O.obj((id(e), self.ctx), "list")
            self.O.add(self.O.heap[(l, "[]")], set(self.O.content(base)))
            return frozenset({l}) | frozenset(x for x in base if x == EXT)
        out = set()
        for l in base:
            if l[0] == "R":
                out |= self.O.load(l, "*")
            elif l[0] == "O":
                c = self.O.info[l]["cls"]
                if isinstance(c, ClassInfo) and c.method("__getitem__"):
                    out |= self.O.call_fn(c.method("__getitem__"), [frozenset({l}), EMPTY], {}, id(e), self.ctx)
                    continue
                out |= self.O.heap.get((l, "[]"), set())
                if self.O.info[l]["kind"] == "tuple":
                    if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and e.slice.value >= 0:
                        out |= self.O.heap.get((l, str(e.slice.value)), set())
                    else:
                        out |= self.O.content([l])
        return frozenset(out)

    def iterate(self, it, node):
        out = set(self.O.content(it))
        for l in it:
            c = self.O.info[l]["cls"] if l[0] == "O" else None
            if isinstance(c, ClassInfo) and c.method("__iter__"):
                out |= self.O.content(self.O.call_fn(c.method("__iter__"), [frozenset({l})], {}, (id(node), "iter"), self.ctx))
        return frozenset(out)

    def e_Attribute(self, e):
        return self.attr_load(self.ev(e.value), e.attr, e)

    def attr_load(self, base, name, node):
        O = self.O
        out = set()
        for l in base:
            k = l[0]
            if k == "O":
                c = O.info[l]["cls"]
                if isinstance(c, ClassInfo):
                    g = c.getter(name)
                    if g is not None:
                        out |= O.call_fn(g, [frozenset({l})], {}, (id(node), name), self.ctx)
                        continue
                    f = c.method(name)
                    if f is not None:
                        if f.static:
                            out.add(("F", f, None))
                        elif f.classm:
                            out.add(("B", f, frozenset({("C", c)})))
                        else:
                            out.add(("B", f, frozenset({l})))
                    a = c.attr(name)
                    if a is not None and not c.is_enum:
                        out |= O.static(a[1], a[0].module, f"class attribute {a[0].name}.{name}")
                        for k2 in c.mro:
                            out |= O.heap.get((("C", k2), name), set())
                    if name == "__dict__":
                        out.add(l)
                    if name == "__class__":
                        out.add(("C", c))
                if l in O.tracked and not self.quiet:
                    r = self.env.get(RESET, EMPTY)
                    if r is not None and (l, name) not in r:
                        O.early_reads.setdefault((l, name), O.where(node))
                out |= O.heap.get((l, name), set())
            elif k == "R":
                if l in O.opaque or l == EXT:
                    out.add(l)
                    continue
                out |= O.load(l, name)
                for g in O.candidates(name, "getters"):
                    out |= O.call_fn(g, [frozenset({l})], {}, (id(node), name, g.where), self.ctx)
            elif k == "C":
                c = l[1]
                f = c.find("methods", name)
                if f is not None:
                    out.add(("B", f, frozenset({l})) if f.classm else ("F", f, None))
                a = c.attr(name)
                if a is not None and not c.is_enum:
                    out |= O.static(a[1], a[0].module, f"class attribute {a[0].name}.{name}")
                for k2 in c.mro:
                    out |= O.heap.get((("C", k2), name), set())
            elif k == "M":
                mm = O.p.modules.get(l[1])
                if mm is not None:
                    b = O.p.lookup(mm, name)
                    if b is None and f"{l[1]}.{name}" in O.p.modules:
                        out.add(("M", f"{l[1]}.{name}"))
                    out |= Frame(O, FuncInfo(self.f.node, mm), self.frame, {}, None).binding(b, name)
                    out |= O.heap.get((l, name), set())
            elif k == "X":
                out.add(("X", f"{l[1]}.{name}"))
            elif k == "S":
                cls, selfl = l[1], l[2]
                for sl in selfl:
                    mro = O.info[sl]["cls"].mro if sl[0] == "O" and isinstance(O.info[sl]["cls"], ClassInfo) else cls.mro
                    restm = mro[mro.index(cls) + 1:] if cls in mro else cls.mro[1:]
                    for c in restm:
                        if name in c.methods:
                            out.add(("B", c.methods[name], frozenset({sl})))
                            break
                        if name in c.getters:
                            out |= O.call_fn(c.getters[name], [frozenset({sl})], {}, (id(node), name), self.ctx)
                            break
        return frozenset(out)

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        O = self.O
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in self.env:
            f = self.f
            while f.cls is None and f.parent is not None:
                f = f.parent
            first = f.node.args.args[0].arg
            return frozenset({("S", f.cls, self.name(first))})
        args, star, kwargs = [], EMPTY, {}
        recv = None
        if isinstance(e.func, ast.Attribute):
            if e.func.attr == "clear" and not e.args and isinstance(e.func.value, ast.Attribute):
                # emptying a container counts as starting it afresh
                self.quiet = True
                recv = self.ev(e.func.value)
                self.quiet = False
                holders = self.ev(e.func.value.value)
                if len(holders) == 1 and next(iter(holders)) in O.tracked:
                    self.reset(next(iter(holders)), e.func.value.attr)
            else:
                recv = self.ev(e.func.value)
            fv = self.attr_load(recv, e.func.attr, e.func)
        else:
            fv = self.ev(e.func)
        for a in e.args:
            v = self.ev(a)
            if isinstance(a, ast.Starred):
                star |= O.content(v)
            else:
                args.append(v)
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                kwargs["**"] = kwargs.get("**", EMPTY) | O.content(v)
            else:
                kwargs[k.arg] = v
        out = set()
        seen = O.calls.setdefault((self.frame, id(e)), set())
        # container / unknown receivers
        if recv is not None:
            name = e.func.attr
            for l in recv:
                if l[0] == "O" and not isinstance(O.info[l]["cls"], ClassInfo):
                    out |= self.container(l, name, args, kwargs, star, e)
                elif l[0] == "R":
                    if l in O.opaque or l == EXT:
                        out.add(l)
                        for v in args:
                            self.callbacks(v, e)
                        continue
                    cands = O.candidates(name)
                    for f in cands:
                        seen.add(f)
                        a2 = args if f.static else [frozenset({l})] + args
                        out |= O.call_fn(f, a2, kwargs, (id(e), f.where), self.ctx, star=star)
                    out |= self.container(l, name, args, kwargs, star, e, region=True, known=bool(cands))
                elif l[0] == "O" and isinstance(O.info[l]["cls"], ClassInfo) and O.info[l]["cls"].ext_bases() \
                        and not O.info[l]["cls"].find("methods", name) and name in MUTATORS:
                    out |= self.container(l, name, args, kwargs, star, e)
        for c in fv:
            out |= self.apply(c, args, kwargs, star, e, seen)
        return frozenset(out)

    def callbacks(self, locs, e):
        for c in locs:
            if c[0] in ("F", "B"):
                self.apply(c, [], {}, EMPTY, e, set())

    def apply(self, c, args, kwargs, star, e, seen):
        O = self.O
        k = c[0]
        if k == "F":
            seen.add(c[1])
            return O.call_fn(c[1], args, kwargs, id(e), self.ctx, closure=c[2], star=star)
        if k == "B":
            seen.add(c[1])
            return O.call_fn(c[1], [c[2]] + args, kwargs, id(e), self.ctx, star=star)
        if k == "C":
            cls = c[1]
            if cls.is_enum:
                return EMPTY
            l = O.obj((id(e), self.ctx, cls.name), "inst", cls)
            init = cls.method("__init__")
            if init is not None:
                seen.add(init)
                O.call_fn(init, [frozenset({l})] + args, kwargs, id(e), self.ctx, star=star)
            else:
                for v in args:
                    O.add(O.heap[(l, "[]")], set(v))
                for n, v in kwargs.items():
                    O.add(O.heap[(l, n)], set(v))
            return frozenset({l})
        if k == "X":
            return self.ext(c[1], args, kwargs, star, e)
        if k == "O" and isinstance(O.info[c]["cls"], ClassInfo):
            f = O.info[c]["cls"].method("__call__")
            if f is not None:
                return O.call_fn(f, [frozenset({c})] + args, kwargs, id(e), self.ctx, star=star)
            return EMPTY
        if k == "R":
            O.opaque_calls.add(O.where(e))
            return frozenset() if c in O.opaque else frozenset({c})
        return EMPTY

    def container(self, l, name, args, kwargs, star, e, region=False, known=False):
        O = self.O
        allargs = set().union(*args, *kwargs.values(), star) if (args or kwargs or star) else set()
        if name in ("sort", "nlargest", "nsmallest") or "key" in kwargs:
            for f in kwargs.get("key", EMPTY):
                self.apply(f, [O.content([l])], {}, EMPTY, e, set())
        if name in MUTATORS or (name == "get" and not args):
            vals = set()
            if name in ("extend", "update", "extendleft"):
                vals = set(O.content(allargs))
            elif name in ADDERS:
                vals = allargs
            if not known or name in MUTATORS:
                O.write(l, "[]", vals, e, f".{name}()")
            if name in TAKERS or name == "get":
                return O.content([l]) | (args[1] if len(args) > 1 else EMPTY)
            return EMPTY
        if region:
            return frozenset({l}) if not known else EMPTY
        if name in TAKERS:
            return O.content([l]) | (args[1] if len(args) > 1 else EMPTY)
        if name in FRESHERS:
            n = O.obj((id(e), self.ctx, name), "dict" if O.info[l]["kind"] == "dict" and name == "copy" else "list")
            cont = set(O.content([l]) | O.content(allargs))
            if name == "items":
                t = O.obj((id(e), self.ctx, "item"), "tuple")
                O.add(O.heap[(t, "[]")], cont)
                cont = {t}
            O.add(O.heap[(n, "[]")], cont)
            return frozenset({n})
        return EMPTY

    def ext(self, path, args, kwargs, star, e):
        O = self.O
        root, last = path.split(".")[0], path.split(".")[-1]
        allargs = frozenset().union(*args, *kwargs.values(), star) if (args or kwargs or star) else EMPTY
        if last in ("print", "str", "repr", "format", "join"):
            self.to_str(allargs, e)
            return EMPTY
        if last == "getattr":
            if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str):
                return self.attr_load(args[0], e.args[1].value, e) | (args[2] if len(args) > 2 else EMPTY)
            return O.content(args[0]) if args else EMPTY
        if last in ("setattr", "delattr"):
            nm = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else "?"
            self.attr_store(args[0], nm, args[2] if len(args) > 2 else EMPTY, e)
            return EMPTY
        if last in ("vars",):
            return allargs
        if last == "deepcopy":
            r = ("R", ("copy", id(e), self.ctx))
            return frozenset({r}) if allargs else EMPTY
        if last in ("map", "filter", "reduce", "starmap"):
            cont = frozenset().union(*[O.content(a) for a in args[1:]]) if len(args) > 1 else EMPTY
            res = set()
            for f in args[0] if args else ():
                n = 2 if last == "reduce" else max(1, len(args) - 1)
                ar = [O.content(a) for a in args[1:]] if last == "map" else [cont] * n
                res |= self.apply(f, ar, {}, EMPTY, e, set())
            if last == "reduce":
                return frozenset(res | set(cont))
            n = O.obj((id(e), self.ctx, last), "list")
            O.add(O.heap[(n, "[]")], set(cont) if last == "filter" else res)
            return frozenset({n})
        if last in ("zip", "enumerate", "product", "combinations", "permutations", "zip_longest", "pairwise"):
            t = O.obj((id(e), self.ctx, "tup"), "tuple")
            off = 1 if last == "enumerate" else 0
            for i, a in enumerate(args):
                if last in ("combinations", "permutations", "pairwise"):
                    O.add(O.heap[(t, "[]")], set(O.content(a)))
                else:
                    O.add(O.heap[(t, str(i + off))], set(O.content(a)))
            if star:
                O.add(O.heap[(t, "[]")], set(O.content(star)))
            n = O.obj((id(e), self.ctx, last), "list")
            O.add(O.heap[(n, "[]")], {t})
            return frozenset({n})
        for f in kwargs.get("key", EMPTY):
            self.apply(f, [O.content(args[0])] if args else [], {}, EMPTY, e, set())
        if last in ("heappush", "heappop", "heapify", "heapreplace", "heappushpop", "insort", "insort_left",
                    "insort_right", "shuffle"):
            for l in (args[0] if args else ()):
                O.write(l, "[]", set(args[1]) if len(args) > 1 else set(), e, f"{last}()")
            return O.content(args[0]) if args else EMPTY
        if root == "builtins" or root in ("collections", "queue", "itertools", "functools", "copy", "heapq"):
            if last in PICKERS:
                return O.content(allargs) | frozenset(l for v in (args if len(args) > 1 else []) for l in v)
            if last in CONTAINERS or last in PASSERS:
                kind = last if last in ("list", "set", "dict", "tuple") else \
                    {"frozenset": "set", "OrderedDict": "dict", "defaultdict": "dict", "Counter": "dict"}.get(last, "list")
                n = O.obj((id(e), self.ctx, last), kind)
                cont = set(O.content(args[0] if args else EMPTY))
                if last == "dict":
                    cont |= set().union(*kwargs.values()) if kwargs else set()
                if last == "copy" and args:
                    # a shallow copy of an instance shares what it refers to
                    out = set()
                    for l in args[0]:
                        if l[0] == "O" and isinstance(O.info[l]["cls"], ClassInfo):
                            c2 = O.obj((id(e), self.ctx, "copy", O.info[l]["cls"].name), "inst", O.info[l]["cls"])
                            for (o, f), vs in list(O.heap.items()):
                                if o == l:
                                    O.add(O.heap[(c2, f)], set(vs))
                            out.add(c2)
                    if out:
                        return frozenset(out)
                O.add(O.heap[(n, "[]")], cont)
                return frozenset({n})
            if last == "partial" and args:
                return args[0]
            return EMPTY
        if last in PURE_SCALAR or root in ("math", "decimal", "warnings", "typing", "enum", "abc", "uuid", "numbers"):
            return EMPTY
        # other libraries (numpy, matplotlib, graphviz): results may hold what they were given
        for v in args:
            self.callbacks(v, e)
        cont = O.content(allargs) - {EXT}
        cont = frozenset(l for l in cont if l[0] in ("O", "R"))
        if cont:
            n = O.obj((id(e), self.ctx, "ext"), "list")
            O.add(O.heap[(n, "[]")], set(cont))
            return frozenset({n, EXT})
        return frozenset({EXT})
