"""Disjunctive abstract interpreter over the package's syntax trees.

Abstract state = a set of partitions; each partition has
  * a heap of abstract objects (fields of symbolic objects are materialised on demand
    from a client schema -- lazy initialisation of shape analysis),
  * sign facts over rational normal forms (fv.poly.Facts),
  * a client ghost component (typestate).
Statements map a partition to a set of partitions.  Loops over unbounded data are analysed
through one generic iteration from a state in which everything the body may write has been
forgotten (iterated to a fixpoint of the write set and of the ghost states).
No code of the repository is executed and no solver is involved: branch conditions
are decided by the sign domain or split.
"""
import ast
import string
import builtins
import enum
import itertools
from decimal import Decimal
from fractions import Fraction

from . import poly
from .poly import R, Facts, ANY
from .model import (ClassInfo, FuncInfo, ModuleInfo, Program, Unsupported, rel)

COUNTER = itertools.count(1)


def fresh(prefix="v"):
    return f"{prefix}{next(COUNTER)}"


# ------------------------------------------------------------------ values
class V:
    __slots__ = ()


class K(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"K({self.v!r})"

    def __eq__(self, o):
        return isinstance(o, K) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return hash((type(self.v), self.v))


NONE, TRUE, FALSE = K(None), K(True), K(False)


BEYOND = 16         # counts in the scenes stay below this


def beyond(a, b):
    def size(v):
        return isinstance(v, K) and type(v.v) is int
    return size(a) and size(b) and min(abs(a.v), abs(b.v)) <= BEYOND < max(abs(a.v), abs(b.v))


class EnumVal:
    __slots__ = ("cls", "name")

    def __init__(self, cls, name):
        self.cls, self.name = cls, name

    def __eq__(self, o):
        return isinstance(o, EnumVal) and (self.cls, self.name) == (o.cls, o.name)

    def __hash__(self):
        return hash((self.cls, self.name))

    def __repr__(self):
        return f"{self.cls}.{self.name}"


CONTEXT = frozenset({"context"})


class Num(V):
    """numeric abstract value: normal form + representation kind + taint"""
    __slots__ = ("r", "kind", "taint")

    def __init__(self, r, kind="num", taint=frozenset()):
        self.r, self.kind, self.taint = r, kind, taint

    @property
    def inexact(self):
        """taint, but for the rounding of decimal arithmetic to the context's precision"""
        return self.taint - CONTEXT

    def __repr__(self):
        return f"Num({self.r!r}:{self.kind}{'!' if self.inexact else ''})"

    def __eq__(self, o):
        return isinstance(o, Num) and self.r == o.r and self.kind == o.kind

    def __hash__(self):
        return hash((self.r, self.kind))


class Ref(V):
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return f"@{self.oid}"

    def __eq__(self, o):
        return isinstance(o, Ref) and self.oid == o.oid

    def __hash__(self):
        return hash(self.oid)


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"Tup{self.items!r}"

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return hash(self.items)


class Vec(V):
    """small numpy array"""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"Vec{self.items!r}"

    def __eq__(self, o):
        return isinstance(o, Vec) and self.items == o.items

    def __hash__(self):
        return hash(("v", self.items))


class Fn(V):
    __slots__ = ("f", "closure")

    def __init__(self, f, closure=None):
        self.f, self.closure = f, closure

    def __repr__(self):
        return f"Fn({self.f.qual})"

    def __eq__(self, o):
        return isinstance(o, Fn) and self.f.node is o.f.node and self.closure == o.closure

    def __hash__(self):
        return hash((id(self.f.node), self.closure))


class Bound(V):
    __slots__ = ("f", "self_")

    def __init__(self, f, self_):
        self.f, self.self_ = f, self_

    def __repr__(self):
        return f"Bound({self.f},{self.self_})"

    def __eq__(self, o):
        return isinstance(o, Bound) and self.f == o.f and self.self_ == o.self_

    def __hash__(self):
        return hash((self.f, self.self_))


class Meth(V):
    """method of a builtin/abstract container: (receiver, name)"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __repr__(self):
        return f"Meth({self.recv}.{self.name})"


class Cls(V):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return f"Cls({self.c.name})"

    def __eq__(self, o):
        return isinstance(o, Cls) and self.c is o.c

    def __hash__(self):
        return hash(id(self.c))


class Super(V):
    __slots__ = ("c", "self_")

    def __init__(self, c, self_):
        self.c, self.self_ = c, self_


class Mod(V):
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m


class Ext(V):
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"Ext({self.path})"

    def __eq__(self, o):
        return isinstance(o, Ext) and self.path == o.path

    def __hash__(self):
        return hash(self.path)


class Opq(V):
    """unknown value; `key` identifies it so that repeated tests agree"""
    __slots__ = ("key", "typ", "src")

    def __init__(self, key=None, typ=None, src=()):
        self.key, self.typ, self.src = key or fresh("q"), typ, src

    def __repr__(self):
        return f"Opq({self.key}{':' + self.typ if self.typ else ''})"

    def __eq__(self, o):
        return isinstance(o, Opq) and self.key == o.key

    def __hash__(self):
        return hash(self.key)


class Index(V):
    """an index into a sequence of a given shape (argmin/argmax/enumerate/range)"""
    __slots__ = ("shape", "token", "rel")

    def __init__(self, shape, token, rel=None):
        self.shape, self.token, self.rel = shape, token, rel

    def __repr__(self):
        return f"Index({self.shape},{self.token})"

    def __eq__(self, o):
        return isinstance(o, Index) and (self.shape, self.token) == (o.shape, o.token)

    def __hash__(self):
        return hash((self.shape, self.token))


# ------------------------------------------------------------------ heap
class Obj:
    """kind: inst, list, set, dict, frame, class, pq, ext"""
    __slots__ = ("kind", "cls", "fields", "lazy", "meta")

    def __init__(self, kind, cls=None, fields=None, lazy=None, meta=None):
        self.kind, self.cls, self.fields, self.lazy = kind, cls, fields if fields is not None else {}, lazy
        self.meta = meta or {}

    def with_field(self, k, v):
        f = dict(self.fields)
        f[k] = v
        return Obj(self.kind, self.cls, f, self.lazy, self.meta)

    def without(self, ks):
        f = {k: v for k, v in self.fields.items() if k not in ks}
        return Obj(self.kind, self.cls, f, self.lazy, self.meta)

    def __repr__(self):
        c = self.cls.name if isinstance(self.cls, ClassInfo) else self.cls
        return f"<{self.kind} {c or ''} {self.fields}>"


class Seg:
    """symbolic segment of a sequence"""
    __slots__ = ("sid", "maker", "shape", "lo")

    def __init__(self, maker, shape=None, sid=None, lo=0):
        self.sid = sid or fresh("s")
        self.maker = maker                  # maker(interp, st, token) -> [(st, value)]
        self.shape = shape or self.sid      # sequences with equal shape are index-aligned
        self.lo = lo                        # minimal length

    def __repr__(self):
        return f"Seg({self.sid})"


class State:
    __slots__ = ("heap", "facts", "ghost", "elem", "truth", "path")

    def __init__(self):
        self.heap, self.facts, self.ghost, self.elem, self.truth, self.path = {}, Facts(), {}, {}, {}, ()

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.facts = self.facts.copy()
        s.ghost = dict(self.ghost)
        s.elem = dict(self.elem)
        s.truth = dict(self.truth)
        s.path = self.path
        return s

    def become(self, o):
        """take over everything of another state that follows from this one"""
        if o is not self:
            for k in State.__slots__:
                setattr(self, k, getattr(o, k))

    # helpers
    def new(self, obj, prefix="o"):
        oid = fresh(prefix)
        self.heap[oid] = obj
        return Ref(oid)

    def obj(self, ref):
        return self.heap[ref.oid]

    def get(self, ref, field):
        return self.heap[ref.oid].fields.get(field)

    def set(self, ref, field, v):
        self.heap[ref.oid] = self.heap[ref.oid].with_field(field, v)

    def mklist(self, items=(), kind="list"):
        return self.new(Obj(kind, fields={"segs": tuple(items)}), "l")

    def note(self, what):
        self.path = self.path + (what,)


class Exc(V):
    __slots__ = ("name", "val", "node", "where")

    def __init__(self, name, val=None, node=None, where=""):
        self.name, self.val, self.node, self.where = name, val, node, where

    def __repr__(self):
        return f"Exc({self.name} {self.where})"


class Client:
    """hooks; checks subclass this"""
    max_states = 6000

    def intercept(self, I, st, fn, args, kwargs, node):
        return None

    def lazy_field(self, I, st, ref, field, node):
        return None

    def on_store(self, I, st, ref, field, old, new, node):
        pass

    def on_list(self, I, st, ref, op, args, node):
        pass

    def on_num_truth(self, I, st, num, node):
        pass

    def on_truth(self, I, st, v, node):
        pass

    def on_compare(self, I, st, op, a, b, node):
        pass

    def on_ext(self, I, st, path, args, kwargs, node):
        return None

    def on_opaque_call(self, I, st, v, args, kwargs, node):
        return None

    def on_raise(self, I, st, exc):
        pass

    def on_iter_mutation(self, I, st, ref, node):
        pass

    def on_misindex(self, I, st, seq, index, node):
        pass

    def on_num(self, I, st, what, v, node):
        return v

    def on_array_part(self, I, st, arr, index, node):
        """part of an array that is represented by its generic element"""
        return arr

    strings = False          # follow the contents of texts
    fork_minmax = False      # min/max of numbers split into cases instead of becoming an atom

    def on_loop_end(self, I, st, written):
        pass

    def ghost_keep(self):
        """ghost keys that are part of the loop-head fixpoint"""
        return ()

    def havoc_field(self, I, st, oid, field):
        """value for a field forgotten at a loop head; None = let it materialise lazily"""
        return None

    def loop_relations(self, I, st, name, v):
        return None


BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.Mod: "%",
       ast.FloorDiv: "//", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@",
       ast.LShift: "<<", ast.RShift: ">>"}
DUNDER = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "**": "__pow__", "%": "__mod__"}
CMPD = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__", ast.Eq: "__eq__", ast.NotEq: "__ne__"}
REFL = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__", "__eq__": "__eq__",
        "__ne__": "__ne__"}
SIGN = {ast.Lt: frozenset((-1,)), ast.LtE: frozenset((-1, 0)), ast.Gt: frozenset((1,)), ast.GtE: frozenset((0, 1)),
        ast.Eq: frozenset((0,)), ast.NotEq: frozenset((-1, 1))}


def is_numlike(v):
    return isinstance(v, Num) or (isinstance(v, K) and isinstance(v.v, (int, float, Decimal, Fraction))
                                  and not isinstance(v.v, bool))


def tonum(v):
    if isinstance(v, Num):
        return v
    if isinstance(v, K):
        x = v.v
        if isinstance(x, bool):
            return Num(R.const(int(x)), "int")
        if isinstance(x, int):
            return Num(R.const(x), "int")
        if isinstance(x, Decimal):
            if x.is_infinite():
                return Num(R.atom(poly.INF) if x > 0 else -R.atom(poly.INF), "dec")
            return Num(R.const(Fraction(x)), "dec")
        if isinstance(x, float):
            if x in (float("inf"), float("-inf")):
                return Num(R.atom(poly.INF) if x > 0 else -R.atom(poly.INF), "float")
            return Num(R.const(Fraction(str(x))), "float")
        if isinstance(x, Fraction):
            return Num(R.const(x), "num")
    return None


def ckey(v):
    """stable key of a value for memo tables"""
    if isinstance(v, Num):
        return ("n", v.r.key())
    if isinstance(v, Ref):
        return ("r", v.oid)
    if isinstance(v, Opq):
        return ("q", v.key)
    if isinstance(v, Tup):
        return ("t",) + tuple(ckey(x) for x in v.items)
    if isinstance(v, K):
        return ("k", repr(v.v))
    if isinstance(v, Index):
        return ("i", v.shape, v.token)
    return ("x", repr(v))


def numkind(a, b, op):
    ks = {a, b}
    if "np" in ks:
        return "np"
    if "float" in ks:
        return "float"
    if "dec" in ks:
        return "dec"
    if ks == {"int"}:
        return "float" if op == "/" else "int"
    return "num"


class Interp:
    MAX_DEPTH = 45
    UNROLL = 8
    UNROLL_WHILE = 8
    FORK_SETS = False         # a set may be walked in any order
    UNROLL_TRUE = True        # also unroll 'while True'

    def __init__(self, prog, client=None):
        self.p = prog
        self.c = client or Client()
        self.sinks = [[]]          # exception sinks
        self.stack = []            # FuncInfo call stack
        self.steps = 0
        self.covered = set()       # (file, line) of statements analysed
        self.functions = set()
        self.calls = 0
        self.loopstack = []
        self.max_steps = 4_000_000
        self.modset_sinks = []

    # ============================================================ entry points
    def call_function(self, st, fn, args=(), kwargs=None, node=None):
        """fn: value.  returns [(st, value)]; exceptions go to the current sink"""
        return self.call(st, fn, list(args), dict(kwargs or {}), node)

    def run(self, st, fn, args=(), kwargs=None):
        """returns ([(st, value)], [(st, Exc)])"""
        self.sinks.append([])
        try:
            out = self.call(st, fn, list(args), dict(kwargs or {}), None)
        finally:
            exc = self.sinks.pop()
        return out, exc

    def fn(self, qual):
        """'Class.method' or module-level function by name"""
        if "." in qual:
            cn, mn = qual.split(".", 1)
            c = self.p.cls(cn)
            m = c.method(mn) or c.getter(mn)
            if m is None:
                raise Unsupported(f"anchor {qual} not found")
            return Fn(m)
        for m in self.p.modules.values():
            b = m.sym.get(qual)
            if isinstance(b, FuncInfo):
                return Fn(b)
        raise Unsupported(f"anchor {qual} not found")

    def raise_(self, st, name, node, val=None):
        e = Exc(name, val, node, self.where(node))
        self.c.on_raise(self, st, e)
        self.sinks[-1].append((st, e))

    def where(self, node):
        f = self.stack[-1] if self.stack else None
        path = rel(f.module.path) if f else "?"
        return f"{path}:{getattr(node, 'lineno', '?')} in {f.qual if f else '?'}"

    # ============================================================ statements
    def block(self, stmts, st, fr):
        """-> list of (kind, st, val)"""
        cur = [st]
        out = []
        for s in stmts:
            nxt = []
            for x in cur:
                for kind, y, v in self.stmt(s, x, fr):
                    if kind == "next":
                        nxt.append(y)
                    else:
                        out.append((kind, y, v))
            cur = self.merge(nxt)
            if len(cur) > self.c.max_states:
                raise Unsupported(f"too many partitions ({len(cur)}) at {self.where(s)}")
            if not cur:
                break
        out += [("next", x, None) for x in cur]
        return out

    def merge(self, states):
        return states

    def stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step budget exhausted")
        if self.stack:
            self.covered.add((self.stack[-1].module.path, s.lineno))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at {self.where(s)}")
        return m(s, st, fr)

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [("next", st, None)]
        return [("next", x, None) for x, _ in self.ev(s.value, st, fr)]

    def s_Pass(self, s, st, fr):
        return [("next", st, None)]

    s_Global = s_Nonlocal = None

    def s_Global(self, s, st, fr):
        o = st.heap[fr]
        st.heap[fr] = Obj(o.kind, o.cls, o.fields, o.lazy, {**o.meta, "globals": o.meta.get("globals", ()) + tuple(s.names)})
        return [("next", st, None)]

    def s_Nonlocal(self, s, st, fr):
        o = st.heap[fr]
        st.heap[fr] = Obj(o.kind, o.cls, o.fields, o.lazy, {**o.meta, "nonlocals": o.meta.get("nonlocals", ()) + tuple(s.names)})
        return [("next", st, None)]

    def s_Import(self, s, st, fr):
        f = self.stack[-1]
        for name, b in self.p.import_bindings(f.module, s):
            if name == "*":
                continue
            self.setvar(st, fr, name, self.binding(self.p.chase(b), f.module, name))
        return [("next", st, None)]

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st, fr):
        f = FuncInfo(s, self.stack[-1].module, None, self.stack[-1])
        self.setvar(st, fr, s.name, Fn(f, fr))
        return [("next", st, None)]

    def s_Return(self, s, st, fr):
        if s.value is None:
            return [("return", st, NONE)]
        return [("return", x, v) for x, v in self.ev(s.value, st, fr)]

    def s_Break(self, s, st, fr):
        return [("break", st, None)]

    def s_Continue(self, s, st, fr):
        return [("continue", st, None)]

    def s_Assert(self, s, st, fr):
        out = []
        for x, b in self.cond(s.test, st, fr):
            if b:
                out.append(("next", x, None))
            else:
                self.raise_(x, "AssertionError", s)
        return out

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            self.raise_(st, "reraise", s)
            return []
        for x, v in self.ev(s.exc, st, fr):
            name = "Exception"
            if isinstance(v, Cls):
                name = v.c.name
            elif isinstance(v, Ext):
                name = v.path.split(".")[-1]
            elif isinstance(v, Ref) and isinstance(x.obj(v).cls, ClassInfo):
                name = x.obj(v).cls.name
            elif isinstance(v, Opq) and v.typ:
                name = v.typ
            self.raise_(x, name, s, v)
        return []

    def s_Assign(self, s, st, fr):
        out = []
        for x, v in self.ev(s.value, st, fr):
            cur = [x]
            for t in s.targets:
                cur = [z for y in cur for z in self.assign(t, v, y, fr)]
            out += [("next", y, None) for y in cur]
        return out

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [("next", st, None)]
        return [("next", y, None) for x, v in self.ev(s.value, st, fr) for y in self.assign(s.target, v, x, fr)]

    def s_AugAssign(self, s, st, fr):
        load = self.as_load(s.target)
        out = []
        for x, a in self.ev(load, st, fr):
            for y, b in self.ev(s.value, x, fr):
                op = BIN[type(s.op)]
                if isinstance(a, Ref) and y.obj(a).kind == "list" and op == "+":
                    for z, _ in self.list_method(y, a, "extend", [b], {}, s):
                        out.append(("next", z, None))
                    continue
                for z, v in self.binop(y, op, a, b, s):
                    for w in self.assign(s.target, v, z, fr):
                        out.append(("next", w, None))
        return out

    @staticmethod
    def as_load(t):
        import copy
        t = copy.deepcopy(t)
        for n in ast.walk(t):
            if hasattr(n, "ctx"):
                n.ctx = ast.Load()
        return t

    def s_Delete(self, s, st, fr):
        cur = [st]
        for t in s.targets:
            nxt = []
            for x in cur:
                if isinstance(t, ast.Name):
                    x.heap[fr] = x.heap[fr].without([t.id])
                    nxt.append(x)
                elif isinstance(t, ast.Subscript):
                    for y, o in self.ev(t.value, x, fr):
                        for z, i in self.ev(t.slice, y, fr):
                            nxt += self.del_item(z, o, i, s)
                elif isinstance(t, ast.Attribute):
                    for y, o in self.ev(t.value, x, fr):
                        if isinstance(o, Ref):
                            self.c.on_store(self, y, o, t.attr, y.get(o, t.attr), None, s)
                            y.heap[o.oid] = y.obj(o).without([t.attr])
                        nxt.append(y)
                else:
                    raise Unsupported(f"del at {self.where(s)}")
            cur = nxt
        return [("next", x, None) for x in cur]

    def del_item(self, st, o, i, node):
        if isinstance(o, Ref) and st.obj(o).kind == "list":
            segs = st.get(o, "segs")
            if isinstance(i, K) and isinstance(i.v, int) and all(not isinstance(q, Seg) for q in segs):
                if -len(segs) <= i.v < len(segs):
                    l = list(segs)
                    v = l.pop(i.v)
                    self.c.on_list(self, st, o, "remove", [v], node)
                    self.write(st, o, "segs", tuple(l), node)
                    return [st]
            return self.havoc_list(st, o, "delitem", node)
        if isinstance(o, Ref):
            self.write(st, o, ("item", ckey(i)), None, node)
        return [st]

    def s_If(self, s, st, fr):
        out = []
        for x, b in self.cond(s.test, st, fr):
            out += self.block(s.body if b else s.orelse, x, fr)
        return out

    def s_With(self, s, st, fr):
        cur = [st]
        for it in s.items:
            nxt = []
            for x in cur:
                for y, v in self.ev(it.context_expr, x, fr):
                    if it.optional_vars is not None:
                        nxt += self.assign(it.optional_vars, v, y, fr)
                    else:
                        nxt.append(y)
            cur = nxt
        return [o for x in cur for o in self.block(s.body, x, fr)]

    def s_Try(self, s, st, fr):
        self.sinks.append([])
        pre = st.copy()
        body = self.block(s.body, st, fr)
        raised = self.sinks.pop()
        out = []
        for kind, x, v in body:
            if kind == "next" and s.orelse:
                out += self.block(s.orelse, x, fr)
            else:
                out.append((kind, x, v))
        # a handler may also be entered by an operation the domain does not model as raising
        entered = list(raised)
        if s.handlers and not raised:
            entered.append((pre, Exc("?", None, s, self.where(s))))
        for x, e in entered:
            done = False
            for h in s.handlers:
                if e.name == "?" and h.type is not None and ast.unparse(h.type).split(".")[-1] in ("Empty", "Full", "StopIteration"):
                    continue         # only modelled operations raise these
                if self.handler_matches(h, e, fr):
                    if h.name:
                        self.setvar(x, fr, h.name, Opq(typ="exc"))
                    out += self.block(h.body, x, fr)
                    done = True
                    break
            if not done and e.name != "?":
                self.sinks[-1].append((x, e))
        if s.finalbody:
            fin = []
            for kind, x, v in out:
                for k2, y, w in self.block(s.finalbody, x, fr):
                    fin.append((kind, y, v) if k2 == "next" else (k2, y, w))
            out = fin
        return out

    def handler_matches(self, h, e, fr):
        if h.type is None or e.name == "?":
            return True
        names = []
        for n in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
            names.append(ast.unparse(n).split(".")[-1])
        if e.name in names or "Exception" in names or "BaseException" in names:
            return True
        ex = getattr(builtins, e.name, None)
        for n in names:
            t = getattr(builtins, n, None)
            if isinstance(ex, type) and isinstance(t, type) and issubclass(ex, t):
                return True
        return False

    # ------------------------------------------------------------ loops
    def s_For(self, s, st, fr):
        out = []
        for x, it in self.ev(s.iter, st, fr):
            out += self.for_loop(s, x, it, fr)
        return out

    def for_loop(self, s, st, it, fr):
        seqs = self.iter_segs(st, it, s)
        out = []
        for st1, segs, src in seqs:
            if all(not isinstance(g, Seg) for g in segs) and len(segs) <= self.UNROLL:
                cur, done, i = [st1], [], 0
                live = src is not None and st1.obj(src).kind in ("list", "set")
                while cur:
                    nxt = []
                    for x in cur:
                        now = x.obj(src).fields.get("segs") if live and src.oid in x.heap else segs
                        if now != segs:
                            self.c.on_iter_mutation(self, x, src, s)
                            if x.obj(src).kind == "set" and len(now) != len(segs):
                                self.raise_(x, "RuntimeError", s)
                                continue
                        if i >= len(now):
                            done.append(x)
                            continue
                        if i > 3 * self.UNROLL or isinstance(now[i], Seg):
                            raise Unsupported(f"iteration over a list that changes at {self.where(s)}")
                        for y in self.assign(s.target, now[i], x, fr):
                            for kind, z, w in self.block(s.body, y, fr):
                                if kind in ("next", "continue"):
                                    nxt.append(z)
                                elif kind == "break":
                                    out.append(("next", z, None))
                                else:
                                    out.append((kind, z, w))
                    cur, i = nxt, i + 1
                cur = done
                for x in cur:
                    out += self.block(s.orelse, x, fr)
            else:
                out += self.generic_for(s, st1, segs, src, fr)
        return out

    def generic_for(self, s, st, segs, src, fr):
        def enter(x):
            """bind the loop variable to a generic element: [(state)]"""
            res = []
            for g in self.distinct_segs(segs):
                y = x.copy()
                if isinstance(g, Seg):
                    tok = fresh("t")
                    for z, v in self.seg_elem(y, g, tok):
                        res += self.assign(s.target, v, z, fr)
                else:
                    res += self.assign(s.target, g, y, fr)
            return res
        minlen = sum((g.lo if isinstance(g, Seg) else 1) for g in segs)
        return self.generic_loop(s, st, fr, enter, lambda x: [x], src, segs, minlen)

    @staticmethod
    def distinct_segs(segs):
        seen, out = set(), []
        for g in segs:
            k = g.sid if isinstance(g, Seg) else ckey(g)
            if k not in seen:
                seen.add(k)
                out.append(g)
        return out

    def s_While(self, s, st, fr):
        # exact unrolling while the condition is decided
        cur, out = [st], []
        for rnd in range(self.UNROLL_WHILE + 1):
            nxt = []
            for x in cur:
                probe = self.cond(s.test, x.copy(), fr)
                vals = {b for _, b in probe}
                if len(probe) == 1 and len(vals) == 1:
                    x.become(probe[0][0])
                    probe = [(x, probe[0][1])]
                if vals == {False} and len(probe) >= 1:
                    for y, _ in probe:
                        out += self.block(s.orelse, y, fr)
                elif vals == {True} and rnd < self.UNROLL_WHILE and (self.UNROLL_TRUE or not self.is_const_true(s.test)):
                    for y, _ in probe:
                        for kind, z, w in self.block(s.body, y, fr):
                            if kind in ("next", "continue"):
                                nxt.append(z)
                            elif kind == "break":
                                out.append(("next", z, None))
                            else:
                                out.append((kind, z, w))
                elif not vals:
                    pass
                else:
                    out += self.generic_while(s, x, fr)
            cur = nxt
            if not cur:
                break
        return out

    @staticmethod
    def is_const_true(t):
        return isinstance(t, ast.Constant) and bool(t.value)

    def generic_while(self, s, st, fr):
        def enter(x):
            return [y for y, b in self.cond(s.test, x.copy(), fr) if b]

        def leave(x):
            return [y for y, b in self.cond(s.test, x.copy(), fr) if not b]
        return self.generic_loop(s, st, fr, enter, leave, None, None, 0)

    def generic_loop(self, s, st, fr, enter, leave, src, segs, minlen):
        """fixpoint over (write set, ghost states) with one generic iteration"""
        keep = self.c.ghost_keep()

        def gkey(x):
            return tuple((k, x.ghost.get(k)) for k in keep)
        written = set()          # (oid, field) pre-existing locations the body may write
        pre_oids = set(st.heap)
        rounds = 0
        head_relations = None
        while True:
            rounds += 1
            if rounds > 12:
                raise Unsupported(f"loop at {self.where(s)} does not stabilise")
            base = st.copy()
            joins = self.head_values(base, written, s)
            heads = {gkey(st): self.havoc(base, written, fr, s, head_relations, joins)}
            todo = list(heads)
            exits, others = [], []
            new_written = set(written)
            rel_obs = []
            grown = False
            while todo and not grown:
                k = todo.pop()
                h = heads[k]
                exits += [(y, k) for y in leave(h.copy())]
                self.sinks.append([])
                for e in enter(h.copy()):
                    res = self.block(s.body, e, fr)
                    for kind, z, w in res:
                        ws = self.diff(h, z, pre_oids)
                        new_written |= ws
                        if src is not None and (src.oid, "segs") in ws:
                            self.c.on_iter_mutation(self, z, src, s)
                        if kind in ("next", "continue"):
                            rel_obs.append(z)
                            self.c.on_loop_end(self, z, written)
                            kk = gkey(z)
                            if kk not in heads and new_written == written:
                                b2 = st.copy()
                                j2 = self.head_values(b2, written, s)
                                for gk, gv in kk:
                                    b2.ghost[gk] = gv
                                heads[kk] = self.havoc(b2, written, fr, s, head_relations, j2)
                                todo.append(kk)
                        elif kind == "break":
                            others.append(("next", z, None))
                        else:
                            others.append((kind, z, w))
                raised = self.sinks.pop()
                for z, e in raised:
                    new_written |= self.diff(h, z, pre_oids)
                if new_written != written:
                    grown = True
                else:
                    self.sinks[-1].extend(raised)
            if not grown:
                # do the candidate relations of the loop head survive an iteration?
                nr = self.check_relations(st, heads, rel_obs, written, fr, head_relations)
                if nr == head_relations:
                    break
                head_relations = nr
                continue
            written = new_written
        out = list(others)
        first = True
        for x, k in exits:
            if minlen > 0 and k == gkey(st) and keep and not rel_obs:
                continue
            out += self.block(s.orelse, x, fr)
        return out

    def head_values(self, st, written, s):
        return None

    def check_relations(self, st, heads, ends, written, fr, rels):
        return rels

    def diff(self, a, b, oids):
        """locations of pre-existing objects whose value differs"""
        out = set()
        for o in oids:
            x, y = a.heap.get(o), b.heap.get(o)
            if x is y or x is None or y is None:
                continue
            for f in set(x.fields) | set(y.fields):
                if f in x.fields and f in y.fields:
                    if x.fields[f] != y.fields[f]:
                        out.add((o, f))
                elif f in y.fields and (o, f) in b.ghost.get("#written", ()):
                    out.add((o, f))
                elif f in x.fields:
                    out.add((o, f))
                elif x.kind == "frame":
                    out.add((o, f))
        return out

    def havoc(self, st, written, fr, s, rels, joins=None):
        for o, f in sorted(written, key=repr):
            ob = st.heap.get(o)
            if ob is None:
                continue
            v = self.c.havoc_field(self, st, o, f)
            if v is not None:
                st.heap[o] = ob.with_field(f, v)
                continue
            old = ob.fields.get(f)
            if f == "segs":
                st.heap[o] = ob.with_field(f, self.havoc_segs(st, old))
            elif ob.kind in ("frame", "class") or not ob.lazy:
                st.heap[o] = ob.with_field(f, self.generalise(st, old, (o, f)))
            else:
                st.heap[o] = ob.without([f])
        return st

    def havoc_segs(self, st, old):
        return (Seg(lambda I, x, t: [(x, Opq())]),)

    def generalise(self, st, v, loc):
        """an unknown value of the same type"""
        if v is None:
            return UNBOUND
        if isinstance(v, Num) or (isinstance(v, K) and is_numlike(v)):
            n = tonum(v)
            return Num(R.atom(fresh("h")), n.kind, n.taint)
        if isinstance(v, K) and isinstance(v.v, bool):
            return Opq(typ="bool")
        if isinstance(v, Ref) and st.heap[v.oid].kind in ("list", "set"):
            return st.mklist(self.havoc_segs(st, None), st.heap[v.oid].kind)
        return Opq(typ="havoc")

    # ------------------------------------------------------------ sequences
    def iter_segs(self, st, it, node):
        """-> [(st, segs, source ref or None)]"""
        if isinstance(it, Tup):
            return [(st, it.items, None)]
        if isinstance(it, Vec):
            return [(st, it.items, None)]
        if isinstance(it, Ref):
            o = st.obj(it)
            if o.kind in ("list", "set"):
                segs = o.fields["segs"]
                if o.kind == "set" and self.FORK_SETS and len(segs) > 1:
                    return [(st.copy(), tuple(reversed(segs)), None), (st, segs, it)]
                return [(st, segs, it)]
            if o.kind == "dict":
                items = o.fields.get("items", ())
                return [(st, tuple(k for k, _ in items), None)]
            if isinstance(o.cls, ClassInfo) and o.cls.method("__iter__"):
                out = []
                for x, v in self.call(st, Bound(Fn(o.cls.method("__iter__")), it), [], {}, node):
                    out += self.iter_segs(x, v, node)
                return out
        if isinstance(it, K) and isinstance(it.v, (tuple, list, range)):
            return [(st, tuple(K(x) for x in it.v), None)]
        if isinstance(it, K) and isinstance(it.v, str):
            return [(st, tuple(K(x) for x in it.v), None)]
        if isinstance(it, K) and it.v is None:
            self.raise_(st, "TypeError", node)
            return []
        if isinstance(it, Opq):
            return [(st, (Seg(lambda I, x, t, k=it.key: [(x, Opq(f"{k}[{t}]", src=(it,)))], shape=it.key),), None)]
        if isinstance(it, Cls) and it.c.is_enum:
            return [(st, tuple(K(EnumVal(it.c.name, a)) for a in it.c.attrs), None)]
        raise Unsupported(f"iteration over {it} at {self.where(node)}")

    def seg_elem(self, st, seg, token):
        key = (seg.sid, token)
        if key in st.elem:
            return [(st, st.elem[key])]
        out = []
        for x, v in seg.maker(self, st, token):
            x.elem[key] = v
            out.append((x, v))
        return out

    # ============================================================ assignment
    def setvar(self, st, fr, name, v):
        o = st.heap[fr]
        if name in o.meta.get("nonlocals", ()):
            f2 = o.meta.get("closure")
            while f2 is not None:
                if name in st.heap[f2].fields:
                    st.heap[f2] = st.heap[f2].with_field(name, v)
                    return
                f2 = st.heap[f2].meta.get("closure")
        if name in o.meta.get("globals", ()):
            g = self.module_obj(st, o.meta["module"])
            self.write(st, g, name, v, None)
            return
        st.heap[fr] = o.with_field(name, v)

    def assign(self, t, v, st, fr):
        """-> [st]"""
        if isinstance(t, ast.Name):
            self.setvar(st, fr, t.id, v)
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for x, o in self.ev(t.value, st, fr):
                out += self.setattr(x, o, t.attr, v, t)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st, fr)
        if isinstance(t, ast.Subscript):
            out = []
            for x, o in self.ev(t.value, st, fr):
                for y, i in self.ev(t.slice, x, fr):
                    out += self.setitem(y, o, i, v, t)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        raise Unsupported(f"assignment target {type(t).__name__}")

    def unpack(self, t, v, st, fr):
        n = len(t.elts)
        if isinstance(v, Opq):
            cur = [st]
            for i, e in enumerate(t.elts):
                cur = [y for x in cur for y in self.assign(e, Opq(f"{v.key}.{i}", src=(v,)), x, fr)]
            return cur
        if isinstance(v, K) and (v.v is None or v.v is False or isinstance(v.v, (int, float))):
            self.raise_(st, "TypeError", t)
            return []
        out = []
        for x, segs, _ in self.iter_segs(st, v, t):
            if any(isinstance(g, Seg) for g in segs):
                # elements of a symbolic sequence
                cur = [x]
                for i, e in enumerate(t.elts):
                    nxt = []
                    for y in cur:
                        for z, w in self.getitem_seq(y, segs, K(i), t):
                            nxt += self.assign(e, w, z, fr)
                    cur = nxt
                out += cur
                continue
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = list(segs)
            if star:
                i = star[0]
                k = len(vals) - (n - 1)
                if k < 0:
                    self.raise_(x, "ValueError", t)
                    continue
                vals = vals[:i] + [x.mklist(vals[i:i + k])] + vals[i + k:]
            if len(vals) != n:
                self.raise_(x, "ValueError", t)
                continue
            cur = [x]
            for e, w in zip(t.elts, vals):
                cur = [z for y in cur for z in self.assign(e, w, y, fr)]
            out += cur
        return out

    def write(self, st, ref, field, v, node):
        """raw heap store with hook"""
        o = st.obj(ref)
        old = o.fields.get(field)
        self.c.on_store(self, st, ref, field, old, v, node)
        st.heap[ref.oid] = st.obj(ref).with_field(field, v)
        w = st.ghost.get("#written", frozenset())
        st.ghost["#written"] = w | {(ref.oid, field)}

    def setattr(self, st, o, name, v, node):
        if isinstance(o, Ref):
            ob = st.obj(o)
            if isinstance(ob.cls, ClassInfo):
                setter = ob.cls.setter(name)
                if setter is not None:
                    return [x for x, _ in self.call(st, Bound(Fn(setter), o), [v], {}, node)]
                if ob.cls.getter(name) is not None:
                    self.raise_(st, "AttributeError", node)
                    return []
            self.write(st, o, name, v, node)
            return [st]
        if isinstance(o, Cls):
            self.write(st, self.class_obj(st, o.c), name, v, node)
            return [st]
        if isinstance(o, Mod):
            self.write(st, self.module_obj(st, o.m), name, v, node)
            return [st]
        if isinstance(o, K) and o.v is None:
            self.raise_(st, "AttributeError", node)
            return []
        if isinstance(o, (Opq, Ext)):
            self.c.on_store(self, st, o, name, None, v, node)
            return [st]
        if isinstance(o, (K, Num, Tup)):
            self.raise_(st, "AttributeError", node)
            return []
        raise Unsupported(f"attribute store on {o} at {self.where(node)}")

    def setitem(self, st, o, i, v, node):
        if isinstance(o, Ref):
            ob = st.obj(o)
            if ob.kind == "list":
                segs = ob.fields["segs"]
                if isinstance(i, K) and isinstance(i.v, int) and all(not isinstance(q, Seg) for q in segs) \
                        and -len(segs) <= i.v < len(segs):
                    l = list(segs)
                    old = l[i.v]
                    l[i.v] = v
                    self.c.on_list(self, st, o, "setitem", [i, v, old], node)
                    self.write(st, o, "segs", tuple(l), node)
                    return [st]
                if isinstance(i, K) and isinstance(i.v, slice) or isinstance(i, Tup):
                    # slice store [:]
                    for x, s2, _ in self.iter_segs(st, v, node):
                        self.c.on_list(self, x, o, "assign", list(s2), node)
                        self.write(x, o, "segs", tuple(s2), node)
                        return [x]
                return self.havoc_list(st, o, "setitem", node, extra=v)
            if ob.kind == "dict":
                items = [(k, w) for k, w in ob.fields.get("items", ()) if ckey(k) != ckey(i)] + [(i, v)]
                self.write(st, o, "items", tuple(items), node)
                return [st]
            if isinstance(ob.cls, ClassInfo) and ob.cls.method("__setitem__"):
                return [x for x, _ in self.call(st, Bound(Fn(ob.cls.method("__setitem__")), o), [i, v], {}, node)]
        if isinstance(o, Opq):
            self.c.on_store(self, st, o, "[]", None, v, node)
            return [st]
        raise Unsupported(f"item store on {o} at {self.where(node)}")

    def havoc_list(self, st, o, op, node, extra=None):
        segs = st.obj(o).fields["segs"]
        self.c.on_list(self, st, o, op, [extra] if extra is not None else [], node)
        allowed = self.distinct_segs(list(segs) + ([extra] if extra is not None else []))
        self.write(st, o, "segs", (Seg(pick_maker(allowed)),), node)
        return [st]

    # ============================================================ expressions
    def ev(self, n, st, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__} at {self.where(n)}")
        return m(n, st, fr)

    def evs(self, nodes, st, fr):
        """evaluate in order -> [(st, [values])]; Starred are expanded"""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for x, vs in cur:
                if isinstance(n, ast.Starred):
                    for y, v in self.ev(n.value, x, fr):
                        for z, segs, _ in self.iter_segs(y, v, n):
                            nxt.append((z, vs + list(segs)))
                else:
                    for y, v in self.ev(n, x, fr):
                        nxt.append((y, vs + [v]))
            cur = nxt
        return cur

    def e_Constant(self, n, st, fr):
        return [(st, K(n.value))]

    def e_Name(self, n, st, fr):
        v = self.lookup_var(st, fr, n.id)
        if v is UNBOUND:
            return [(st, Opq(typ="havoc"))]
        if v is None:
            self.raise_(st, "NameError", n)
            return []
        return self.force(st, v, n)

    def force(self, st, v, node):
        return [(st, v)]

    def lookup_var(self, st, fr, name):
        f = fr
        while f is not None:
            o = st.heap[f]
            if name in o.fields and name not in o.meta.get("globals", ()):
                return o.fields[name]
            f = o.meta.get("closure")
        m = st.heap[fr].meta["module"]
        g = self.module_obj(st, m)
        v = st.get(g, name)
        if v is not None:
            return v
        b = self.p.lookup(m, name)
        if b is None:
            return None
        v = self.binding(b, m, name, st)
        return v

    def binding(self, b, m, name, st=None):
        if isinstance(b, ClassInfo):
            return Cls(b)
        if isinstance(b, FuncInfo):
            return Fn(b)
        if b is None:
            return Opq(typ="unresolved")
        if b[0] == "mod":
            return Mod(self.p.modules[b[1]])
        if b[0] == "ext":
            p = b[1]
            if p.startswith("builtins."):
                nm = p[9:]
                if nm in ("True", "False", "None"):
                    return K({"True": True, "False": False, "None": None}[nm])
            return Ext(p)
        if b[0] == "const":
            mm = b[2] if len(b) > 2 else m
            if st is None:
                st = State()
            g = self.module_obj(st, mm)
            got = st.get(g, name)
            if got is not None:
                return got
            v = self.eval_static(st, b[1], mm, g)
            st.heap[g.oid] = st.obj(g).with_field(name, v)
            return v
        return Opq(f"glob:{name}")

    def eval_static(self, st, expr, m, g):
        fr = fresh("fr")
        st.heap[fr] = Obj("frame", meta={"module": m})
        f = FuncInfo(ast.Lambda(args=ast.arguments([], [], None, [], [], None, []), body=expr), m)
        f.node.lineno = getattr(expr, "lineno", 0)
        self.stack.append(f)
        try:
            res = self.ev(expr, st, fr)
        finally:
            self.stack.pop()
        if len(res) != 1:
            return Opq()
        return res[0][1]

    def module_obj(self, st, m):
        oid = "mod:" + m.name
        if oid not in st.heap:
            st.heap[oid] = Obj("class", cls=m.name)
        return Ref(oid)

    def class_obj(self, st, c):
        oid = "cls:" + c.name
        if oid not in st.heap:
            st.heap[oid] = Obj("class", cls=c.name)
        return Ref(oid)

    def e_Attribute(self, n, st, fr):
        out = []
        for x, o in self.ev(n.value, st, fr):
            out += self.getattr(x, o, n.attr, n)
        return out

    def getattr(self, st, o, name, node):
        if isinstance(o, Ref):
            ob = st.obj(o)
            if isinstance(ob.cls, ClassInfo):
                c = ob.cls
                g = c.getter(name)
                if g is not None:
                    return self.call(st, Bound(Fn(g), o), [], {}, node)
                if name in ob.fields:
                    return self.force(st, ob.fields[name], node)
                m = c.method(name)
                if m is not None:
                    if m.static:
                        return [(st, Fn(m))]
                    if m.classm:
                        return [(st, Bound(Fn(m), Cls(c)))]
                    return [(st, Bound(Fn(m), o))]
                if ob.lazy:
                    r = self.c.lazy_field(self, st, o, name, node)
                    if r is not None:
                        return r
                a = c.attr(name)
                if a is not None:
                    return [(st, self.class_attr(st, a[0], name))]
                if name == "__class__":
                    return [(st, Cls(c))]
                if name == "__dict__":
                    return [(st, Opq(f"{o.oid}.__dict__"))]
                if c.ext_bases():
                    return [(st, Opq(f"{o.oid}.{name}"))]
                if ob.lazy:
                    raise Unsupported(f"no schema for {c.name}.{name} at {self.where(node)}")
                self.raise_(st, "AttributeError", node, K(f"{c.name}.{name}"))
                return []
            if ob.kind in ("list", "set", "dict", "pq"):
                return [(st, Meth(o, name))]
            if name in ob.fields:
                return [(st, ob.fields[name])]
            return [(st, Meth(o, name))]
        if isinstance(o, Super):
            mro = o.c_mro if hasattr(o, "c_mro") else None
            rc = st.obj(o.self_).cls if isinstance(o.self_, Ref) else o.self_.c
            mro = rc.mro
            rest = mro[mro.index(o.c) + 1:] if o.c in mro else o.c.mro[1:]
            for k in rest:
                if name in k.methods:
                    return [(st, Bound(Fn(k.methods[name]), o.self_))]
                if name in k.getters:
                    return self.call(st, Bound(Fn(k.getters[name]), o.self_), [], {}, node)
            return [(st, Ext("builtins.object." + name))]
        if isinstance(o, Cls):
            c = o.c
            co = self.class_obj(st, c)
            if name in st.obj(co).fields:
                return [(st, st.obj(co).fields[name])]
            if c.is_enum and name in c.attrs:
                return [(st, K(EnumVal(c.name, name)))]
            m = c.find("methods", name)
            if m is not None:
                if m.classm:
                    return [(st, Bound(Fn(m), o))]
                return [(st, Fn(m))]
            a = c.attr(name)
            if a is not None:
                return [(st, self.class_attr(st, a[0], name))]
            g = c.getter(name)
            if g is not None:
                return [(st, Fn(g))]
            if name in ("__name__", "__qualname__"):
                return [(st, K(c.name))]
            self.raise_(st, "AttributeError", node, K(f"{c.name}.{name}"))
            return []
        if isinstance(o, Mod):
            v = st.get(self.module_obj(st, o.m), name)
            if v is not None:
                return [(st, v)]
            b = self.p.lookup(o.m, name)
            if b is None and f"{o.m.name}.{name}" in self.p.modules:
                return [(st, Mod(self.p.modules[f"{o.m.name}.{name}"]))]
            if b is None:
                self.raise_(st, "AttributeError", node)
                return []
            return [(st, self.binding(b, o.m, name, st))]
        if isinstance(o, Ext):
            if o.path in ("math.inf", "numpy.inf"):
                return [(st, K(float("inf")))]
            p = f"{o.path}.{name}"
            return [(st, ext_const(p))]
        if isinstance(o, K) and isinstance(o.v, EnumVal):
            if name == "name":
                return [(st, K(o.v.name))]
            if name == "value":
                return [(st, Opq(f"{o.v}.value"))]
        if isinstance(o, K) and o.v is None:
            self.raise_(st, "AttributeError", node, K(f"None.{name}"))
            return []
        if isinstance(o, (Num,)) and name in ("real",):
            return [(st, o)]
        if isinstance(o, (Num, K, Tup, Vec, Index)):
            return [(st, Meth(o, name))]
        if isinstance(o, Opq):
            if o.typ in ("strof", "context"):
                return [(st, Meth(o, name))]
            return [(st, Opq(f"{o.key}.{name}", src=(o,)))]
        if isinstance(o, (Fn, Bound)):
            return [(st, Opq(f"fn.{name}"))]
        if isinstance(o, Meth):
            return [(st, Opq(f"{o}.{name}"))]
        raise Unsupported(f"attribute {name} of {o} at {self.where(node)}")

    def class_attr(self, st, c, name):
        co = self.class_obj(st, c)
        v = st.get(co, name)
        if v is None:
            v = self.eval_static(st, c.attrs[name], c.module, co)
            st.heap[co.oid] = st.obj(co).with_field(name, v)
        return v

    def e_Subscript(self, n, st, fr):
        out = []
        for x, o in self.ev(n.value, st, fr):
            if isinstance(n.slice, ast.Slice):
                for y, parts in self.slice_parts(n.slice, x, fr):
                    out += self.getslice(y, o, parts, n)
            else:
                for y, i in self.ev(n.slice, x, fr):
                    out += self.getitem(y, o, i, n)
        return out

    def e_Slice(self, n, st, fr):
        return [(x, Tup(ps)) for x, ps in self.slice_parts(n, st, fr)]

    def slice_parts(self, s, st, fr):
        cur = [(st, [])]
        for p in (s.lower, s.upper, s.step):
            if p is None:
                cur = [(x, vs + [NONE]) for x, vs in cur]
            else:
                cur = [(y, vs + [v]) for x, vs in cur for y, v in self.ev(p, x, fr)]
        return cur

    def getslice(self, st, o, parts, node):
        if isinstance(o, Opq):
            return [(st, Opq(f"{o.key}[{':'.join(map(repr, parts))}]", src=(o,)))]
        out = []
        for x, segs, _ in self.iter_segs(st, o, node):
            kind = x.obj(o).kind if isinstance(o, Ref) else None
            lo, hi, step = parts
            consts = all(isinstance(p, K) and (p.v is None or isinstance(p.v, int)) for p in parts)
            if consts and all(not isinstance(g, Seg) for g in segs):
                res = segs[slice(lo.v, hi.v, step.v)]
            elif consts and step.v in (None, 1):
                res = sym_slice(segs, lo.v, hi.v)
            else:
                res = None
            if res is None:
                res = (Seg(pick_maker(self.distinct_segs(segs))),)
            cuts = [res]
            if consts and segs and not isinstance(o, Tup):
                # a bound beyond the small scene: a longer list would be cut
                if hi.v is not None and hi.v > BEYOND and len(res):
                    cuts.append(res[:-1])
                elif lo.v is not None and lo.v > BEYOND and not len(res):
                    cuts.append(segs[-1:])
            for i, res in enumerate(cuts):
                y = x.copy() if i < len(cuts) - 1 else x
                out.append((y, Tup(res) if isinstance(o, Tup) else (Vec(res) if isinstance(o, Vec) else y.mklist(res))))
        return out

    def getitem(self, st, o, i, node):
        if isinstance(o, Num) and o.kind == "np":
            return [(st, self.c.on_array_part(self, st, o, i, node))]
        if isinstance(o, Opq):
            return [(st, Opq(f"{o.key}[{ckey(i)}]", src=(o, i)))]
        if isinstance(o, Ref):
            ob = st.obj(o)
            if ob.kind == "dict":
                for k, v in ob.fields.get("items", ()):
                    if ckey(k) == ckey(i):
                        return [(st, v)]
                if ob.fields.get("open"):
                    return [(st, Opq(f"{o.oid}[{ckey(i)}]"))]
                self.raise_(st, "KeyError", node)
                return []
            if isinstance(ob.cls, ClassInfo) and ob.cls.method("__getitem__"):
                return self.call(st, Bound(Fn(ob.cls.method("__getitem__")), o), [i], {}, node)
        if isinstance(o, Tup) and not (isinstance(i, K) and isinstance(i.v, int)):
            if isinstance(i, Tup):
                return self.getslice(st, o, list(i.items), node)
        if isinstance(o, Ref) and isinstance(i, Index):
            shape = self.shape_of(st, o)
            if shape != i.shape:
                self.c.on_misindex(self, st, o, i, node)
        out = []
        for x, segs, _ in self.iter_segs(st, o, node):
            out += self.getitem_seq(x, segs, i, node)
        return out

    def shape_of(self, st, v):
        if isinstance(v, Ref) and st.obj(v).kind == "list":
            segs = st.obj(v).fields["segs"]
            if len(segs) == 1 and isinstance(segs[0], Seg):
                return segs[0].shape
            if not any(isinstance(g, Seg) for g in segs):
                return ("len", len(segs))
            return ("mix",) + tuple(g.shape if isinstance(g, Seg) else 1 for g in segs)
        if isinstance(v, (Tup, Vec)):
            return ("len", len(v.items))
        if isinstance(v, Opq):
            return v.key
        return None

    def getitem_seq(self, st, segs, i, node):
        if isinstance(i, K) and isinstance(i.v, bool):
            i = K(int(i.v))
        if isinstance(i, K) and isinstance(i.v, int):
            k = i.v
            if all(not isinstance(g, Seg) for g in segs):
                if -len(segs) <= k < len(segs):
                    return [(st, segs[k])]
                self.raise_(st, "IndexError", node)
                return []
            if k >= 0 and all(not isinstance(g, Seg) for g in segs[:k + 1]) and len(segs) > k:
                return [(st, segs[k])]
            if k < 0 and len(segs) >= -k and all(not isinstance(g, Seg) for g in segs[k:]):
                return [(st, segs[k])]
            tok = ("idx", k)
            if k == 0 and isinstance(segs[0], Seg) and segs[0].lo > 0:
                return self.seg_elem(st, segs[0], tok)
            if k == -1 and isinstance(segs[-1], Seg) and segs[-1].lo > 0:
                return self.seg_elem(st, segs[-1], tok)
        elif isinstance(i, Index):
            tok = i.token
        else:
            tok = ("idx", ckey(i))
        out = []
        for g in self.distinct_segs(segs):
            y = st.copy()
            if isinstance(g, Seg):
                out += self.seg_elem(y, g, tok)
            else:
                out.append((y, g))
        return out

    # -------------------------------------------------------------- operators
    def e_BinOp(self, n, st, fr):
        out = []
        for x, a in self.ev(n.left, st, fr):
            for y, b in self.ev(n.right, x, fr):
                out += self.binop(y, BIN[type(n.op)], a, b, n)
        return out

    def binop(self, st, op, a, b, node):
        if isinstance(a, Vec) or isinstance(b, Vec):
            return self.vec_op(st, op, a, b, node)
        if op == "*":
            def whole(v):
                return K(int(v.r.const_value())) if isinstance(v, Num) and v.kind == "int" and v.r.is_const() else v
            if isinstance(a, K) and isinstance(a.v, str):
                b = whole(b)
            elif isinstance(b, K) and isinstance(b.v, str):
                a = whole(a)
        if isinstance(a, K) and isinstance(b, K) and not isinstance(a.v, EnumVal) and not isinstance(b.v, EnumVal):
            num = isinstance(a.v, (int, float, Decimal)) and isinstance(b.v, (int, float, Decimal))
            if num and not (isinstance(a.v, (float, Decimal)) or isinstance(b.v, (float, Decimal))) \
                    and op in ("+", "-", "*", "//", "%", "**", "&", "|", "^", "<<", ">>"):
                try:
                    return [(st, K({"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q,
                                    "//": lambda p, q: p // q, "%": lambda p, q: p % q, "**": lambda p, q: p ** q,
                                    "&": lambda p, q: p & q, "|": lambda p, q: p | q, "^": lambda p, q: p ^ q,
                                    "<<": lambda p, q: p << q, ">>": lambda p, q: p >> q}[op](a.v, b.v)))]
                except ZeroDivisionError:
                    self.raise_(st, "ZeroDivisionError", node)
                    return []
            if op == "%" and a.v == "%s" and is_numlike(b) and not self.c.strings:
                return [(st, Opq(("strof", ckey(b)), "strof", (b,)))]
            if isinstance(a.v, str) or isinstance(b.v, str):
                if op == "%" and isinstance(a.v, str):
                    try:
                        return [(st, K(a.v % b.v))]
                    except (TypeError, ValueError):
                        return [(st, Opq(typ="str"))]
                try:
                    return [(st, K(a.v + b.v if op == "+" else a.v * b.v))]
                except TypeError:
                    self.raise_(st, "TypeError", node)
                    return []
            if a.v is None or b.v is None:
                self.raise_(st, "TypeError", node)
                return []
        if isinstance(a, Index) and isinstance(b, (K,)):
            return [(st, Index(a.shape, (a.token, op, b.v), None))]
        if op == "%" and isinstance(a, K) and isinstance(a.v, str):
            args = list(b.items) if isinstance(b, Tup) else [b]
            bits = a.v.replace("%d", "%s").split("%s")
            if self.c.strings and len(bits) == len(args) + 1 and not any("%" in t for t in bits):
                parts = [K(bits[0])]
                for v, t in zip(args, bits[1:]):
                    parts += [(v,), K(t)]
                return self.join(st, [p for p in parts if not isinstance(p, K) or p.v], node)
            if a.v == "%s" and is_numlike(b):
                return [(st, Opq(("strof", ckey(b)), "strof", (b,)))]
            return [(st, Opq(typ="str"))]
        na, nb = tonum(a), tonum(b)
        if na is not None and nb is not None:
            return self.num_op(st, op, na, nb, node)
        if op == "+":
            sa, sb = self.as_segs(st, a), self.as_segs(st, b)
            if sa is not None and sb is not None:
                if isinstance(a, Tup):
                    return [(st, Tup(sa + sb))]
                return [(st, st.mklist(sa + sb))]
        if op == "*" and (self.as_segs(st, a) is not None) and isinstance(b, K) and isinstance(b.v, int):
            return [(st, st.mklist(self.as_segs(st, a) * b.v))]
        for u, w, d in ((a, b, DUNDER.get(op)), ):
            if isinstance(u, Ref) and d and isinstance(st.obj(u).cls, ClassInfo):
                m = st.obj(u).cls.method(d)
                if m is not None:
                    return self.call(st, Bound(Fn(m), u), [w], {}, node)
        if isinstance(b, Ref) and isinstance(st.obj(b).cls, ClassInfo) and DUNDER.get(op):
            m = st.obj(b).cls.method("__r" + DUNDER[op][2:])
            if m is not None:
                return self.call(st, Bound(Fn(m), b), [a], {}, node)
        if isinstance(a, Ref) and isinstance(b, Ref) and st.obj(a).kind == "set":
            sa, sb = self.as_segs(st, a), self.as_segs(st, b)
            if op == "|" and sb is not None:
                return [(st, st.mklist(self.distinct_segs(sa + sb), "set"))]
            return [(st, st.mklist((Seg(pick_maker(self.distinct_segs(sa))),), "set"))]
        if isinstance(a, (Opq, Index)) or isinstance(b, (Opq, Index)):
            typ = None
            if isinstance(a, K) and isinstance(a.v, str) or isinstance(a, Opq) and a.typ == "str":
                typ = "str"
            elif na is not None or nb is not None:
                typ = "num"
            return [(st, Opq(f"({ckey(a)}{op}{ckey(b)})", typ, src=(a, b)))]
        self.raise_(st, "TypeError", node, K(f"{a} {op} {b}"))
        return []

    def as_segs(self, st, v):
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, Ref) and st.obj(v).kind in ("list", "set"):
            return st.obj(v).fields["segs"]
        return None

    def num_op(self, st, op, a, b, node):
        kind = numkind(a.kind, b.kind, op)
        taint = a.taint | b.taint
        if {a.kind, b.kind} == {"dec", "float"} and op in ("+", "-", "*", "/", "**", "%", "//"):
            # Decimal and float do not mix in Python
            self.c.on_num(self, st, "mix", (a, b), node)
        ra, rb = st.facts.norm(a.r), st.facts.norm(b.r)
        if kind in ("float", "np") and not (ra.is_const() and rb.is_const()):
            taint = taint | {"float"}
        if kind == "dec":
            taint = taint | CONTEXT
        if op == "+":
            r = ra + rb
        elif op == "-":
            r = ra - rb
        elif op == "*":
            r = ra * rb
        elif op == "/":
            s = st.facts.sign(rb)
            if s == frozenset((0,)):
                self.c.on_num(self, st, "div0", (a, b), node)
                if kind == "np":
                    return [(st, Num(R.atom(fresh("nan")), kind, taint))]
                self.raise_(st, "ZeroDivisionError", node)
                return []
            if 0 in s:
                self.c.on_num(self, st, "maydiv0", (a, b), node)
                if not st.facts.assume(rb, frozenset((-1, 1))):
                    return []
            r = ra / rb
        elif op == "**" and rb.is_const() and rb.const_value().denominator == 1 and abs(rb.const_value()) <= 8:
            r = ra ** int(rb.const_value())
        elif op == "**" and rb.is_const() and rb.const_value() == Fraction(1, 2):
            r = poly.sqrt(ra)
        else:
            if op == "%" and rb.is_const() and rb.const_value() > 0 and self.mod_difference(ra, rb):
                # difference of two values of [0, m): wraps at most once
                s2 = st.copy()
                out = []
                if st.facts.assume(ra, frozenset((0, 1))):
                    out.append((st, Num(ra, kind, taint)))
                if s2.facts.assume(ra, frozenset((-1,))):
                    out.append((s2, Num(ra + rb, kind, taint)))
                return out
            r = poly.fun({"**": "pow", "%": "mod", "//": "fdiv"}.get(op, op), ra, rb)
            if op == "%" and rb.is_const() and rb.const_value() > 0:
                st.facts.assume(r, frozenset((0, 1)))
        v = Num(r, kind, taint)
        v = self.c.on_num(self, st, op, v, node) or v
        return [(st, v)]

    @staticmethod
    def mod_difference(r, m):
        if not r.d.is_const() or len(r.n.t) != 2:
            return False
        cs = []
        for mono, c in r.n.t.items():
            if len(mono) != 1 or mono[0][1] != 1:
                return False
            d = poly.ATOM.get(mono[0][0])
            if d is None or d[:2] != ("fun", "mod") or d[2][1] != m:
                return False
            cs.append(c)
        return sorted(cs) == [-1, 1]

    def vec_op(self, st, op, a, b, node):
        def items(v, n):
            return v.items if isinstance(v, Vec) else (v,) * n
        n = len(a.items) if isinstance(a, Vec) else len(b.items)
        if isinstance(a, Opq) or isinstance(b, Opq):
            return [(st, Opq(f"({ckey(a)}{op}{ckey(b)})", src=(a, b)))]
        cur = [(st, [])]
        for p, q in zip(items(a, n), items(b, n)):
            cur = [(y, vs + [v]) for x, vs in cur for y, v in self.binop(x, op, p, q, node)]
        return [(x, Vec(vs)) for x, vs in cur]

    def e_UnaryOp(self, n, st, fr):
        if isinstance(n.op, ast.Not):
            return [(x, K(not b)) for x, b in self.cond(n.operand, st, fr)]
        out = []
        for x, v in self.ev(n.operand, st, fr):
            if isinstance(v, K) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool):
                out.append((x, K(-v.v if isinstance(n.op, ast.USub) else +v.v)))
            elif isinstance(v, Vec):
                out += self.vec_op(x, "*", K(-1), v, n)
            elif isinstance(v, Num):
                t = v.taint | CONTEXT if v.kind == "dec" else v.taint
                out.append((x, Num(-v.r if isinstance(n.op, ast.USub) else v.r, v.kind, t)))
            elif isinstance(v, Opq):
                out.append((x, Opq(f"-{v.key}", v.typ, (v,))))
            elif isinstance(v, K) and isinstance(v.v, (bool, Decimal)):
                out.append((x, K(-v.v if isinstance(n.op, ast.USub) else +v.v)))
            elif isinstance(v, Index):
                out.append((x, Opq(f"-{ckey(v)}", "num", (v,))))
            else:
                self.raise_(x, "TypeError", n)
        return out

    def e_BoolOp(self, n, st, fr):
        """value semantics of and/or"""
        isand = isinstance(n.op, ast.And)
        out = []
        cur = [st]
        for i, e in enumerate(n.values):
            last = i == len(n.values) - 1
            nxt = []
            for x in cur:
                for y, v in self.ev(e, x, fr):
                    if last:
                        out.append((y, v))
                        continue
                    for z, b in self.truth(y, v, e):
                        if b == isand:
                            nxt.append(z)
                        else:
                            out.append((z, v))
            cur = nxt
        return out

    def e_IfExp(self, n, st, fr):
        out = []
        for x, b in self.cond(n.test, st, fr):
            out += self.ev(n.body if b else n.orelse, x, fr)
        return out

    def e_NamedExpr(self, n, st, fr):
        out = []
        for x, v in self.ev(n.value, st, fr):
            for y in self.assign(n.target, v, x, fr):
                out.append((y, v))
        return out

    def e_Compare(self, n, st, fr):
        out = []
        cur = [(st, v) for st, v in self.ev(n.left, st, fr)]
        for i, (op, e) in enumerate(zip(n.ops, n.comparators)):
            last = i == len(n.ops) - 1
            nxt = []
            for x, a in cur:
                for y, b in self.ev(e, x, fr):
                    for z, r in self.compare(y, op, a, b, n):
                        if last:
                            out.append((z, r))
                        else:
                            for w, t in self.truth(z, r, n):
                                if t:
                                    nxt.append((w, b))
                                else:
                                    out.append((w, r if isinstance(r, K) else FALSE))
            cur = nxt
        return out

    def compare(self, st, op, a, b, node):
        """-> [(st, value)]"""
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            return [(x, K(r if t is ast.Is else not r)) for x, r in self.identical(st, a, b, node)]
        if t in (ast.In, ast.NotIn):
            return [(x, K(r if t is ast.In else not r)) for x, r in self.contains(st, a, b, node)]
        if any(isinstance(v, Opq) and v.typ == "array" for v in (a, b)):
            return [(st, Opq(typ="array", src=(a, b)))]
        if beyond(a, b):
            # a count of the small scene against a threshold: scenes beyond the threshold behave the other way
            return [(st.copy(), TRUE), (st, FALSE)]
        self.c.on_compare(self, st, t, a, b, node)
        na, nb = tonum(a), tonum(b)
        if na is not None and nb is not None and not (isinstance(a, K) and isinstance(a.v, bool) and not is_numlike(b)):
            return self.num_compare(st, t, na, nb, node)
        if isinstance(a, Vec) or isinstance(b, Vec):
            return [(st, Opq(f"({ckey(a)}{t.__name__}{ckey(b)})", src=(a, b)))]
        d = CMPD[t]
        for u, w, dd in ((a, b, d), (b, a, REFL[d])):
            if isinstance(u, Ref) and isinstance(st.obj(u).cls, ClassInfo):
                m = st.obj(u).cls.method(dd)
                if m is not None:
                    return self.call(st, Bound(Fn(m), u), [w], {}, node)
        if t is ast.NotEq:
            # default __ne__ inverts __eq__
            for u, w in ((a, b), (b, a)):
                if isinstance(u, Ref) and isinstance(st.obj(u).cls, ClassInfo) and st.obj(u).cls.method("__eq__"):
                    return [(y, K(not r)) for x, v in self.call(st, Bound(Fn(st.obj(u).cls.method("__eq__")), u), [w], {}, node)
                            for y, r in self.truth(x, v, node)]
        if t in (ast.Eq, ast.NotEq):
            return [(x, K(r if t is ast.Eq else not r)) for x, r in self.equal(st, a, b, node)]
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.lex_compare(st, t, list(a.items), list(b.items), node)
        if isinstance(a, (Opq, Index)) or isinstance(b, (Opq, Index)):
            return self.opq_bool(st, (t.__name__, ckey(a), ckey(b)), node, (a, b))
        if isinstance(a, K) and isinstance(b, K):
            try:
                return [(st, K({ast.Lt: a.v < b.v, ast.LtE: a.v <= b.v, ast.Gt: a.v > b.v, ast.GtE: a.v >= b.v}[t]))]
            except TypeError:
                pass
        self.raise_(st, "TypeError", node, K(f"compare {a} {b}"))
        return []

    def lex_compare(self, st, t, xs, ys, node):
        if not xs or not ys:
            d = (len(xs) > len(ys)) - (len(xs) < len(ys))
            return [(st, K(d in SIGN[t]))]
        out = []
        for x, e in self.equal(st, xs[0], ys[0], node):
            if e:
                out += self.lex_compare(x, t, xs[1:], ys[1:], node)
            else:
                strict = {ast.LtE: ast.Lt, ast.GtE: ast.Gt}.get(t, t)
                out += self.compare(x, strict(), xs[0], ys[0], node)
        return out

    def num_compare(self, st, t, a, b, node):
        want = SIGN[t]
        r = st.facts.norm(a.r - b.r)
        cur = st.facts.sign(r)
        if cur - want and cur & want and not r.d.is_const() and want not in (SIGN[ast.Eq], SIGN[ast.NotEq]):
            ds = st.facts.psign(r.d) - {0}
            if len(ds) > 1:
                # decide the sign of the denominator first: keeps the facts about both parts separate
                d = R(r.d, None, False)
                out = []
                for s in sorted(ds):
                    s2 = st.copy()
                    if s2.facts.assume(d, frozenset((s,))):
                        out += self.num_compare(s2, t, a, b, node)
                return out
        yes, no = cur & want, cur - want
        if not no:
            return [(st, TRUE)]
        if not yes:
            return [(st, FALSE)]
        out = []
        s2 = st.copy()
        if st.facts.assume(r, yes):
            out.append((st, TRUE))
        if s2.facts.assume(r, no):
            out.append((s2, FALSE))
        return out

    def opq_bool(self, st, key, node, deps=()):
        """memoised unknown boolean"""
        if key in st.truth:
            return [(st, K(st.truth[key]))]
        s2 = st.copy()
        st.truth[key] = True
        s2.truth[key] = False
        return [(st, TRUE), (s2, FALSE)]

    def identical(self, st, a, b, node):
        if isinstance(a, Ref) and isinstance(b, Ref):
            return [(st, a.oid == b.oid)]
        if isinstance(a, K) and isinstance(b, K):
            return [(st, a == b)]
        if isinstance(a, Opq) or isinstance(b, Opq):
            if isinstance(a, Opq) and isinstance(b, Opq) and a.key == b.key:
                return [(st, True)]
            if NONE in (a, b) and (isinstance(a, Opq) and a.typ in ("num", "str", "bool", "obj") or
                                   isinstance(b, Opq) and b.typ in ("num", "str", "bool", "obj")):
                return [(st, False)]
            return [(x, v.v) for x, v in self.opq_bool(st, ("is", ckey(a), ckey(b)), node)]
        if type(a) is type(b) and isinstance(a, (Cls, Ext, Fn)):
            return [(st, a == b)]
        return [(st, False)]

    def equal(self, st, a, b, node):
        """structural/identity equality -> [(st, bool)]"""
        na, nb = tonum(a), tonum(b)
        if na is not None and nb is not None:
            return [(x, v.v) for x, v in self.num_compare(st, ast.Eq, na, nb, node)]
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = st.obj(a), st.obj(b)
            for u, w in ((a, b), (b, a)):
                c = st.obj(u).cls
                if isinstance(c, ClassInfo) and c.method("__eq__"):
                    return [(y, r) for x, v in self.call(st, Bound(Fn(c.method("__eq__")), u), [w], {}, node)
                            for y, r in self.truth(x, v, node)]
            if a.oid == b.oid:
                return [(st, True)]
            if oa.kind == "list" and ob.kind == "list":
                sa, sb = oa.fields["segs"], ob.fields["segs"]
                if not any(isinstance(g, Seg) for g in sa + sb):
                    return self.equal(st, Tup(sa), Tup(sb), node)
                return [(x, v.v) for x, v in self.opq_bool(st, ("==", ckey(a), ckey(b)), node)]
            return self.alias(st, a, b, node)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return [(st, False)]
            cur = [(st, True)]
            for p, q in zip(a.items, b.items):
                nxt = []
                for x, ok in cur:
                    if not ok:
                        nxt.append((x, False))
                    else:
                        nxt += self.equal(x, p, q, node)
                cur = nxt
            return cur
        if isinstance(a, K) and isinstance(b, K):
            return [(st, a.v == b.v)]
        if isinstance(a, (Opq, Index)) or isinstance(b, (Opq, Index)):
            if ckey(a) == ckey(b):
                return [(st, True)]
            return [(x, v.v) for x, v in self.opq_bool(st, ("==",) + tuple(sorted((ckey(a), ckey(b)), key=repr)), node)]
        if type(a) is type(b) and isinstance(a, (Cls, Ext, Fn)):
            return [(st, a == b)]
        for u, w in ((a, b), (b, a)):
            if isinstance(u, Ref) and isinstance(st.obj(u).cls, ClassInfo) and st.obj(u).cls.method("__eq__"):
                return [(y, r) for x, v in self.call(st, Bound(Fn(st.obj(u).cls.method("__eq__")), u), [w], {}, node)
                        for y, r in self.truth(x, v, node)]
        return [(st, False)]

    def alias(self, st, a, b, node):
        """may two distinct abstract references denote the same object?  default: no"""
        return [(st, False)]

    def contains(self, st, a, b, node):
        if isinstance(b, Opq):
            return [(x, v.v) for x, v in self.opq_bool(st, ("in", ckey(a), ckey(b)), node)]
        if isinstance(b, Ref) and st.obj(b).kind == "dict":
            for k, _ in st.obj(b).fields.get("items", ()):
                if ckey(k) == ckey(a):
                    return [(st, True)]
            return [(st, False)]
        out = []
        for x, segs, src in self.iter_segs(st, b, node):
            cur = [x]
            sym = False
            for g in segs:
                if isinstance(g, Seg):
                    sym = True
                    continue
                nxt = []
                for y in cur:
                    for z, r in self.equal(y, g, a, node):
                        if r:
                            out.append((z, True))
                        else:
                            nxt.append(z)
                cur = nxt
            for y in cur:
                if sym:
                    out += [(z, v.v) for z, v in self.opq_bool(y, ("in", ckey(a), tuple(g.sid for g in segs if isinstance(g, Seg))), node)]
                else:
                    out.append((y, False))
        return out

    # -------------------------------------------------------------- conditions
    def cond(self, n, st, fr):
        """-> [(st, bool)]"""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            cur, out = [st], []
            for i, e in enumerate(n.values):
                nxt = []
                for x in cur:
                    for y, b in self.cond(e, x, fr):
                        if b == isand:
                            nxt.append(y)
                        else:
                            out.append((y, b))
                cur = nxt
            return out + [(x, isand) for x in cur]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(x, not b) for x, b in self.cond(n.operand, st, fr)]
        out = []
        for x, v in self.ev(n, st, fr):
            out += self.truth(x, v, n)
        return out

    def truth(self, st, v, node):
        self.c.on_truth(self, st, v, node)
        if isinstance(v, K):
            if is_numlike(v):
                self.c.on_num_truth(self, st, v, node)
            return [(st, bool(v.v) if not isinstance(v.v, EnumVal) else True)]
        if isinstance(v, Num):
            self.c.on_num_truth(self, st, v, node)
            return [(x, r.v) for x, r in self.num_compare(st, ast.NotEq, v, Num(R.const(0)), node)]
        if isinstance(v, Tup):
            return [(st, len(v.items) > 0)]
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.kind in ("list", "set"):
                segs = o.fields["segs"]
                if any(not isinstance(g, Seg) or g.lo > 0 for g in segs):
                    return [(st, True)]
                if not segs:
                    return [(st, False)]
                key = ("nonempty", tuple(g.sid for g in segs))
                return [(x, r.v) for x, r in self.opq_bool(st, key, node)]
            if o.kind == "dict":
                return [(st, len(o.fields.get("items", ())) > 0)]
            if isinstance(o.cls, ClassInfo):
                for d in ("__bool__", "__len__"):
                    m = o.cls.method(d)
                    if m is not None:
                        return [(y, b) for x, w in self.call(st, Bound(Fn(m), v), [], {}, node) for y, b in self.truth(x, w, node)]
            return [(st, True)]
        if isinstance(v, Opq):
            if v.typ in ("obj", "predicate"):
                return [(st, True)]
            return [(x, r.v) for x, r in self.opq_bool(st, ("truth", v.key), node)]
        if isinstance(v, Index):
            return [(x, r.v) for x, r in self.opq_bool(st, ("truth", ckey(v)), node)]
        if isinstance(v, Vec):
            return [(x, r.v) for x, r in self.opq_bool(st, ("truth", ckey(v)), node)]
        return [(st, True)]

    # -------------------------------------------------------------- literals
    def e_Tuple(self, n, st, fr):
        return [(x, Tup(vs)) for x, vs in self.evs(n.elts, st, fr)]

    def e_List(self, n, st, fr):
        return [(x, x.mklist(vs)) for x, vs in self.evs(n.elts, st, fr)]

    def e_Set(self, n, st, fr):
        return [(x, x.mklist(self.distinct_segs(vs), "set")) for x, vs in self.evs(n.elts, st, fr)]

    def e_Dict(self, n, st, fr):
        cur = [(st, [])]
        for k, e in zip(n.keys, n.values):
            nxt = []
            for x, items in cur:
                if k is None:
                    for y, v in self.ev(e, x, fr):
                        its = y.obj(v).fields.get("items", ()) if isinstance(v, Ref) else ()
                        nxt.append((y, items + list(its)))
                else:
                    for y, kv in self.ev(k, x, fr):
                        for z, v in self.ev(e, y, fr):
                            nxt.append((z, items + [(kv, v)]))
            cur = nxt
        return [(x, x.new(Obj("dict", fields={"items": tuple(items)}), "d")) for x, items in cur]

    def e_JoinedStr(self, n, st, fr):
        if len(n.values) == 1 and isinstance(n.values[0], ast.FormattedValue) and n.values[0].format_spec is None \
                and n.values[0].conversion in (-1, 115):
            out = []
            for x, v in self.ev(n.values[0].value, st, fr):
                if is_numlike(v) and not self.c.strings:
                    out.append((x, Opq(("strof", ckey(v)), "strof", (v,))))
                else:
                    out += self.text_of(x, v, n) if self.c.strings else [(x, Opq(typ="str"))]
            return out
        if not self.c.strings:
            return [(st, Opq(typ="str"))]
        return [(x, text(vs)) for x, vs in self.evs(n.values, st, fr)]

    def e_FormattedValue(self, n, st, fr):
        if not self.c.strings:
            return [(st, Opq(typ="str"))]
        return [y for x, v in self.ev(n.value, st, fr) for y in self.text_of(x, v, n)]

    def fill(self, st, form, args, node):
        """form.format(*args) for plain fields {} or {0}; None if there are others"""
        parts, n = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(form):
                parts.append(K(lit)) if lit else None
                if field is None:
                    continue
                if spec or conv not in (None, "s") or field and not field.isdigit():
                    return None
                i = int(field) if field else n
                n += 1
                if i >= len(args):
                    return None
                parts.append((args[i],))
        except ValueError:
            return None
        return self.join(st, parts, node)

    def join(self, st, parts, node):
        """the concatenation of texts and of the texts of the values in singleton tuples"""
        cur = [(st, [])]
        for p in parts:
            cur = [(y, ts + [t]) for x, ts in cur for y, t in ([(x, p)] if not isinstance(p, tuple) else self.text_of(x, p[0], node))]
        return [(x, text(ts)) for x, ts in cur]

    def text_of(self, st, v, node):
        """str(v), followed through the classes' own methods (only for clients that follow texts)"""
        if isinstance(v, Ref) and isinstance(st.obj(v).cls, ClassInfo):
            for d in ("__str__", "__repr__"):
                m = st.obj(v).cls.method(d)
                if m is not None:
                    return self.call(st, Bound(Fn(m), v), [], {}, node)
        if isinstance(v, K) and not isinstance(v.v, EnumVal):
            return [(st, K(str(v.v)))]
        if isinstance(v, Num) and v.kind == "int" and v.r.is_const():
            return [(st, K(str(int(v.r.const_value()))))]
        if isinstance(v, Opq) and v.typ in ("str", "strof"):
            return [(st, v)]
        return [(st, Opq(typ="str", src=(v,)))]

    def e_Lambda(self, n, st, fr):
        return [(st, Fn(FuncInfo(n, self.stack[-1].module, None, self.stack[-1]), fr))]

    def e_Starred(self, n, st, fr):
        return self.ev(n.value, st, fr)

    # -------------------------------------------------------------- comprehensions
    def e_ListComp(self, n, st, fr):
        return [(x, x.mklist(segs)) for x, segs in self.comp(n, n.elt, st, fr)]

    def e_GeneratorExp(self, n, st, fr):
        return [(x, x.mklist(segs)) for x, segs in self.comp(n, n.elt, st, fr)]

    def e_SetComp(self, n, st, fr):
        return [(x, x.mklist(self.distinct_segs(segs), "set")) for x, segs in self.comp(n, n.elt, st, fr)]

    def e_DictComp(self, n, st, fr):
        pair = ast.copy_location(ast.Tuple([n.key, n.value], ast.Load()), n)
        out = []
        for x, segs in self.comp(n, pair, st, fr):
            if any(isinstance(g, Seg) for g in segs):
                out.append((x, Opq(typ="dict")))
            else:
                out.append((x, x.new(Obj("dict", fields={"items": tuple((g.items[0], g.items[1]) for g in segs)}), "d")))
        return out

    def comp(self, n, elt, st, fr):
        """-> [(st, segs)]"""
        o = st.heap[fr]
        cf = fresh("fr")
        st.heap[cf] = Obj("frame", meta={"module": o.meta["module"], "closure": fr, "func": o.meta.get("func")})
        return self.comp_gen(n.generators, 0, elt, st, cf, fr)

    def comp_gen(self, gens, i, elt, st, cf, outer):
        g = gens[i]
        out = []
        for x, it in self.ev(g.iter, st, outer if i == 0 else cf):
            for y, segs, src in self.iter_segs(x, it, g.iter):
                cur = [(y, [])]
                for s in segs:
                    nxt = []
                    for z, acc in cur:
                        if isinstance(s, Seg):
                            nxt += [(z, acc + [self.comp_seg(s, gens, i, elt, cf)])]
                            # analyse one generic element now, for the hooks and definite errors
                            for w, _ in self.comp_elem(z.copy(), s, fresh("t"), gens, i, elt, cf):
                                pass
                        else:
                            for w in self.assign(g.target, s, z, cf):
                                conds = [(w, True)]
                                for c in g.ifs:
                                    conds = [(v2, b2 and b) for v, b in conds for v2, b2 in
                                             (self.cond(c, v, cf) if b else [(v, False)])]
                                for v, b in conds:
                                    if not b:
                                        nxt.append((v, acc))
                                    elif i + 1 < len(gens):
                                        for u, sub in self.comp_gen(gens, i + 1, elt, v, cf, outer):
                                            nxt.append((u, acc + list(sub)))
                                    else:
                                        for u, val in self.ev(elt, v, cf):
                                            nxt.append((u, acc + [val]))
                    cur = nxt
                out += [(z, tuple(acc)) for z, acc in cur]
        return out

    def comp_seg(self, s, gens, i, elt, cf):
        filtered = bool(gens[i].ifs) or i + 1 < len(gens)
        stack = list(self.stack)

        def maker(I, st, tok):
            saved = I.stack
            I.stack = list(stack)
            try:
                return I.comp_elem(st, s, tok, gens, i, elt, cf)
            finally:
                I.stack = saved
        return Seg(maker, shape=None if filtered else s.shape, lo=0 if filtered else s.lo)

    def comp_elem(self, st, s, tok, gens, i, elt, cf):
        out = []
        # the comprehension frame is private to this element
        base = st.heap.get(cf)
        if base is None:
            return [(st, Opq())]
        f2 = fresh("fr")
        st.heap[f2] = base
        for x, v in self.seg_elem(st, s, tok):
            for y in self.assign(gens[i].target, v, x, f2):
                conds = [y]
                for c in gens[i].ifs:
                    conds = [v2 for w in conds for v2, b in self.cond(c, w, f2) if b]
                for w in conds:
                    if i + 1 < len(gens):
                        for u, segs in self.comp_gen(gens, i + 1, elt, w, f2, f2):
                            for g in self.distinct_segs(segs):
                                z = u.copy()
                                if isinstance(g, Seg):
                                    out += self.seg_elem(z, g, (tok, 1))
                                else:
                                    out.append((z, g))
                    else:
                        out += self.ev(elt, w, f2)
        return out

    # ============================================================ calls
    def e_Call(self, n, st, fr):
        out = []
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.keywords:
            f = self.stack[-1]
            while f.parent is not None and f.cls is None:
                f = f.parent
            first = f.node.args.args[0].arg
            self_ = self.lookup_var(st, fr, first)
            return [(st, Super(f.cls, self_))]
        for x, fv in self.ev(n.func, st, fr):
            for y, args in self.evs(n.args, x, fr):
                cur = [(y, {})]
                for kw in n.keywords:
                    nxt = []
                    for z, kws in cur:
                        for w, v in self.ev(kw.value, z, fr):
                            if kw.arg is None:
                                k2 = dict(kws)
                                if isinstance(v, Ref) and w.obj(v).kind == "dict":
                                    for kk, vv in w.obj(v).fields.get("items", ()):
                                        k2[kk.v if isinstance(kk, K) else repr(kk)] = vv
                                    if w.obj(v).fields.get("open"):
                                        k2["**"] = v
                                elif isinstance(v, Opq):
                                    k2["**"] = v
                                nxt.append((w, k2))
                            else:
                                nxt.append((w, {**kws, kw.arg: v}))
                    cur = nxt
                for z, kws in cur:
                    out += self.call(z, fv, args, kws, n)
        return out

    def call(self, st, fv, args, kwargs, node):
        self.calls += 1
        r = self.c.intercept(self, st, fv, args, kwargs, node)
        if r is not None:
            return r
        if isinstance(fv, Bound):
            if isinstance(fv.f, Fn):
                return self.call_fn(st, fv.f, [fv.self_] + args, kwargs, node)
            return self.call(st, fv.f, [fv.self_] + args, kwargs, node)
        if isinstance(fv, Fn):
            return self.call_fn(st, fv, args, kwargs, node)
        if isinstance(fv, Cls):
            return self.construct(st, fv.c, args, kwargs, node)
        if isinstance(fv, Ext):
            return self.call_ext(st, fv.path, args, kwargs, node)
        if isinstance(fv, Meth):
            return self.call_meth(st, fv.recv, fv.name, args, kwargs, node)
        if isinstance(fv, Opq):
            r = self.c.on_opaque_call(self, st, fv, args, kwargs, node)
            if r is not None:
                return r
            return [(st, Opq(src=(fv,) + tuple(args)))]
        if isinstance(fv, Ref):
            o = st.obj(fv)
            if isinstance(o.cls, ClassInfo) and o.cls.method("__call__"):
                return self.call(st, Bound(Fn(o.cls.method("__call__")), fv), args, kwargs, node)
        if isinstance(fv, K):
            self.raise_(st, "TypeError", node)
            return []
        raise Unsupported(f"call of {fv} at {self.where(node)}")

    def construct(self, st, c, args, kwargs, node):
        if c.is_enum:
            return [(st, Opq(typ=c.name))]
        init = c.method("__init__")
        if init is None and any(b.split(".")[-1] in ("Exception", "ValueError") for b in c.ext_bases()):
            return [(st, Opq(typ=c.name))]
        dc = [d for d in c.node.decorator_list if "dataclass" in ast.unparse(d)]
        r = st.new(Obj("inst", c), c.name[0].lower())
        if init is None and dc:
            names = [k.target.id for k in c.node.body if isinstance(k, ast.AnnAssign)]
            vals = dict(zip(names, args))
            vals.update(kwargs)
            for k in c.node.body:
                if isinstance(k, ast.AnnAssign) and k.target.id not in vals and k.value is not None:
                    vals[k.target.id] = self.class_attr(st, c, k.target.id)
            for k, v in vals.items():
                self.write(st, r, k, v, node)
            return [(st, r)]
        if init is None:
            return [(st, r)]
        return [(x, r) for x, _ in self.call(st, Bound(Fn(init), r), args, kwargs, node)]

    def call_fn(self, st, fn, args, kwargs, node):
        f = fn.f
        if len(self.stack) > self.MAX_DEPTH:
            raise Unsupported(f"call depth exceeded at {self.where(node)}")
        fr = fresh("fr")
        meta = {"module": f.module, "closure": fn.closure, "func": f.qual}
        st.heap[fr] = Obj("frame", fields={}, meta=meta)
        self.functions.add((rel(f.module.path), f.qual))
        self.stack.append(f)
        try:
            res = []
            for x in self.bind(st, f, args, kwargs, fr, node):
                if isinstance(f.node, ast.Lambda):
                    res += self.ev(f.node.body, x, fr)
                    continue
                isgen = any(isinstance(q, (ast.Yield, ast.YieldFrom)) for q in walk_own(f.node))
                if isgen:
                    y = x.mklist(())
                    x.heap[fr] = x.heap[fr].with_field("$yield", y)
                for kind, z, v in self.block(f.node.body, x, fr):
                    if isgen:
                        res.append((z, z.heap[fr].fields["$yield"]))
                    elif kind == "return":
                        res.append((z, v))
                    elif kind == "next":
                        res.append((z, NONE))
                    else:
                        raise Unsupported(f"{kind} outside loop")
        finally:
            self.stack.pop()
        keepfr = any(isinstance(q, (ast.Lambda, ast.FunctionDef, ast.ListComp, ast.GeneratorExp, ast.SetComp)) for q in walk_own(f.node))
        if not keepfr:
            for x, _ in res:
                x.heap.pop(fr, None)
        return res

    def e_Yield(self, n, st, fr):
        out = []
        for x, v in (self.ev(n.value, st, fr) if n.value else [(st, NONE)]):
            y = x.heap[fr].fields["$yield"]
            x.heap[y.oid] = x.obj(y).with_field("segs", x.obj(y).fields["segs"] + (v,))
            out.append((x, NONE))
        return out

    def bind(self, st, f, args, kwargs, fr, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        rest = []
        for i, v in enumerate(args):
            if i < len(names):
                vals[names[i]] = v
            else:
                rest.append(v)
        if rest and a.vararg is None:
            self.raise_(st, "TypeError", node)
            return []
        kwrest = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names or k in konly:
                if k in vals:
                    self.raise_(st, "TypeError", node)
                    return []
                vals[k] = v
            else:
                kwrest[k] = v
        if kwrest and a.kwarg is None:
            if set(kwrest) == {"**"}:
                for k in names + konly:
                    if k not in vals:
                        vals[k] = Opq(f"{ckey(kwrest['**'])}.{k}")
            else:
                self.raise_(st, "TypeError", node, K(f"unexpected keyword {sorted(kwrest)}"))
                return []
        if a.vararg is not None:
            vals[a.vararg.arg] = Tup(rest)
        if a.kwarg is not None:
            d = Obj("dict", fields={"items": tuple((K(k), v) for k, v in kwrest.items() if k != "**"),
                                    **({"open": True} if "**" in kwrest else {})})
            vals[a.kwarg.arg] = st.new(d, "d")
        nd = len(a.defaults)
        cur = [st]
        for i, nm in enumerate(names):
            if nm in vals:
                continue
            j = i - (len(names) - nd)
            if j < 0:
                self.raise_(st, "TypeError", node, K(f"missing argument {nm}"))
                return []
            vals[nm] = self.default_value(st, f, a.defaults[j])
        for nm, d in zip(konly, a.kw_defaults):
            if nm not in vals:
                if d is None:
                    self.raise_(st, "TypeError", node, K(f"missing argument {nm}"))
                    return []
                vals[nm] = self.default_value(st, f, d)
        o = st.heap[fr]
        st.heap[fr] = Obj("frame", None, {**o.fields, **vals}, None, o.meta)
        return [st]

    def default_value(self, st, f, expr):
        if isinstance(expr, ast.Constant):
            return K(expr.value)
        key = ("default", id(expr))
        if key in st.elem:
            return st.elem[key]
        if f.parent is not None:
            # nested function: defaults see the enclosing frame; approximate by module scope + opaque
            try:
                v = self.eval_static(st, expr, f.module, None)
            except Unsupported:
                v = Opq()
        else:
            v = None
            if f.cls is not None and isinstance(expr, ast.Name) and expr.id in f.cls.attrs:
                v = self.class_attr(st, f.cls, expr.id)
            if v is None:
                v = self.eval_static(st, expr, f.module, None)
        st.elem[key] = v
        return v

    # ============================================================ externals
    def call_ext(self, st, path, args, kwargs, node):
        r = self.c.on_ext(self, st, path, args, kwargs, node)
        if r is not None:
            return r
        from . import extern
        r = extern.call(self, st, path, args, kwargs, node)
        if r is not None:
            return r
        return [(st, Opq(f"{path}({','.join(repr(ckey(a)) for a in args)})#{next(COUNTER)}", src=tuple(args)))]

    def call_meth(self, st, recv, name, args, kwargs, node):
        from . import extern
        if isinstance(recv, Ref):
            k = st.obj(recv).kind
            if k in ("list", "set"):
                return self.list_method(st, recv, name, args, kwargs, node)
            if k == "dict":
                return extern.dict_method(self, st, recv, name, args, kwargs, node)
            if k == "pq":
                return extern.pq_method(self, st, recv, name, args, kwargs, node)
        r = extern.value_method(self, st, recv, name, args, kwargs, node)
        if r is not None:
            return r
        return [(st, Opq(f"{ckey(recv)}.{name}()#{next(COUNTER)}", src=(recv,) + tuple(args)))]

    def list_method(self, st, ref, name, args, kwargs, node):
        from . import extern
        return extern.list_method(self, st, ref, name, args, kwargs, node)


class _Unbound(V):
    def __repr__(self):
        return "UNBOUND"


UNBOUND = _Unbound()


def text(parts):
    """the concatenation of texts"""
    if all(isinstance(p, K) for p in parts):
        return K("".join(str(p.v) for p in parts))
    return Opq(typ="str", src=tuple(parts))


def walk_own(fn):
    """nodes of a function body without nested functions' bodies (the nested node itself is yielded)"""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def pick_maker(allowed):
    """generic element of any of the given segments/values"""
    allowed = tuple(allowed)

    def maker(I, st, tok):
        out = []
        for g in allowed:
            y = st.copy()
            if isinstance(g, Seg):
                out += I.seg_elem(y, g, fresh("t"))
            else:
                out.append((y, g))
        return out
    return maker


def sym_slice(segs, lo, hi):
    """slice of a mixed sequence when the cut falls into exact parts"""
    segs = list(segs)
    if lo in (None, 0) and hi is None:
        return tuple(segs)
    if lo in (None, 0) and hi is not None and hi < 0:
        tail = segs[hi:]
        if len(segs) >= -hi and all(not isinstance(g, Seg) for g in tail):
            return tuple(segs[:hi])
        return None
    if hi is None and lo is not None and lo > 0:
        if all(not isinstance(g, Seg) for g in segs[:lo]) and len(segs) >= lo:
            return tuple(segs[lo:])
        return None
    if lo in (None, 0) and hi is not None and hi > 0:
        if len(segs) >= hi and all(not isinstance(g, Seg) for g in segs[:hi]):
            return tuple(segs[:hi])
        if hi == 1 and isinstance(segs[0], Seg):
            g = segs[0]
            if g.lo > 0:
                return (Seg(lambda I, st, t: I.seg_elem(st, g, ("idx", 0)), lo=1),) if False else ElemList(g)
        return None
    return None


def ElemList(g):
    """one-element sequence holding the first element of g"""
    return (Seg(lambda I, st, t: I.seg_elem(st, g, ("idx", 0)), lo=1),)


def ext_const(p):
    if p in ("math.inf", "numpy.inf", "math.Infinity", "numpy.Inf"):
        return K(float("inf"))
    return Ext(p)
