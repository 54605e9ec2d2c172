"""C08 - zero is a number."""
import ast

from ..lib import *
from ..edges import Kit
from ..ntypes import Types
from ..region import arguments, callee

RULE = ("Kind inference over the whole package (numbers, counts, lists, None flow through assignments, attributes, containers, calls and returns); "
        "a truth test is allowed to see a value that may be a number only if the value cannot be None and is not replaced by another; a list that may be None "
        "is not replaced by something else when empty.  The evaluation of an unfinished end is "
        "interpreted at an arbitrary sweep line and at 0, and must take place there on every path.")


def leaves(n, pos=True):
    """the expressions whose truth decides n: [(expression, polarity)]"""
    if isinstance(n, ast.BoolOp):
        for v in n.values:
            yield from leaves(v, pos)
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        yield from leaves(n.operand, not pos)
    elif isinstance(n, ast.NamedExpr):
        yield n.value, pos
    elif not isinstance(n, (ast.Compare, ast.Constant)):
        yield n, pos


def same(a, b):
    return ast.dump(a).replace("Store()", "Load()") == ast.dump(b).replace("Store()", "Load()")


def empty(e):
    return (isinstance(e, (ast.List, ast.Tuple, ast.Set, ast.Dict)) and not (getattr(e, "elts", None) or getattr(e, "keys", None))) or \
        (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "set", "dict", "tuple") and not e.args and not e.keywords)


class Truths:
    def __init__(self, T):
        self.T = T
        self.found = []        # (module, function, node, expression, use, replacement)

    def scan(self):
        T = self.T
        for m, f, body in T.scopes:
            for s in body:
                self.walk(s, m, None)
        for f in T.funcs.values():
            for s in f.body:
                self.walk(s, f.module, f)
        return self

    def walk(self, n, m, f):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            return
        if isinstance(n, ast.ClassDef):
            for s in n.body:
                self.walk(s, m, f)
            return
        add = lambda x, use, rep=None: self.found.append((m, f, n, x, use, rep))
        if isinstance(n, ast.If):
            for x, pos in leaves(n.test):
                arm = n.orelse if pos else n.body
                rep = next((s.value for s in arm if isinstance(s, ast.Assign) and any(same(t, x) for t in s.targets)), None)
                add(x, "test", rep)
        elif isinstance(n, (ast.While, ast.Assert)):
            for x, _ in leaves(n.test):
                add(x, "test")
        elif isinstance(n, ast.IfExp):
            for x, pos in leaves(n.test):
                keep, other = (n.body, n.orelse) if pos else (n.orelse, n.body)
                add(x, "test", other if same(keep, x) else None)
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                for x, _ in leaves(c):
                    add(x, "test")
        elif isinstance(n, ast.BoolOp) and not getattr(n, "_tested", False):
            for i, x in enumerate(n.values[:-1]):
                for y, _ in leaves(x):
                    if isinstance(n.op, ast.Or) and y is x:
                        add(y, "value", n.values[i + 1])
                    else:
                        add(y, "test")
        elif isinstance(n, ast.Call):
            g = n.func.id if isinstance(n.func, ast.Name) else None
            if g == "bool" and n.args:
                add(n.args[0], "test")
            elif g in ("any", "all") and n.args:
                add(n.args[0], "elements")
            elif g == "filter" and len(n.args) == 2 and isinstance(n.args[0], ast.Constant) and n.args[0].value is None:
                add(n.args[1], "elements")
        for t in (getattr(n, "test", None), *getattr(n, "ifs", ())):
            if t is not None:
                for x in ast.walk(t):
                    if isinstance(x, ast.BoolOp):
                        x._tested = True
        for c in ast.iter_child_nodes(n):
            self.walk(c, m, f)


def judge(kinds, use, rep):
    """why the truth test is wrong, or None"""
    none = "none" in kinds
    nums = kinds & {"num", "int"}
    colls = [k for k in kinds if isinstance(k, tuple) and k[0] in ("coll", "tup")]
    if nums and none:
        return "a number that may be missing is tested for truth: 0 is taken for missing"
    if nums and (use == "value" or rep is not None):
        return "a number is replaced by another value when it is 0"
    if colls and none and rep is not None and not empty(rep):
        return "a list is replaced by another one when it is empty"
    return None


def run(prog, rep):
    T = Types(prog).solve()
    tr = Truths(T).scan()
    n = 0
    for m, f, node, x, use, repl in tr.found:
        T.m, T.f = m, f
        kinds = T.ev(x)
        if use == "elements":
            kinds = T.elem(kinds)
        if use == "test" and isinstance(node, ast.IfExp) and repl is None:
            pass
        why = judge(kinds, use, repl)
        where = f"{rel_(m)}:{x.lineno} {f.qual if f else ''}".strip()
        rep.ob(why is None, "truth test", where, f"`{ast.unparse(x)[:60]}` may be {describe(kinds)}", why or "")
        n += 1
    rep.count("truth_tests", n)
    rep.count("kinds_of_variables", len(T.v))
    rep.count("inference_rounds", T.rounds)
    sweep_lines(prog, rep)
    rep.assume("documented parameter types are what users pass")


def rel_(m):
    from ..model import rel
    return rel(m.path)


def describe(kinds):
    out = set()
    for k in kinds:
        out.add(k if isinstance(k, str) else {"coll": "list", "tup": "tuple", "obj": getattr(k[1], "name", "object") if len(k) > 1 else "object"}.get(k[0], "other"))
    return "/".join(sorted(out)) or "anything"


class Seen(Client):
    """records the sweep lines at which a breakpoint is evaluated"""

    def __init__(self, node):
        self.node, self.seen = node, []

    def intercept(self, I, st, fv, args, kwargs, node):
        f, first = callee(fv)
        if f is None or id(f.node) != id(self.node):
            return None
        a = arguments(f, first, args, kwargs)
        self.seen.append((st, a[1:]))
        s2, v = make(I, st, "Coordinate", num("b.x"), num("b.y"))
        return [(s2, v)]


def sweep_lines(prog, rep):
    """an end that still moves is evaluated at the sweep line it is asked for, whatever that is"""
    g = prog.cls("Breakpoint").method("get_intersection")
    f = prog.cls("HalfEdge").method("get_origin")
    if g is None or f is None:
        raise Unsupported("anchor Breakpoint.get_intersection or HalfEdge.get_origin not found")
    w = where_fn(f)
    for y in (num("l"), K(0)):
        for top in (num("m"), K(0)):
            cl = Seen(g.node)
            k = Kit(prog, cl)
            p, q = k.mk("Point", num("p.x"), num("p.y")), k.mk("Point", num("q.x"), num("q.y"))
            e = k.mk("HalfEdge", p, origin=k.mk("Breakpoint", Tup((p, q))))
            out, exc = k.I.run(k.st, Bound(Fn(f), e), [y, top])
            what = f"an end asked for at sweep line {show(y)} below {show(top)} is evaluated there"
            bad = [str(x) for x in exc]
            for st, v in out:
                mine = [a for s2, a in cl.seen if len(a) >= 1 and equal(st, a[0], y) and (len(a) < 2 or equal(st, a[1], top))]
                if v == NONE or not mine:
                    bad.append(str(v))
            rep.ob(not bad and len(out) == 1, "given sweep line", w, what, bad or f"{len(out)} different outcomes")
            rep.interp(k.I, len(out))


def show(v):
    return "0" if isinstance(v, K) else "y" if "l" in str(v) else "top"


def equal(st, a, b):
    x, y = r_of(a) if a is not None else None, r_of(b)
    return x is not None and st.facts.sign(x - y) == {0}
