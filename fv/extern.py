"""Models of the builtins / numpy / decimal / math / container operations the package uses."""
from fractions import Fraction
from decimal import Decimal

from . import poly
from .poly import R
from .model import ClassInfo, Unsupported
from .interp import (K, Num, Ref, Tup, Vec, Fn, Bound, Cls, Ext, Opq, Index, Obj, Seg, Meth, Exc, NONE, TRUE, FALSE,
                     tonum, is_numlike, ckey, CONTEXT, fresh, pick_maker, EnumVal)
import ast

PQ = {"queue.PriorityQueue": "pq", "queue.Queue": "fifo", "queue.LifoQueue": "lifo", "queue.SimpleQueue": "fifo",
      "multiprocessing.Queue": "fifo"}


def strof(v):
    return Opq(("strof", ckey(v)), "strof", (v,))


def fl(I, v, exact_kind="float"):
    """conversion to binary floating point"""
    if v.kind in ("float", "np"):
        return Num(v.r, exact_kind, v.taint)
    if v.kind == "int" and v.r.is_const():
        return Num(v.r, exact_kind, v.taint)
    if getattr(I.c, "float_identity", True):
        return Num(v.r, exact_kind, v.taint | {"float"})
    if v.r.is_const() or v.r in (R.atom(poly.INF), -R.atom(poly.INF)):
        return Num(v.r, exact_kind, v.taint)
    return Num(poly.fun("float", v.r), exact_kind, v.taint | {"float"})


def todec(I, v):
    t = v.taint | ({"binary"} if v.kind in ("float", "np") and not v.r.is_const() else frozenset())
    return Num(v.r, "dec", t)


def elems(I, st, v, node):
    """all generic elements: [(st, [values])] for exact, or one generic per segment"""
    return I.iter_segs(st, v, node)


def call(I, st, path, args, kwargs, node):
    if path.startswith("builtins."):
        f = BUILTIN.get(path[9:])
        if f is not None:
            return f(I, st, args, kwargs, node)
        name = path[9:]
        if name.startswith("object."):
            return [(st, NONE)]
        import builtins
        t = getattr(builtins, name, None)
        if isinstance(t, type) and issubclass(t, BaseException):
            return [(st, Opq(typ=name))]
        return None
    f = EXT.get(path) or EXT.get(path.split(".", 1)[-1] if path.startswith(("numpy.", "np.")) else None)
    if f is not None:
        return f(I, st, args, kwargs, node)
    if path in PQ:
        return [(st, st.new(Obj("pq", PQ[path], fields={"segs": ()}), "pq"))]
    if path.startswith("typing."):
        return [(st, args[-1] if args else NONE)]
    return None


# ------------------------------------------------------------------ builtins
def b_str(I, st, a, kw, node):
    if not a:
        return [(st, K(""))]
    v = a[0]
    if I.c.strings and (isinstance(v, Ref) or isinstance(v, K) and isinstance(v.v, int)):
        return I.text_of(st, v, node)
    if isinstance(v, K) and not isinstance(v.v, EnumVal):
        if is_numlike(v):
            return [(st, strof(v))]
        return [(st, K(str(v.v)))]
    if isinstance(v, Num):
        return [(st, strof(v))]
    if isinstance(v, Opq) and v.typ in ("str", "strof"):
        return [(st, v)]
    return [(st, Opq(typ="str", src=(v,)))]


def b_repr(I, st, a, kw, node):
    v = a[0]
    if isinstance(v, Num) and v.kind == "dec":
        return [(st, Opq(typ="str", src=(v,)))]         # "Decimal('...')"
    return b_str(I, st, a, kw, node)


def b_decimal(I, st, a, kw, node):
    v = a[0] if a else K(0)
    if isinstance(v, Opq) and v.typ == "strof":
        n = tonum(v.src[0])
        return [(st, Num(n.r, "dec", n.taint))]         # the shortest decimal a float is written as
    if isinstance(v, K) and isinstance(v.v, str):
        try:
            return [(st, K(Decimal(v.v)))]
        except Exception:
            I.raise_(st, "InvalidOperation", node)
            return []
    n = tonum(v)
    if n is not None:
        return [(st, todec(I, n))]
    if v == NONE:
        I.raise_(st, "TypeError", node)
        return []
    if isinstance(v, Opq):
        return [(st, Opq(("dec", v.key), "num", (v,)))]
    return None


def b_float(I, st, a, kw, node):
    v = a[0] if a else K(0.0)
    if isinstance(v, K) and isinstance(v.v, str):
        try:
            return [(st, K(float(v.v)))]
        except ValueError:
            I.raise_(st, "ValueError", node)
            return []
    if isinstance(v, Opq) and v.typ == "strof":
        v = v.src[0]
    n = tonum(v)
    if n is not None:
        if isinstance(v, K):
            return [(st, K(float(v.v)))]
        return [(st, fl(I, n))]
    if v == NONE:
        I.raise_(st, "TypeError", node)
        return []
    return [(st, Opq(("float", ckey(v)), "num", (v,)))]


def b_int(I, st, a, kw, node):
    v = a[0] if a else K(0)
    if isinstance(v, K) and isinstance(v.v, (int, float, bool)):
        return [(st, K(int(v.v)))]
    n = tonum(v)
    if n is not None:
        if n.kind == "int":
            return [(st, n)]
        return [(st, Num(poly.fun("trunc", n.r), "int", n.taint | {"round"}))]
    return [(st, Opq(("int", ckey(v)), "num", (v,)))]


def b_round(I, st, a, kw, node):
    n = tonum(a[0])
    if n is not None:
        if n.kind == "int":
            return [(st, n)]
        digits = ckey(a[1]) if len(a) > 1 else None
        return [(st, Num(poly.fun("round", n.r, str(digits)), n.kind, n.taint | {"round"}))]
    return [(st, Opq(("round", ckey(a[0])), "num", tuple(a)))]


def b_abs(I, st, a, kw, node):
    v = a[0]
    n = tonum(v)
    if n is None:
        if isinstance(v, Vec):
            out = [tonum(x) for x in v.items]
            if all(x is not None for x in out):
                return [(st, Vec(Num(poly.fun("abs", x.r), x.kind, x.taint) for x in out))]
        return [(st, Opq(("abs", ckey(v)), "num", (v,)))]
    s = st.facts.sign(n.r)
    t = n.taint | CONTEXT if n.kind == "dec" else n.taint
    if s <= {0, 1}:
        return [(st, Num(n.r, n.kind, t))]
    if s <= {0, -1}:
        return [(st, Num(-n.r, n.kind, t))]
    return [(st, Num(poly.fun("abs", st.facts.norm(n.r)), n.kind, t))]


def keyed_minmax(I, x, segs, key, name, node):
    """the first element with the smallest (largest) key, by cases; None unless all keys are numbers"""
    alts = [(x, None, None)]
    for g in segs:
        nxt = []
        for y, best, bk in alts:
            for z, kv in I.call(y, key, [g], {}, node):
                n = tonum(kv)
                if n is None:
                    return None
                if best is None:
                    nxt.append((z, g, n))
                    continue
                for keep, sg in ((True, (0, 1)), (False, (-1,))):
                    u = z.copy()
                    if u.facts.assume(bk.r - n.r if name == "max" else n.r - bk.r, frozenset(sg)):
                        nxt.append((u, best, bk) if keep else (u, g, n))
        alts = nxt
    return [(y, best) for y, best, _ in alts]


def minmax(name):
    def f(I, st, a, kw, node):
        key = kw.get("key")
        if len(a) > 1:
            seqs = [(st, tuple(a), None)]
        else:
            seqs = I.iter_segs(st, a[0], node)
        out = []
        for x, segs, src in seqs:
            if not segs:
                if "default" in kw:
                    out.append((x, kw["default"]))
                else:
                    I.raise_(x, "ValueError", node)
                continue
            sym = any(isinstance(g, Seg) for g in segs)
            if key is None or key == NONE:
                nums = [tonum(g) for g in segs] if not sym else None
                if nums and I.c.fork_minmax and all(n is not None for n in nums):
                    alts = [(x, nums[0])]
                    for n in nums[1:]:
                        nxt = []
                        for y, d in alts:
                            for keep, sg in ((True, (0, 1)), (False, (-1,))):
                                z = y.copy()
                                e = d.r - n.r if name == "max" else n.r - d.r
                                if z.facts.assume(e, frozenset(sg)):
                                    nxt.append((z, d if keep else n))
                        alts = nxt
                    out += alts
                    continue
                if nums and all(n is not None for n in nums):
                    cur = [(x, nums[0])]
                    # decide by facts when possible, otherwise an uninterpreted min/max
                    decided = nums[0]
                    for n in nums[1:]:
                        s = x.facts.sign(decided.r - n.r)
                        if s <= {0, 1} if name == "max" else s <= {0, -1}:
                            continue
                        if s <= {0, -1} if name == "max" else s <= {0, 1}:
                            decided = n
                            continue
                        kind = decided.kind
                        for q in (n,):
                            from .interp import numkind
                            kind = numkind(kind, q.kind, "+")
                        decided = Num(poly.fun(name, decided.r, n.r), kind, decided.taint | n.taint)
                    I.c.on_num(I, x, name, (nums, decided), node)
                    out.append((x, decided))
                    continue
            if key is not None and key != NONE and I.c.fork_minmax and not sym:
                got = keyed_minmax(I, x, segs, key, name, node)
                if got is not None:
                    out += got
                    continue
            for g in I.distinct_segs(segs):
                y = x.copy()
                els = I.seg_elem(y, g, fresh("t")) if isinstance(g, Seg) else [(y, g)]
                for z, v in els:
                    if key is not None and key != NONE:
                        for w, kv in I.call(z, key, [v], {}, node):
                            n = tonum(kv)
                            I.c.on_compare(I, w, ast.Lt, kv, kv, node)
                            out.append((w, v))
                    else:
                        n = tonum(v)
                        if n is not None:
                            sid = "+".join(sorted(q.sid if isinstance(q, Seg) else repr(ckey(q)) for q in segs))
                            v = Num(poly.fun(name + "over", n.r, sid), n.kind, n.taint)
                            I.c.on_num(I, z, name, ([n], v), node)
                        out.append((z, v))
        return out
    return f


def b_len(I, st, a, kw, node):
    v = a[0]
    if isinstance(v, K) and isinstance(v.v, (str, tuple)):
        return [(st, K(len(v.v)))]
    if isinstance(v, Opq):
        n = Num(R.atom(f"len:{v.key}"), "int")
        st.facts.assume(n.r, frozenset((0, 1)))
        return [(st, n)]
    if isinstance(v, Ref) and st.obj(v).kind == "dict":
        return [(st, K(len(st.get(v, "items") or ())))]
    if isinstance(v, Ref) and isinstance(st.obj(v).cls, ClassInfo) and st.obj(v).cls.method("__len__"):
        return I.call(st, Bound(Fn(st.obj(v).cls.method("__len__")), v), [], {}, node)
    if isinstance(v, Ref) and st.obj(v).kind == "pq":
        q = st.get(v, "segs") or ()
        if not any(isinstance(g, Seg) for g in q):
            return [(st, K(len(q)))]
        n = Num(R.atom(f"len:{v.oid}"), "int")
        st.facts.assume(n.r, frozenset((0, 1)))
        return [(st, n)]
    out = []
    for x, segs, _ in I.iter_segs(st, v, node):
        r = R.const(sum(1 for g in segs if not isinstance(g, Seg)))
        sym = False
        for g in segs:
            if isinstance(g, Seg):
                sym = True
                at = R.atom(f"len:{g.shape}")
                x.facts.assume(at - R.const(g.lo), frozenset((0, 1)))
                t = x.truth.get(("nonempty", (g.sid,)))
                if t is True and len(segs) == 1:
                    x.facts.assume(at - R.const(1), frozenset((0, 1)))
                elif t is False and len(segs) == 1:
                    x.facts.assume(at, frozenset((0,)))
                r = r + at
        out.append((x, Num(r, "int") if sym else K(int(r.const_value()))))
    return out


def b_range(I, st, a, kw, node):
    if all(isinstance(x, K) and isinstance(x.v, int) for x in a):
        r = range(*[x.v for x in a])
        if len(r) <= 64:
            return [(st, Tup([K(i) for i in r]))]
    nums = [tonum(x) for x in a]
    if any(n is None for n in nums):
        return [(st, st.mklist((Seg(lambda I, s, t: [(s, Opq(typ="num"))]),)))]
    lo = nums[0].r if len(nums) > 1 else R.const(0)
    hi = nums[1].r if len(nums) > 1 else nums[0].r
    shape = None
    ats = [x for x in hi.atoms() if x.startswith("len:")]
    if len(ats) == 1:
        shape = ats[0][4:]

    def maker(I, s, t):
        i = R.atom(fresh("i"))
        ok = s.facts.assume(i - lo, frozenset((0, 1))) and s.facts.assume(i - hi, frozenset((-1,)))
        if not ok:
            return []
        if shape is not None:
            s.elem[("range", i.key())] = shape
        return [(s, Num(i, "int"))]
    sg = st.facts.sign(hi - lo)
    if sg <= {0, -1}:
        return [(st, Tup(()))]
    return [(st, st.mklist((Seg(maker, lo=1 if sg == {1} else 0),)))]


def conv(kind):
    def f(I, st, a, kw, node):
        if not a:
            return [(st, Tup(()) if kind == "tuple" else st.mklist((), kind))]
        out = []
        for x, segs, src in I.iter_segs(st, a[0], node):
            if src is None and isinstance(a[0], Ref):
                src = a[0]
            I.c.on_list(I, x, src or a[0], "read", [], node)
            if kind == "tuple":
                out.append((x, Tup(segs)) if not any(isinstance(g, Seg) for g in segs) else (x, x.mklist(segs)))
            else:
                if kind == "set":
                    segs = tuple(I.distinct_segs(segs))
                out.append((x, x.mklist(segs, kind)))
        return out
    return f


def b_fromkeys(I, st, a, kw, node):
    """dict.fromkeys(items): the distinct items in order of first appearance (used as an ordered set)"""
    out = []
    for x, segs, src in I.iter_segs(st, a[0], node):
        I.c.on_list(I, x, src or a[0], "read", [], node)
        out.append((x, x.mklist(tuple(I.distinct_segs(segs)), "list")))
    return out


def b_dict(I, st, a, kw, node):
    items = []
    opened = False
    if a:
        v = a[0]
        if isinstance(v, Ref) and st.obj(v).kind == "dict":
            items = list(st.get(v, "items") or ())
            opened = bool(st.obj(v).fields.get("open"))
        elif isinstance(v, Opq):
            opened = True
        else:
            for x, segs, _ in I.iter_segs(st, v, node):
                items = [(g.items[0], g.items[1]) for g in segs if isinstance(g, Tup)]
                st = x
    for k, v in kw.items():
        if k == "**":
            opened = True
            continue
        items = [(p, q) for p, q in items if ckey(p) != ckey(K(k))] + [(K(k), v)]
    f = {"items": tuple(items)}
    if opened:
        f["open"] = True
    return [(st, st.new(Obj("dict", fields=f), "d"))]


def b_sorted(I, st, a, kw, node):
    out = []
    key = kw.get("key")
    for x, segs, src in I.iter_segs(st, a[0], node):
        cur = [x]
        for g in I.distinct_segs(segs):
            nxt = []
            for y in cur:
                probe = y.copy()
                els = I.seg_elem(probe, g, fresh("t")) if isinstance(g, Seg) else [(probe, g)]
                for z, v in els:
                    if key is not None and key != NONE:
                        for w, kv in I.call(z, key, [v], {}, node):
                            I.c.on_compare(I, w, ast.Lt, kv, kv, node)
                    else:
                        I.c.on_compare(I, z, ast.Lt, v, v, node)
                nxt.append(y)
            cur = nxt
        for y in cur:
            if len(segs) <= 1 and not any(isinstance(g, Seg) for g in segs):
                out.append((y, y.mklist(segs)))
            else:
                lo = sum((g.lo if isinstance(g, Seg) else 1) for g in segs)
                out.append((y, y.mklist((Seg(pick_maker(I.distinct_segs(segs)), lo=lo),))))
    return out


def b_reversed(I, st, a, kw, node):
    out = []
    for x, segs, src in I.iter_segs(st, a[0], node):
        res = []
        for g in reversed(segs):
            if isinstance(g, Seg):
                res.append(Seg(lambda I2, s, t, g=g: I2.seg_elem(s, g, ("rev", t)), lo=g.lo))
            else:
                res.append(g)
        out.append((x, x.mklist(res)))
    return out


def b_enumerate(I, st, a, kw, node):
    out = []
    for x, segs, src in I.iter_segs(st, a[0], node):
        if not any(isinstance(g, Seg) for g in segs):
            s0 = a[1] if len(a) > 1 else kw.get("start", K(0))
            b = s0.v if isinstance(s0, K) else 0
            out.append((x, Tup([Tup((K(b + i), v)) for i, v in enumerate(segs)])))
            continue
        res = []
        for g in segs:
            if isinstance(g, Seg):
                def mk(I2, s, t, g=g):
                    return [(z, Tup((Index(g.shape, t), v))) for z, v in I2.seg_elem(s, g, t)]
                res.append(Seg(mk, lo=g.lo, shape=g.shape))
            else:
                res.append(Tup((Opq(typ="num"), g)))
        out.append((x, x.mklist(res)))
    return out


def b_zip(I, st, a, kw, node):
    cur = [(st, [])]
    for v in a:
        nxt = []
        for x, acc in cur:
            for y, segs, _ in I.iter_segs(x, v, node):
                nxt.append((y, acc + [segs]))
        cur = nxt
    out = []
    for x, ss in cur:
        if all(not any(isinstance(g, Seg) for g in s) for s in ss):
            out.append((x, Tup([Tup(t) for t in zip(*ss)])))
            continue
        aligned = all(len(s) == 1 and isinstance(s[0], Seg) for s in ss)

        def mk(I2, s, t, ss=ss, aligned=aligned):
            res = [(s, [])]
            for segs in ss:
                nxt = []
                for y, acc in res:
                    if aligned:
                        for z, v in I2.seg_elem(y, segs[0], t):
                            nxt.append((z, acc + [v]))
                    else:
                        for g in I2.distinct_segs(segs):
                            w = y.copy()
                            for z, v in (I2.seg_elem(w, g, ("zip", t)) if isinstance(g, Seg) else [(w, g)]):
                                nxt.append((z, acc + [v]))
                res = nxt
            return [(y, Tup(acc)) for y, acc in res]
        shape = ss[0][0].shape if aligned and len({s[0].shape for s in ss}) == 1 else None
        out.append((x, x.mklist((Seg(mk, shape=shape),))))
    return out


def b_map(I, st, a, kw, node):
    if len(a) != 2:
        return None
    out = []
    for x, segs, _ in I.iter_segs(st, a[1], node):
        cur = [(x, [])]
        for g in segs:
            nxt = []
            for y, acc in cur:
                if isinstance(g, Seg):
                    def mk(I2, s, t, g=g):
                        return [w for z, v in I2.seg_elem(s, g, t) for w in I2.call(z, a[0], [v], {}, node)]
                    nxt.append((y, acc + [Seg(mk, shape=g.shape, lo=g.lo)]))
                else:
                    for z, v in I.call(y, a[0], [g], {}, node):
                        nxt.append((z, acc + [v]))
            cur = nxt
        out += [(y, y.mklist(acc)) for y, acc in cur]
    return out


def b_filter(I, st, a, kw, node):
    out = []
    fn = a[0]
    for x, segs, _ in I.iter_segs(st, a[1], node):
        cur = [(x, [])]
        for g in segs:
            nxt = []
            for y, acc in cur:
                if isinstance(g, Seg):
                    def mk(I2, s, t, g=g):
                        res = []
                        for z, v in I2.seg_elem(s, g, t):
                            if fn == NONE:
                                res += [(w, v) for w, b in I2.truth(z, v, node) if b]
                            else:
                                for w, r in I2.call(z, fn, [v], {}, node):
                                    res += [(u, v) for u, b in I2.truth(w, r, node) if b]
                        return res
                    nxt.append((y, acc + [Seg(mk)]))
                else:
                    calls = [(y, g)] if fn == NONE else I.call(y, fn, [g], {}, node)
                    for z, r in calls:
                        for w, b in I.truth(z, r, node):
                            nxt.append((w, acc + ([g] if b else [])))
            cur = nxt
        out += [(y, y.mklist(acc)) for y, acc in cur]
    return out


def anyall(want):
    def f(I, st, a, kw, node):
        out = []
        for x, segs, _ in I.iter_segs(st, a[0], node):
            cur = [x]
            sym = any(isinstance(g, Seg) for g in segs)
            for g in segs:
                nxt = []
                for y in cur:
                    if isinstance(g, Seg):
                        nxt.append(y)
                        continue
                    for z, b in I.truth(y, g, node):
                        if b == want:
                            out.append((z, K(want)))
                        else:
                            nxt.append(z)
                cur = nxt
            for y in cur:
                if sym:
                    key = ("anyall", want, tuple(g.sid for g in segs if isinstance(g, Seg)))
                    for z, v in I.opq_bool(y, key, node):
                        out.append((z, K(want) if v.v else K(not want)))
                else:
                    out.append((y, K(not want)))
        return out
    return f


def b_sum(I, st, a, kw, node):
    out = []
    for x, segs, _ in I.iter_segs(st, a[0], node):
        cur = [(x, a[1] if len(a) > 1 else kw.get("start", K(0)))]
        for g in segs:
            nxt = []
            for y, acc in cur:
                if isinstance(g, Seg):
                    for z, v in I.seg_elem(y, g, fresh("t")):
                        n = tonum(v)
                        if n is None or tonum(acc) is None:
                            nxt.append((z, Opq(typ="num", src=(v,))))
                        else:
                            nxt += I.num_op(z, "+", tonum(acc), Num(poly.fun("sumover", n.r, g.sid), n.kind, n.taint), node)
                else:
                    nxt += I.binop(y, "+", acc, g, node)
            cur = nxt
        out += cur
    return out


def b_isinstance(I, st, a, kw, node):
    v, t = a
    ts = list(t.items) if isinstance(t, Tup) else [t]
    res = False
    for c in ts:
        r = one_isinstance(I, st, v, c)
        if r is None:
            return I.opq_bool(st, ("isinstance", ckey(v), repr(t)), node)
        res = res or r
    return [(st, K(res))]


def one_isinstance(I, st, v, c):
    if isinstance(c, Cls):
        if isinstance(v, Ref):
            k = st.obj(v).cls
            if isinstance(k, ClassInfo):
                return k.is_sub(c.c)
            return False
        if isinstance(v, K) and isinstance(v.v, EnumVal):
            return v.v.cls == c.c.name
        if isinstance(v, Opq):
            if v.typ in ("num", "str", "bool", "strof"):
                return False
            return None
        return False
    if isinstance(c, Ext):
        n = c.path.split(".")[-1]
        if isinstance(v, Opq):
            return None
        if isinstance(v, Num):
            return {"Decimal": v.kind == "dec", "float": v.kind in ("float", "np"), "int": v.kind == "int",
                    "float64": v.kind == "np", "Number": True, "Real": v.kind != "dec"}.get(n, False)
        if isinstance(v, K):
            import builtins
            t = getattr(builtins, n, None)
            if isinstance(t, type):
                return isinstance(v.v, t)
            if n == "Decimal":
                return isinstance(v.v, Decimal)
            return None
        if isinstance(v, Ref):
            k = st.obj(v).kind
            if n in ("list", "set", "dict"):
                return k == n
            if n == "PriorityQueue":
                return st.obj(v).cls == "pq"
            if n == "object":
                return True
            return False
        if isinstance(v, Tup):
            return n in ("tuple", "Sequence", "Iterable")
        return False
    return None


def b_hasattr(I, st, a, kw, node):
    v, nm = a
    if isinstance(v, Ref) and isinstance(nm, K):
        o = st.obj(v)
        if isinstance(o.cls, ClassInfo):
            c = o.cls
            if nm.v in o.fields or c.getter(nm.v) or c.method(nm.v) or c.attr(nm.v):
                return [(st, TRUE)]
            return [(st, K(nm.v in assigned_fields(c)))]
    if isinstance(v, K) and v.v is None:
        return [(st, FALSE)]
    return I.opq_bool(st, ("hasattr", ckey(v), ckey(nm)), node)


def assigned_fields(c):
    key = "_assigned"
    if key not in c.__dict__:
        out = set()
        for k in c.mro:
            fs = list(k.methods.values()) + list(k.setters.values())
            for f in fs:
                if not f.node.args.args:
                    continue
                s = f.node.args.args[0].arg
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                            and n.value.id == s:
                        out.add(n.attr)
        setattr(c, key, out)
    return c.__dict__[key]


def b_getattr(I, st, a, kw, node):
    if isinstance(a[1], K) and isinstance(a[1].v, str):
        if len(a) > 2:
            out = []
            for x, b in [(y, r.v) for y, r in b_hasattr(I, st, a[:2], {}, node)]:
                out += I.getattr(x, a[0], a[1].v, node) if b else [(x, a[2])]
            return out
        return I.getattr(st, a[0], a[1].v, node)
    return [(st, Opq(src=tuple(a)))]


def b_setattr(I, st, a, kw, node):
    if isinstance(a[1], K):
        return [(x, NONE) for x in I.setattr(st, a[0], a[1].v, a[2], node)]
    return None


def b_none(I, st, a, kw, node):
    return [(st, NONE)]


def b_type(I, st, a, kw, node):
    v = a[0]
    if isinstance(v, Ref) and isinstance(st.obj(v).cls, ClassInfo):
        return [(st, Cls(st.obj(v).cls))]
    return [(st, Opq(("type", ckey(v)), "obj"))]


def b_bool(I, st, a, kw, node):
    if not a:
        return [(st, FALSE)]
    return [(x, K(b)) for x, b in I.truth(st, a[0], node)]


def b_iter(I, st, a, kw, node):
    return [(st, a[0])]


def b_next(I, st, a, kw, node):
    out = []
    for x, segs, src in I.iter_segs(st, a[0], node):
        if not segs:
            if len(a) > 1:
                out.append((x, a[1]))
            else:
                I.raise_(x, "StopIteration", node)
            continue
        for i, g in enumerate(segs):
            y = x.copy()
            if isinstance(g, Seg):
                if i == len(segs) - 1 and len(a) > 1 and g.lo == 0:
                    out.append((y.copy(), a[1]))
                out += I.seg_elem(y, g, fresh("t"))
            else:
                out.append((y, g))
                break
    return out


def b_callable(I, st, a, kw, node):
    return [(st, K(isinstance(a[0], (Fn, Bound, Cls, Ext))))] if not isinstance(a[0], Opq) else \
        I.opq_bool(st, ("callable", ckey(a[0])), node)


def b_id(I, st, a, kw, node):
    return [(st, Opq(("id", ckey(a[0])), "num"))]


BUILTIN = {"str": b_str, "repr": b_repr, "float": b_float, "int": b_int, "round": b_round, "abs": b_abs,
           "min": minmax("min"), "max": minmax("max"), "len": b_len, "range": b_range, "list": conv("list"),
           "tuple": conv("tuple"), "set": conv("set"), "frozenset": conv("set"), "dict": b_dict, "dict.fromkeys": b_fromkeys, "sorted": b_sorted,
           "reversed": b_reversed, "enumerate": b_enumerate, "zip": b_zip, "map": b_map, "filter": b_filter,
           "any": anyall(True), "all": anyall(False), "sum": b_sum, "isinstance": b_isinstance, "hasattr": b_hasattr,
           "getattr": b_getattr, "setattr": b_setattr, "print": b_none, "type": b_type, "bool": b_bool, "iter": b_iter,
           "next": b_next, "callable": b_callable, "id": b_id}


# ------------------------------------------------------------------ numpy / math / decimal
def is_np(I, n):
    return n.kind


def m_sqrt(kindf):
    def f(I, st, a, kw, node):
        v = a[0]
        n = tonum(v)
        if n is None:
            return [(st, Opq(("sqrt", ckey(v)), "num", (v,)))]
        r = st.facts.norm(n.r)
        s = st.facts.sign(r)
        if s == frozenset((-1,)):
            if kindf == "dec":
                I.raise_(st, "InvalidOperation", node)
            elif kindf == "math":
                I.raise_(st, "ValueError", node)
            else:
                return [(st, Num(R.atom(fresh("nan")), "np", n.taint))]
            return []
        I.c.on_num(I, st, "sqrtarg", n, node)
        kind = {"dec": "dec", "math": "float", "np": "dec" if n.kind == "dec" else "np"}[kindf]
        w = n if kind == "dec" else (fl(I, n) if kindf == "math" else n)
        return [(st, Num(poly.sqrt(st.facts.norm(w.r)), kind, w.taint | n.taint))]
    return f


def m_fun(name, to=None):
    def f(I, st, a, kw, node):
        ns = [tonum(x) for x in a]
        if any(n is None for n in ns):
            return [(st, Opq((name,) + tuple(ckey(x) for x in a), "num", tuple(a)))]
        t = frozenset().union(*[n.taint for n in ns]) | {"float"}
        r = poly.fun(name, *[st.facts.norm(n.r) for n in ns])
        return [(st, Num(r, "float", t))]
    return f


def m_hypot(I, st, a, kw, node):
    ns = [tonum(x) for x in a]
    if any(n is None for n in ns):
        return None
    r = R.const(0)
    for n in ns:
        r = r + n.r * n.r
    return [(st, Num(poly.sqrt(st.facts.norm(r)), "float", frozenset().union(*[n.taint for n in ns]) | {"float"}))]


def np_array(I, st, a, kw, node):
    v = a[0]
    dt = kw.get("dtype") or (a[1] if len(a) > 1 else None)
    if isinstance(v, Vec):
        items = v.items
    else:
        try:
            seqs = I.iter_segs(st, v, node)
        except Unsupported:
            return None
        if len(seqs) != 1:
            return [(st, Opq(src=(v,)))]
        st, segs, _ = seqs[0]
        if any(isinstance(g, Seg) for g in segs):
            return [(st, st.mklist(segs))]
        items = segs
    out = []
    for x in items:
        n = tonum(x)
        if n is None:
            if x == NONE:
                I.raise_(st, "TypeError", node)
                return []
            out.append(x)
        elif dt is not None and isinstance(dt, Ext) and "float" in dt.path:
            out.append(fl(I, n, "np"))
        else:
            out.append(n if n.kind == "dec" else Num(n.r, "np", n.taint))
    return [(st, Vec(out))]


def vec_items(st, I, v, node):
    if isinstance(v, Vec):
        return v.items
    if isinstance(v, Tup):
        return v.items
    if isinstance(v, Ref) and st.obj(v).kind == "list":
        segs = st.get(v, "segs")
        if not any(isinstance(g, Seg) for g in segs):
            return segs
    return None


def np_dot(I, st, a, kw, node):
    xs, ys = vec_items(st, I, a[0], node), vec_items(st, I, a[1], node)
    if xs is None or ys is None or len(xs) != len(ys):
        return [(st, Opq(("dot", ckey(a[0]), ckey(a[1])), "num", tuple(a)))]
    cur = [(st, None)]
    for p, q in zip(xs, ys):
        nxt = []
        for x, acc in cur:
            for y, m in I.binop(x, "*", p, q, node):
                if acc is None:
                    nxt.append((y, m))
                else:
                    nxt += I.binop(y, "+", acc, m, node)
        cur = nxt
    return [(x, v if v is not None else K(0)) for x, v in cur]


def np_cross(I, st, a, kw, node):
    xs, ys = vec_items(st, I, a[0], node), vec_items(st, I, a[1], node)
    if xs is None or ys is None or len(xs) != 2 or len(ys) != 2:
        return [(st, Opq(typ="num", src=tuple(a)))]
    n = [tonum(v) for v in (*xs, *ys)]
    if any(v is None for v in n):
        return [(st, Opq(typ="num", src=tuple(a)))]
    out = []
    for x, p in I.num_op(st, "*", n[0], n[3], node):
        for y, q in I.num_op(x, "*", n[1], n[2], node):
            out += I.num_op(y, "-", p, q, node)
    return out


def np_arg(name):
    def f(I, st, a, kw, node):
        v = a[0]
        if isinstance(v, Opq):
            return [(st, Index(v.key, fresh("t"), (name, v)))]
        out = []
        for x, segs, src in I.iter_segs(st, v, node):
            if not segs:
                I.raise_(x, "ValueError", node)
                continue
            if not any(isinstance(g, Seg) for g in segs):
                for i in range(len(segs)):
                    y = x.copy()
                    # segs[i] is extremal
                    ok = True
                    ni = tonum(segs[i])
                    if ni is not None:
                        for j, w in enumerate(segs):
                            nj = tonum(w)
                            if nj is not None and j != i:
                                ok = ok and y.facts.assume(ni.r - nj.r, frozenset((0, 1)) if name == "argmax" else frozenset((-1, 0)))
                    if ok:
                        out.append((y, K(i)))
                continue
            tok = fresh("t")
            shape = I.shape_of(x, src) if src is not None else fresh("sh")
            # touch the chosen element so that the facts its filter established are available
            I.c.on_num(I, x, name, v, node)
            out.append((x, Index(shape, tok, (name, v))))
        return out
    return f


def np_roll(I, st, a, kw, node):
    xs = vec_items(st, I, a[0], node)
    if xs is None or not (isinstance(a[1], K) and isinstance(a[1].v, int)):
        return [(st, Opq(src=tuple(a)))]
    k = a[1].v % len(xs) if xs else 0
    xs = list(xs)
    return [(st, Vec(xs[-k:] + xs[:-k] if k else xs))]


def np_norm(I, st, a, kw, node):
    xs = vec_items(st, I, a[0], node)
    if xs is None:
        return None
    r = R.const(0)
    t = frozenset()
    for v in xs:
        n = tonum(v)
        if n is None:
            return None
        r = r + n.r * n.r
        t |= n.taint
    return [(st, Num(poly.sqrt(r), "np", t))]


def heappush(I, st, a, kw, node):
    I.c.on_list(I, st, a[0], "heappush", [a[1]], node)
    segs = I.as_segs(st, a[0])
    if segs is None:
        return None
    I.write(st, a[0], "segs", segs + (a[1],), node)
    return [(st, NONE)]


def heappop(I, st, a, kw, node):
    segs = I.as_segs(st, a[0])
    if segs is None:
        return None
    out = []
    for g in I.distinct_segs(segs):
        y = st.copy()
        for z, v in (I.seg_elem(y, g, fresh("t")) if isinstance(g, Seg) else [(y, g)]):
            rest = tuple(q for q in segs if isinstance(q, Seg) or q != v)
            I.c.on_list(I, z, a[0], "heappop", [v], node)
            I.write(z, a[0], "segs", rest, node)
            out.append((z, v))
    return out


def identity(I, st, a, kw, node):
    return [(st, a[0])]


def c_copy(I, st, a, kw, node):
    v = a[0]
    if isinstance(v, Ref):
        o = st.obj(v)
        if not o.lazy:
            return [(st, st.new(Obj(o.kind, o.cls, dict(o.fields), None, o.meta), "c"))]
        return [(st, Opq(src=(v,)))]
    return [(st, v)]


def c_deque(I, st, a, kw, node):
    return conv("list")(I, st, a, kw, node)


def dec_sqrt_ctx(I, st, a, kw, node):
    return m_sqrt("dec")(I, st, a, kw, node)


EXT = {"decimal.getcontext": lambda I, st, a, kw, node: [(st, Opq(typ="context"))],
       "decimal.Decimal": b_decimal, "decimal.Decimal.sqrt": m_sqrt("dec"), "decimal.Decimal.from_float": b_decimal,
       "math.sqrt": m_sqrt("math"), "sqrt": m_sqrt("np"),
       "math.atan2": m_fun("atan2"), "arctan2": m_fun("atan2"), "math.math.atan2": m_fun("atan2"),
       "math.degrees": m_fun("degrees"), "degrees": m_fun("degrees"), "rad2deg": m_fun("degrees"),
       "math.math.degrees": m_fun("degrees"), "numpy.math.degrees": m_fun("degrees"), "numpy.math.atan2": m_fun("atan2"),
       "numpy.math.sqrt": m_sqrt("math"), "math.cos": m_fun("cos"), "math.sin": m_fun("sin"), "math.floor": m_fun("floor"),
       "math.ceil": m_fun("ceil"), "floor": m_fun("floor"), "math.hypot": m_hypot, "hypot": m_hypot,
       "math.isclose": None, "math.fabs": b_abs, "abs": b_abs, "absolute": b_abs, "math.pow": None,
       "array": np_array, "asarray": np_array, "dot": np_dot, "inner": np_dot, "cross": np_cross,
       "argmin": np_arg("argmin"), "argmax": np_arg("argmax"), "roll": np_roll, "linalg.norm": np_norm,
       "heapq.heappush": heappush, "heapq.heappop": heappop, "heapq.heapify": b_none,
       "copy.copy": c_copy, "collections.deque": c_deque, "warnings.warn": b_none, "float64": b_float,
       "numpy.min": minmax("min"), "numpy.max": minmax("max"), "math.fsum": b_sum, "numpy.sum": b_sum}
EXT = {k: v for k, v in EXT.items() if v is not None}


# ------------------------------------------------------------------ methods
def value_method(I, st, v, name, args, kw, node):
    n = tonum(v)
    if n is not None:
        if name == "sqrt":
            return m_sqrt("dec")(I, st, [v], {}, node)
        if name in ("copy_abs", "__abs__"):
            return b_abs(I, st, [v], {}, node)
        if name in ("quantize", "normalize", "__round__", "to_integral_value", "__floor__"):
            return [(st, Num(poly.fun("round", n.r, name), n.kind, n.taint | {"round"}))]
        if name in ("is_nan", "is_infinite", "is_finite", "is_zero", "is_signed"):
            if name == "is_zero":
                return [(x, r) for x, r in I.num_compare(st, ast.Eq, n, Num(R.const(0)), node)]
            if name == "is_infinite":
                return [(st, K(poly.INF in n.r.atoms()))]
            if name == "is_finite":
                return [(st, K(poly.INF not in n.r.atoms()))]
            return [(st, FALSE)]
        if name == "compare":
            return None
    if isinstance(v, K) and isinstance(v.v, str):
        if name in STR_FOLD and not kw and I.c.strings:
            xs = [x.v if isinstance(x, K) and isinstance(x.v, (str, int)) else None for x in args]
            if name == "join" and len(args) == 1:
                xs = [items_of(st, args[0])]
                xs = [[x.v for x in xs[0]] if xs[0] is not None and all(isinstance(x, K) and isinstance(x.v, str) for x in xs[0]) else None]
            if None not in xs:
                try:
                    r = getattr(v.v, name)(*xs)
                    return [(st, K(r))]
                except (TypeError, ValueError):
                    pass
        if name == "format" and not kw and I.c.strings:
            t = I.fill(st, v.v, args, node)
            if t is not None:
                return t
        if name == "format" and v.v in ("{}", "{0}") and len(args) == 1 and is_numlike(args[0]) and not I.c.strings:
            return [(st, strof(args[0]))]
        return [(st, Opq(typ="str", src=tuple(args)))]
    if isinstance(v, Opq) and v.typ == "strof" and name in ("strip", "lstrip", "rstrip") and not args:
        return [(st, v)]
    if isinstance(v, Opq) and v.typ == "context" and name == "create_decimal":
        return [(x, Num(r.r, r.kind, r.taint | CONTEXT) if isinstance(r, Num) else r) for x, r in b_decimal(I, st, args, kw, node) or ()] or None
    if isinstance(v, Opq) and v.typ in ("str", "strof"):
        return [(st, Opq(typ="str", src=tuple(args)))]
    if isinstance(v, Vec):
        if name == "dot":
            return np_dot(I, st, [v] + args, {}, node)
        if name in ("tolist", "copy"):
            return [(st, st.mklist(v.items))]
        if name == "astype":
            return [(st, v)]
    if isinstance(v, Tup) and name in ("index", "count"):
        return [(st, Opq(typ="num"))]
    return None


STR_FOLD = {"join", "ljust", "rjust", "center", "strip", "lstrip", "rstrip", "upper", "lower", "replace", "zfill", "removeprefix", "removesuffix", "capitalize", "title"}


def items_of(st, v):
    """the elements of a list or tuple of known length"""
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Ref) and st.obj(v).kind == "list":
        segs = st.obj(v).fields["segs"]
        return None if any(isinstance(g, Seg) for g in segs) else list(segs)
    return None


def list_method(I, st, ref, name, args, kw, node):
    o = st.obj(ref)
    segs = o.fields["segs"]
    W = lambda s, new: I.write(s, ref, "segs", tuple(new), node)
    if o.kind == "set":
        if name == "add":
            I.c.on_list(I, st, ref, "add", args, node)
            if args[0] not in [g for g in segs if not isinstance(g, Seg)]:
                W(st, segs + (args[0],))
            return [(st, NONE)]
        if name in ("discard", "remove"):
            I.c.on_list(I, st, ref, "remove", args, node)
            return remove_from(I, st, ref, args[0], node, strict=name == "remove")
        if name in ("update", "union"):
            out = []
            new = list(segs)
            for a in args:
                for x, s2, _ in I.iter_segs(st, a, node):
                    st = x
                    new += list(s2)
            new = I.distinct_segs(new)
            if name == "union":
                return [(st, st.mklist(new, "set"))]
            I.c.on_list(I, st, ref, "extend", list(new[len(segs):]), node)
            W(st, new)
            return [(st, NONE)]
        if name == "copy":
            return [(st, st.mklist(segs, "set"))]
        if name in ("difference", "intersection"):
            return [(st, st.mklist((Seg(pick_maker(I.distinct_segs(segs))),), "set"))]
    if name == "append":
        I.c.on_list(I, st, ref, "add", args, node)
        W(st, segs + (args[0],))
        return [(st, NONE)]
    if name == "appendleft":
        I.c.on_list(I, st, ref, "add", args, node)
        W(st, (args[0],) + segs)
        return [(st, NONE)]
    if name in ("extend", "__iadd__"):
        out = []
        for x, s2, _ in I.iter_segs(st, args[0], node):
            I.c.on_list(I, x, ref, "extend", list(s2), node)
            I.write(x, ref, "segs", x.get(ref, "segs") + tuple(s2), node)
            out.append((x, NONE))
        return out
    if name == "insert":
        I.c.on_list(I, st, ref, "add", args[1:], node)
        if isinstance(args[0], K) and isinstance(args[0].v, int) and not any(isinstance(g, Seg) for g in segs):
            l = list(segs)
            l.insert(args[0].v, args[1])
            W(st, l)
        elif args[0] == K(0):
            W(st, (args[1],) + segs)
        else:
            W(st, segs + (args[1],))
        return [(st, NONE)]
    if name == "remove":
        I.c.on_list(I, st, ref, "remove", args, node)
        return remove_from(I, st, ref, args[0], node)
    if name in ("pop", "popleft"):
        i = args[0].v if args and isinstance(args[0], K) else (0 if name == "popleft" else -1)
        if not segs:
            I.raise_(st, "IndexError", node)
            return []
        exact = not any(isinstance(g, Seg) for g in segs)
        if not args or isinstance(args[0], K):
            end = segs[i] if -len(segs) <= i < len(segs) else None
            if end is None and exact:
                I.raise_(st, "IndexError", node)
                return []
            if end is not None and not isinstance(end, Seg) and (exact or (i == -1) or (i == 0)):
                I.c.on_list(I, st, ref, "pop", [end], node)
                l = list(segs)
                del l[i]
                W(st, l)
                return [(st, end)]
        out = []
        for g in I.distinct_segs(segs):
            y = st.copy()
            for z, v in (I.seg_elem(y, g, fresh("t")) if isinstance(g, Seg) else [(y, g)]):
                I.c.on_list(I, z, ref, "pop", [v], node)
                I.write(z, ref, "segs", tuple(q for q in segs if isinstance(q, Seg) or q != v), node)
                out.append((z, v))
        return out
    if name == "clear":
        I.c.on_list(I, st, ref, "clear", list(segs), node)
        W(st, ())
        return [(st, NONE)]
    if name == "copy":
        return [(st, st.mklist(segs, o.kind))]
    if name in ("sort", "reverse"):
        I.c.on_list(I, st, ref, name, [], node)
        if name == "sort":
            b_sorted(I, st.copy(), [ref], kw, node)
        if len(segs) > 1 or any(isinstance(g, Seg) for g in segs):
            lo = sum((g.lo if isinstance(g, Seg) else 1) for g in segs)
            W(st, (Seg(pick_maker(I.distinct_segs(segs)), lo=lo),))
        return [(st, NONE)]
    if name == "index":
        for i, g in enumerate(segs):
            if isinstance(g, Seg):
                break
            if g == args[0]:
                return [(st, K(i))]
        tok = None
        for (k, t), v in [(k, v) for k, v in st.elem.items() if isinstance(k, tuple) and len(k) == 2]:
            if v == args[0] and any(isinstance(g, Seg) and g.sid == k for g in segs):
                tok = t
        return [(st, Index(I.shape_of(st, ref), tok or fresh("t")))]
    if name in ("count", "__len__"):
        return b_len(I, st, [ref], {}, node) if name == "__len__" else [(st, Opq(typ="num"))]
    if name == "__contains__":
        return [(x, K(b)) for x, b in I.contains(st, args[0], ref, node)]
    if name in ("__iter__",):
        return [(st, ref)]
    # numpy-like use of a symbolic array
    return [(st, Opq(f"{ref.oid}.{name}()#{fresh()}", src=(ref,) + tuple(args)))]


def remove_from(I, st, ref, v, node, strict=True):
    segs = st.get(ref, "segs")
    for i, g in enumerate(segs):
        if not isinstance(g, Seg) and g == v:
            I.write(st, ref, "segs", segs[:i] + segs[i + 1:], node)
            return [(st, NONE)]
    if any(isinstance(g, Seg) for g in segs):
        st.heap[ref.oid] = st.obj(ref).with_field("removed", tuple(st.obj(ref).fields.get("removed") or ()) + (v,))
        w = st.ghost.get("#written", frozenset())
        st.ghost["#written"] = w | {(ref.oid, "removed")}
        return [(st, NONE)]
    if strict:
        I.raise_(st, "ValueError", node)
        return []
    return [(st, NONE)]


def dict_method(I, st, ref, name, args, kw, node):
    o = st.obj(ref)
    items = o.fields.get("items", ())
    if name == "update":
        new = dict((ckey(k), (k, v)) for k, v in items)
        opened = o.fields.get("open")
        srcs = list(args)
        for a in srcs:
            if isinstance(a, Ref) and st.obj(a).kind == "dict":
                for k, v in st.get(a, "items") or ():
                    new[ckey(k)] = (k, v)
                opened = opened or st.obj(a).fields.get("open")
            else:
                opened = True
        for k, v in kw.items():
            if k == "**":
                opened = True
            else:
                new[ckey(K(k))] = (K(k), v)
        I.write(st, ref, "items", tuple(new.values()), node)
        if opened:
            I.write(st, ref, "open", True, node)
        return [(st, NONE)]
    if name == "get":
        for k, v in items:
            if ckey(k) == ckey(args[0]):
                return [(st, v)]
        if o.fields.get("open"):
            return [(st, Opq(f"{ref.oid}[{ckey(args[0])}]"))]
        return [(st, args[1] if len(args) > 1 else NONE)]
    if name == "items":
        return [(st, st.mklist([Tup((k, v)) for k, v in items]))]
    if name == "keys":
        return [(st, st.mklist([k for k, v in items]))]
    if name == "values":
        return [(st, st.mklist([v for k, v in items]))]
    if name == "copy":
        return [(st, st.new(Obj("dict", fields=dict(o.fields)), "d"))]
    if name == "setdefault":
        for k, v in items:
            if ckey(k) == ckey(args[0]):
                return [(st, v)]
        d = args[1] if len(args) > 1 else NONE
        I.write(st, ref, "items", items + ((args[0], d),), node)
        return [(st, d)]
    if name == "pop":
        for k, v in items:
            if ckey(k) == ckey(args[0]):
                I.write(st, ref, "items", tuple((p, q) for p, q in items if ckey(p) != ckey(args[0])), node)
                return [(st, v)]
        return [(st, args[1] if len(args) > 1 else Opq())]
    return [(st, Opq(src=(ref,)))]


def pq_method(I, st, ref, name, args, kw, node):
    r = I.c.on_ext(I, st, f"pq.{name}", [ref] + args, kw, node)
    if r is not None:
        return r
    segs = st.get(ref, "segs") or ()
    if name in ("put", "put_nowait"):
        I.c.on_list(I, st, ref, "put", args[:1], node)
        I.write(st, ref, "segs", segs + (args[0],), node)
        return [(st, NONE)]
    if name in ("get", "get_nowait"):
        out = []
        block = next((v for k, v in kw.items() if k == "block"), args[0] if args else TRUE)
        if name == "get_nowait" or (isinstance(block, K) and not block.v) or "timeout" in kw or len(args) > 1:
            if not any(not isinstance(g, Seg) for g in segs):
                I.raise_(st.copy(), "Empty", node)
        for g in I.distinct_segs(segs):
            y = st.copy()
            for z, v in (I.seg_elem(y, g, fresh("t")) if isinstance(g, Seg) else [(y, g)]):
                I.c.on_list(I, z, ref, "get", [v], node)
                I.write(z, ref, "segs", tuple(q for q in segs if isinstance(q, Seg) or q != v), node)
                out.append((z, v))
        return out
    if name == "empty":
        if any(not isinstance(g, Seg) for g in segs):
            return [(st, FALSE)]
        if not segs:
            return [(st, TRUE)]
        return I.opq_bool(st, ("empty", ref.oid, fresh()), node)
    if name == "qsize":
        return b_len(I, st, [ref], {}, node)
    return [(st, Opq(src=(ref,)))]
