"""Rational normal forms over named atoms.

A value is a quotient of two polynomials with rational coefficients over *atoms*.
An atom is either a free symbol ("p.x") or an uninterpreted application that is
interned here (sqrt, abs, min, atan2, ...).  `sqrt` atoms satisfy S*S = argument,
which is applied during normalisation.  Equality of two values is decided by
cross-multiplication, so no gcd is needed.
"""
from fractions import Fraction

ONE_M = ()


def _c(c):
    """rational coefficient; whole numbers are kept as int (faster)"""
    if type(c) is int:
        return c
    c = Fraction(c)
    return c.numerator if c.denominator == 1 else c


class Poly:
    __slots__ = ("t", "_h", "_k")

    def __init__(self, t=None):
        self.t = t if t is not None else {}
        self._h = None
        self._k = None

    @staticmethod
    def const(c):
        c = _c(c)
        return Poly({ONE_M: c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): 1})

    def is_const(self):
        return all(m == ONE_M for m in self.t)

    def const_value(self):
        return Fraction(self.t.get(ONE_M, 0))

    def is_zero(self):
        return not self.t

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        c = _c(c)
        if c == 1:
            return self
        return Poly({m: _c(v * c) for m, v in self.t.items()}) if c else Poly()

    def __mul__(self, o):
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2)
                n = t.get(m, 0) + c1 * c2
                if n:
                    t[m] = n
                else:
                    t.pop(m, None)
        return Poly(t)

    def __pow__(self, n):
        r = Poly.const(1)
        for _ in range(n):
            r = r * self
        return r

    def degree_in(self, a):
        return max((e for m in self.t for b, e in m if b == a), default=0)

    def coeffs_in(self, a):
        """{exponent: Poly in the other atoms}"""
        out = {}
        for m, c in self.t.items():
            e = 0
            rest = []
            for b, k in m:
                if b == a:
                    e = k
                else:
                    rest.append((b, k))
            out.setdefault(e, {})[tuple(rest)] = c
        return {e: Poly(t) for e, t in out.items()}

    def primitive(self):
        """(canonical polynomial, positive-or-negative rational factor)"""
        if not self.t:
            return self, Fraction(1)
        lead = min(self.t)  # any canonical choice
        c = self.t[lead]
        return self.scale(Fraction(1) / c), c

    def mono_content(self):
        """largest monomial dividing every term"""
        it = iter(self.t)
        try:
            common = dict(next(it))
        except StopIteration:
            return ONE_M
        for m in it:
            d = dict(m)
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
            if not common:
                return ONE_M
        return tuple(sorted(common.items()))

    def div_mono(self, mono):
        if not mono:
            return self
        d = dict(mono)
        t = {}
        for m, c in self.t.items():
            t[tuple((a, e - d.get(a, 0)) for a, e in m if e - d.get(a, 0))] = c
        return Poly(t)

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda i: (-sum(e for _, e in i[0]), i[0])):
            s = "*".join(show_atom(a) + (f"^{e}" if e > 1 else "") for a, e in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = f"{c}*{s}"
            out.append(s)
        return " + ".join(out).replace("+ -", "- ")


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def poly_div(p, q):
    """exact quotient p/q or None (multivariate, lexicographic leading terms)"""
    if q.is_zero():
        return None
    if q.is_const():
        return p.scale(1 / q.const_value())
    atoms = sorted(q.atoms() | p.atoms())
    idx = {a: i for i, a in enumerate(atoms)}

    def lk(m):
        v = [0] * len(atoms)
        for a, e in m:
            v[idx[a]] = e
        return tuple(v)
    lq = max(q.t, key=lk)
    cq = q.t[lq]
    dq = dict(lq)
    rem = Poly(dict(p.t))
    quo = {}
    steps = 0
    while rem.t:
        lm = max(rem.t, key=lk)
        d = dict(lm)
        for a, e in dq.items():
            if d.get(a, 0) < e:
                return None
            d[a] -= e
        m = tuple(sorted((a, e) for a, e in d.items() if e))
        c = _c(Fraction(rem.t[lm]) / cq)
        quo[m] = quo.get(m, 0) + c
        rem = rem - q * Poly({m: c})
        steps += 1
        if steps > 400:
            return None
    return Poly(quo)


# ---------------------------------------------------------------- atoms
INTERN = {}          # key -> atom name
ATOM = {}            # atom name -> ("sqrt", R) / ("fun", name, args)
INF = "INF"


def show_atom(a):
    d = ATOM.get(a)
    if d is None:
        return a
    if d[0] == "sqrt":
        return f"sqrt({d[1]!r})"
    return f"{d[1]}({', '.join(map(repr, d[2]))})"


class R:
    """num/den, normalised"""
    __slots__ = ("n", "d", "_h")

    def __init__(self, n, d=None, norm=True):
        self._h = None
        if d is None:
            d = POLY1
        if norm:
            n, d = normal(n, d)
        self.n, self.d = n, d

    @staticmethod
    def const(c):
        return R(Poly.const(c), None, False)

    @staticmethod
    def atom(a):
        return R(Poly.atom(a), None, False)

    def is_const(self):
        return self.n.is_const() and self.d.is_const()

    def const_value(self):
        return self.n.const_value() / self.d.const_value()

    def is_zero(self):
        return self.n.is_zero()

    def atoms(self):
        return self.n.atoms() | self.d.atoms()

    def deep_atoms(self):
        """free symbols, looking through applications"""
        out, todo = set(), list(self.atoms())
        seen = set()
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            d = ATOM.get(a)
            if d is None:
                out.add(a)
            elif d[0] == "sqrt":
                todo += d[1].atoms()
            else:
                for x in d[2]:
                    todo += x.atoms() if isinstance(x, R) else []
        return out

    def __add__(self, o):
        if self.d == o.d:
            return R(self.n + o.n, self.d)
        return R(self.n * o.d + o.n * self.d, self.d * o.d)

    def __neg__(self):
        return R(-self.n, self.d, False)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return R(self.n * o.n, self.d * o.d)

    def __truediv__(self, o):
        return R(self.n * o.d, self.d * o.n)

    def __pow__(self, k):
        if k < 0:
            return R(self.d ** -k, self.n ** -k)
        return R(self.n ** k, self.d ** k)

    def eq(self, o):
        return (self - o).is_zero()

    def key(self):
        return (self.n.key(), self.d.key())

    def __eq__(self, o):
        return isinstance(o, R) and self.n == o.n and self.d == o.d

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.n, self.d))
        return self._h

    def subst(self, m):
        """replace atoms by R values (deeply, through applications)"""
        return psub(self.n, m) / psub(self.d, m)

    def __repr__(self):
        return repr(self.n) if self.d == POLY1 else f"({self.n!r})/({self.d!r})"


POLY1 = Poly.const(1)


def psub(p, m):
    out = R.const(0)
    for mono, c in p.t.items():
        term = R.const(c)
        for a, e in mono:
            term = term * (asub(a, m) ** e)
        out = out + term
    return out


def asub(a, m):
    if a in m:
        return m[a]
    d = ATOM.get(a)
    if d is None:
        return R.atom(a)
    if d[0] == "sqrt":
        return sqrt(d[1].subst(m))
    return fun(d[1], *[x.subst(m) if isinstance(x, R) else x for x in d[2]])


def normal(n, d):
    # apply S*S = argument
    for _ in range(50):
        todo = None
        for p in (n, d):
            for m in p.t:
                for a, e in m:
                    if e >= 2 and a in ATOM and ATOM[a][0] == "sqrt":
                        todo = a
        if todo is None:
            break
        arg = ATOM[todo][1]
        n1, d1 = reduce_sq(n, todo, arg)
        n2, d2 = reduce_sq(d, todo, arg)
        n, d = n1 * d2, d1 * n2
    if d.is_zero():
        return n, d
    if n.is_zero():
        return n, POLY1
    # monomial content
    mc = dict(n.mono_content())
    md = dict(d.mono_content())
    common = tuple(sorted((a, min(e, md[a])) for a, e in mc.items() if a in md))
    if common:
        n, d = n.div_mono(common), d.div_mono(common)
    if d.is_const():
        return n.scale(1 / d.const_value()), POLY1
    if len(d.t) <= 40 and len(n.t) <= 400:
        q = poly_div(n, d)
        if q is not None:
            return q, POLY1
        if n.is_const() is False and len(n.t) <= 40:
            q = poly_div(d, n)
            if q is not None:
                return normal(POLY1, q)
    d2, c = d.primitive()
    return n.scale(Fraction(1) / c), d2


def reduce_sq(p, a, arg):
    """p with a^2 := arg; returns (num, den)"""
    co = p.coeffs_in(a)
    top = max(co) // 2
    num = Poly()
    for e, c in co.items():
        k = e // 2
        term = c * (arg.n ** k) * (arg.d ** (top - k))
        if e % 2:
            term = term * Poly.atom(a)
        num = num + term
    return num, arg.d ** top


def _isqrt_fraction(c):
    from math import isqrt
    if c < 0:
        return None
    a, b = isqrt(c.numerator), isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def sqrt(r):
    if r.is_const():
        s = _isqrt_fraction(r.const_value())
        if s is not None:
            return R.const(s)
    # canonical: pull the positive rational square content out when possible
    key = ("sqrt", r.key())
    if key not in INTERN:
        name = f"√{len(INTERN)}"
        INTERN[key] = name
        ATOM[name] = ("sqrt", r)
    return R.atom(INTERN[key])


def fun(name, *args):
    if name == "abs" and args[0].is_const():
        return R.const(abs(args[0].const_value()))
    if name == "abs":
        # |−p| = |p|
        n, c = args[0].n.primitive()
        if c < 0:
            args = (-args[0],)
        a = args[0]
        if a.d == POLY1 and len(a.n.t) == 1:
            (m, c), = a.n.t.items()
            if len(m) == 1 and m[0][1] == 1 and ATOM.get(m[0][0], ("",))[0] == "sqrt" and c > 0:
                return a
    if name in ("min", "max"):
        args = tuple(sorted(set(args), key=lambda r: r.key()))
        if len(args) == 1:
            return args[0]
        if all(a.is_const() for a in args):
            return R.const((min if name == "min" else max)(a.const_value() for a in args))
    key = (name,) + tuple(a.key() if isinstance(a, R) else a for a in args)
    if key not in INTERN:
        nm = f"f{len(INTERN)}"
        INTERN[key] = nm
        ATOM[nm] = ("fun", name, args)
    return R.atom(INTERN[key])


# ---------------------------------------------------------------- signs
NEG, ZER, POS = -1, 0, 1
ANY = frozenset((-1, 0, 1))
FLIP = {frozenset(s): frozenset(-x for x in s) for s in
        [(), (-1,), (0,), (1,), (-1, 0), (0, 1), (-1, 1), (-1, 0, 1)]}


def smul(a, b):
    return frozenset(x * y for x in a for y in b)


def sadd(a, b):
    out = set()
    for x in a:
        for y in b:
            if x == 0:
                out.add(y)
            elif y == 0 or x == y:
                out.add(x)
            else:
                return ANY
    return frozenset(out)


class Facts:
    """known signs of canonical polynomials, plus linear substitutions"""
    __slots__ = ("f", "s")

    def __init__(self, f=None, s=None):
        self.f = f or {}
        self.s = s or {}

    def copy(self):
        return Facts(dict(self.f), dict(self.s))

    def norm(self, r):
        if not self.s:
            return r
        for _ in range(8):
            if not (r.deep_atoms() & self.s.keys()):
                return r
            r = r.subst(self.s)
        return r

    def atom_sign(self, a):
        if a == INF:
            return frozenset((1,))
        d = ATOM.get(a)
        base = ANY
        if d is not None and (d[0] == "sqrt" or d[1] in ("abs", "norm")):
            base = frozenset((0, 1))
        p = Poly.atom(a)
        if p in self.f:
            base = base & self.f[p]
        if d is not None and d[0] == "sqrt" and base == frozenset((0, 1)):
            s = self.psign(d[1].n)
            if 0 not in smul(s, self.psign(d[1].d)):
                base = frozenset((1,))
        return base

    def mono_sign(self, m):
        s = frozenset((1,))
        for a, e in m:
            x = self.atom_sign(a)
            if e % 2 == 0:
                x = frozenset(abs(v) for v in x)
            s = smul(s, x)
        return s

    def psign(self, p, depth=0):
        if p.is_zero():
            return frozenset((0,))
        if p.is_const():
            return frozenset((1 if p.const_value() > 0 else -1,))
        # infinities dominate
        if INF in p.atoms():
            co = p.coeffs_in(INF)
            return self.psign(co[max(co)])
        mono = p.mono_content()
        s = frozenset((1,))
        if mono:
            s = self.mono_sign(mono)
            p = p.div_mono(mono)
            if p.is_const():
                return smul(s, self.psign(p))
        prim, c = p.primitive()
        cs = frozenset((1 if c > 0 else -1,))
        known = self.f.get(prim, ANY)
        if len(known) > 1:
            tot = frozenset((0,))
            for m, k in prim.t.items():
                tot = sadd(tot, smul(self.mono_sign(m), frozenset((1 if k > 0 else -1,))))
                if tot == ANY:
                    break
            known = known & tot if (known & tot) else known
        if len(known) > 1 and depth == 0:
            # constant offset: q = prim + k with known sign
            c0 = prim.t.get(ONE_M, Fraction(0))
            for q, sg in self.f.items():
                if len(sg) == 3 or len(q.t) not in (len(prim.t), len(prim.t) - 1, len(prim.t) + 1):
                    continue
                for cand, ssg in ((q, sg), (-q, FLIP[sg])):
                    diff = prim - cand
                    if diff.is_const():
                        k = diff.const_value()
                        known = known & sadd(ssg, frozenset(((k > 0) - (k < 0),))) or known
        if len(known) > 1 and depth == 0 and len(prim.t) == 2:
            # difference of squares a^2 - b^2 with a+b of known sign: sign of a-b
            pass
        return smul(smul(s, cs), known)

    def sign(self, r):
        r = self.norm(r)
        if r.is_const():
            v = r.const_value()
            return frozenset(((v > 0) - (v < 0),))
        return smul(self.psign(r.n), frozenset(x for x in self.psign(r.d) if x) or ANY)

    def assume(self, r, signs):
        """returns False when inconsistent"""
        r = self.norm(r)
        cur = self.sign(r)
        new = cur & signs
        if not new:
            return False
        if r.is_const():
            return True
        dsg = frozenset(x for x in self.psign(r.d) if x)
        if r.d.is_const() or len(dsg) == 1:
            ns = smul(new, dsg) if not r.d.is_const() else new
            self._assume_poly(r.n, ns)
        elif new == frozenset((0,)):
            self._assume_poly(r.n, new)
        else:
            self._assume_poly(r.n * r.d, new)
        return True

    def _assume_poly(self, p, signs):
        mono = p.mono_content()
        if mono:
            ms = self.mono_sign(mono)
            if len(ms) == 1 and ms != frozenset((0,)):
                p = p.div_mono(mono)
                signs = smul(signs, ms)
            elif 0 not in signs:
                # every factor is nonzero
                for a, e in mono:
                    q = Poly.atom(a)
                    self.f[q] = self.f.get(q, self.atom_sign(a)) - {0}
                ms = self.mono_sign(mono)
                if len(ms) == 1:
                    p = p.div_mono(mono)
                    signs = smul(signs, ms)
                if p.is_const():
                    if len(mono) == 1 and mono[0][1] % 2:
                        q = Poly.atom(mono[0][0])
                        self.f[q] = self.f.get(q, ANY) & smul(signs, self.psign(p)) or self.f[q]
                    return
        if p.is_const():
            return
        prim, c = p.primitive()
        if c < 0:
            signs = FLIP[frozenset(signs)]
        self.f[prim] = self.f.get(prim, ANY) & signs
        if self.f[prim] == frozenset((0,)):
            self._learn_zero(prim)

    def _learn_zero(self, p):
        # solve for an atom that occurs linearly with a constant coefficient
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0] not in ATOM and m[0][0] != INF:
                a = m[0][0]
                if all(a not in dict(mm) for mm in p.t if mm != m):
                    # prefer the lexically largest atom: stable orientation
                    deep = set()
                    for b in p.atoms() - {a}:
                        deep |= R.atom(b).deep_atoms()
                    if a in deep:
                        continue
                    if best is None or a > best[0]:
                        best = (a, c)
        if best is None:
            return
        a, c = best
        rest = Poly({m: v for m, v in p.t.items() if m != ((a, 1),)})
        val = R(rest.scale(Fraction(-1) / c), POLY1, False)
        val = self.norm(val)
        if a in val.deep_atoms():
            return
        self.s = {k: v.subst({a: val}) for k, v in self.s.items()}
        self.s[a] = val
        old, self.f = self.f, {}
        for q, sg in old.items():
            r = R(q, POLY1, False)
            if r.deep_atoms() & self.s.keys():
                r = self.norm(r)
                if r.is_const():
                    continue
                self._assume_poly_raw(r.n, sg)
            else:
                self.f[q] = self.f.get(q, ANY) & sg

    def _assume_poly_raw(self, p, sg):
        prim, c = p.primitive()
        if c < 0:
            sg = FLIP[frozenset(sg)]
        self.f[prim] = self.f.get(prim, ANY) & sg
