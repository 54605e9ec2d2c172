"""Def-use webs of local variables.

A local that is given unrelated values in different places is several variables: each maximal set of assignments
and uses joined by a path without an assignment in between is one web.  `mark(func)` leaves the web's name on every
Name node of the function (attribute `_web`): the variable's own name for the web of a parameter and for variables
other functions see.
"""
import ast

SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


class Webs:
    def __init__(self, locals_, params, body):
        self.locals = locals_
        self.up = {}
        self.node = {}                  # def id -> (name, node)
        self.uses = []                  # (node, defs)
        self.loops = []
        self.shared = set(self.inner(body))
        env = {}
        for p in params:
            env[p] = frozenset({self.define(p, ("param", p))})
        self.block(body, env)

    # names other scopes see, or that are bound by something else than a Name node
    def inner(self, body):
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, SCOPES):
                    if not isinstance(n, ast.Lambda):
                        yield n.name
                    own = set()
                    if not isinstance(n, ast.ClassDef):
                        a = n.args
                        own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
                        own |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    for x in ast.walk(n):
                        if isinstance(x, ast.Name) and x.id not in own:
                            yield x.id
                        elif isinstance(x, (ast.Global, ast.Nonlocal)):
                            yield from x.names
                if isinstance(n, COMPS):
                    for g in n.generators:
                        for x in ast.walk(g.target):
                            if isinstance(x, ast.Name):
                                yield x.id
                if isinstance(n, ast.ExceptHandler) and n.name:
                    yield n.name
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        yield (a.asname or a.name).split(".")[0]
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    yield from n.names
                if isinstance(n, ast.NamedExpr):
                    yield n.target.id
                if isinstance(n, (ast.Delete, ast.Match)):
                    for x in ast.walk(n):
                        if isinstance(x, ast.Name):
                            yield x.id

    def define(self, name, key):
        self.up.setdefault(key, key)
        self.node.setdefault(key, name)
        return key

    def find(self, k):
        while self.up[k] != k:
            self.up[k] = self.up[self.up[k]]
            k = self.up[k]
        return k

    def join(self, *ks):
        ks = [self.find(k) for k in ks]
        for k in ks[1:]:
            self.up[k] = ks[0]

    # ------------------------------------------------------------ flow
    def use(self, e, env):
        if e is None:
            return
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in self.shared:
                ds = env.get(n.id, frozenset())
                self.uses.append((n, ds))
                if ds:
                    self.join(*ds)

    def store(self, t, env):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in self.shared:
                env[n.id] = frozenset({self.define(n.id, n)})
            elif isinstance(n, ast.Name):
                self.use(n, env)

    @staticmethod
    def merge(*envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return None
        out = {}
        for e in envs:
            for k, v in e.items():
                out[k] = out.get(k, frozenset()) | v
        return out

    def block(self, body, env):
        for s in body:
            if env is None:
                env = {}                # unreachable: no definition reaches
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        t = type(s)
        if t in (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef):
            return env
        if t is ast.Assign:
            self.use(s.value, env)
            env = dict(env)
            for x in s.targets:
                self.store(x, env)
            return env
        if t is ast.AnnAssign:
            self.use(s.value, env)
            env = dict(env)
            if s.value is not None:
                self.store(s.target, env)
            elif isinstance(s.target, ast.Name):
                self.uses.append((s.target, env.get(s.target.id, frozenset())))
            return env
        if t is ast.AugAssign:
            self.use(s.value, env)
            env = dict(env)
            if isinstance(s.target, ast.Name) and s.target.id not in self.shared:
                old = env.get(s.target.id, frozenset())
                k = self.define(s.target.id, s.target)
                self.join(k, *old)
                env[s.target.id] = frozenset({k})
            else:
                self.use(s.target, env)
            return env
        if t in (ast.Return, ast.Raise):
            for c in ast.iter_child_nodes(s):
                self.use(c, env)
            return None
        if t is ast.If:
            self.use(s.test, env)
            return self.merge(self.block(s.body, dict(env)), self.block(s.orelse, dict(env)))
        if t in (ast.While, ast.For, ast.AsyncFor):
            if t is not ast.While:
                self.use(s.iter, env)
            head = dict(env)
            while True:
                self.loops.append(([], []))
                if t is ast.While:
                    self.use(s.test, head)
                e = dict(head)
                if t is not ast.While:
                    self.store(s.target, e)
                e = self.block(s.body, e)
                brk, cont = self.loops.pop()
                new = self.merge(head, e, *cont)
                if new == head:
                    break
                head = new
            forever = t is ast.While and isinstance(s.test, ast.Constant) and s.test.value
            out = None if forever else self.block(s.orelse, dict(head))
            return self.merge(out, *brk)
        if t is ast.Break:
            if self.loops:
                self.loops[-1][0].append(env)
            return None
        if t is ast.Continue:
            if self.loops:
                self.loops[-1][1].append(env)
            return None
        if t in (ast.With, ast.AsyncWith):
            env = dict(env)
            for i in s.items:
                self.use(i.context_expr, env)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, env)
            return self.block(s.body, env)
        if t is ast.Try:
            before = set(self.node)
            e = self.block(s.body, dict(env))
            seen = dict(env)
            for k in set(self.node) - before:
                nm = self.node[k]
                seen[nm] = seen.get(nm, frozenset()) | {k}
            # definitions of the body met before (a second pass of a loop around it) count as well
            for x in s.body:
                for n in ast.walk(x):
                    if isinstance(n, ast.Name) and n in self.node:
                        seen[n.id] = seen.get(n.id, frozenset()) | {n}
            outs = [self.block(s.orelse, dict(e)) if e is not None else None]
            for h in s.handlers:
                self.use(h.type, seen)
                outs.append(self.block(h.body, dict(seen)))
            if s.finalbody:
                return self.block(s.finalbody, self.merge(seen, *outs))
            return self.merge(*outs)
        for c in ast.iter_child_nodes(s):
            self.use(c, env)
        return env

    # ------------------------------------------------------------ names
    def mark(self):
        own = {self.find(("param", n)): n for n in {k[1] for k in self.node if isinstance(k, tuple)}}
        first = {}
        for k, name in self.node.items():
            r = self.find(k)
            if r not in own:
                n = first.setdefault(name, [])
                if r not in n:
                    n.append(r)
        label = dict(own)
        for name, rs in first.items():
            for i, r in enumerate(rs):
                taken = name in own.values() or i
                label[r] = f"{name}#{i}" if taken else name
        for k in self.node:
            if isinstance(k, ast.AST):
                k._web = label[self.find(k)]
        for n, ds in self.uses:
            if ds:
                n._web = label[self.find(next(iter(ds)))]


def mark(locals_, params, body):
    Webs(locals_, params, body).mark()
