"""Backward slices: which members, globals, constants and parameters a value is made of, across helper functions, and under
which conditions a construct is reached."""
from .cdep import transitive
from .flow import leafcond
from .ir import CALLS, N, args, strip

ASSIGN = ('BinaryOperator', 'CXXOperatorCallExpr')


def assigned(n):
    """(variable id, value) if n assigns a local variable"""
    if n.k == 'BinaryOperator' and n.get('op') == '=':
        t = strip(n.c[0])
        if t is not None and t.k == 'DeclRefExpr':
            return t.get('id'), n.c[1]
    if n.k == 'CXXOperatorCallExpr' and n.get('fs') == 'operator=' and len(n.c) > 2:
        t = strip(n.c[1])
        if t is not None and t.k == 'DeclRefExpr':
            return t.get('id'), n.c[2]
    return None, None


class Slicer:
    def __init__(self, P, enter=lambda f: True):
        self.P, self.enter = P, enter
        self._defs, self._pos, self._owner, self._conds, self._callers = {}, {}, None, {}, None
        self._lam = None
        self._memo = {}
        self._cc = {}

    # ---- positions and definitions
    def pos(self, f):
        if f.id not in self._pos:
            d = {}
            for b in f.cfg.b.values():
                for i, e in enumerate(b.els):
                    if isinstance(e, N):
                        d.setdefault(e.i, (b.id, i))
            self._pos[f.id] = d
        return self._pos[f.id]

    def at(self, f, n):
        d = self.pos(f)
        m = n
        while m is not None:
            if m.i in d:
                return d[m.i]
            m = m.p
        return None

    def defs(self, f):
        """{variable: [(block, index, value)]}"""
        if f.id not in self._defs:
            d, seen = {}, set()
            if f.cfg is not None:
                for b in f.cfg.b.values():
                    for i, e in enumerate(b.els):
                        if not isinstance(e, N):
                            continue
                        if e.k == 'DeclStmt':
                            for v in e.walk():
                                if v.k in ('VarDecl', 'DecompositionDecl', 'BindingDecl') and (v.i, b.id) not in seen:
                                    seen.add((v.i, b.id))
                                    d.setdefault(v.get('id'), []).append((b.id, i, v.c[0] if v.c else None))
                        else:
                            v, val = assigned(e)
                            if v is not None:
                                d.setdefault(v, []).append((b.id, i, val))
            self._defs[f.id] = d
        return self._defs[f.id]

    def owner(self, v):
        if self._owner is None:
            self._owner = {}
            for f in self.P.funcs.values():
                if f.body is None:
                    continue
                for p in f.params:
                    self._owner[p['id']] = f
                for n in f.walk():
                    if n.k in ('VarDecl', 'DecompositionDecl', 'BindingDecl'):
                        self._owner[n.get('id')] = f
        return self._owner.get(v)

    def reaching(self, f, v, n):
        """(values that v can have at n, whether the value at entry is one of them)"""
        ds = self.defs(f).get(v, [])
        p = self.at(f, n)
        if p is None:
            return [x[2] for x in ds], True
        by = {}
        for b, i, val in ds:
            by.setdefault(b, []).append((i, val))
        res, entry, seen = [], False, set()
        work = [(p[0], p[1])]
        while work:
            b, lim = work.pop()
            c = [x for x in by.get(b, ()) if lim is None or x[0] < lim]
            if c:
                res.append(max(c, key=lambda x: x[0])[1])
                continue
            if b == f.cfg.entry:
                entry = True
            for q in f.cfg.b[b].pred:
                if q not in seen:
                    seen.add(q)
                    work.append((q, None))
        return res, entry

    # ---- slices
    def lambdas(self):
        """lambda function id -> (its expression, the function it is in)"""
        if self._lam is None:
            self._lam = {}
            for f in self.P.funcs.values():
                if f.body is None:
                    continue
                for n in f.walk():
                    if n.k == 'LambdaExpr':
                        self._lam[n.get('lam')] = (n, f)
        return self._lam

    def atoms(self, n, f, chain=(), depth=0, seen=None):
        """chain: the calls that led to f, outermost first: ((call, function), ...)"""
        res = set()
        if n is None or depth > 14:
            return res
        if seen is None:
            k = (n.i, f.id, tuple((c[0].i, c[1].id) for c in chain))
            if k not in self._memo:
                self._memo[k] = self._atoms(n, f, chain, depth, set())
            return self._memo[k]
        return self._atoms(n, f, chain, depth, seen)

    def _atoms(self, n, f, chain, depth, seen):
        res = set()
        for m in n.walk():
            if m.k == 'MemberExpr' and m.get('dk') == 'Field':
                res.add(('f', (m.get('mc') or '').split('<')[0].split('::')[-1], m.get('m')))
            elif m.k == 'IntegerLiteral' or m.k == 'CXXBoolLiteralExpr':
                res.add(('lit', m.ev if m.ev is not None else m.get('v')))
            elif m.k == 'LambdaExpr' and m.get('lam') in self.P.funcs and depth < 8:
                for x in self.P.funcs[m.get('lam')].walk():
                    if x.k in CALLS:
                        res.add(('call', x.get('fs')))
                    elif x.k == 'MemberExpr' and x.get('dk') == 'Field':
                        res.add(('f', (x.get('mc') or '').split('<')[0].split('::')[-1], x.get('m')))
            elif m.k == 'DeclRefExpr':
                if m.get('dk') == 'EnumConstant':
                    res.add(('e', m.get('d')))
                elif m.get('dk') in ('Var', 'ParmVar', 'Binding', 'Decomposition'):
                    if m.get('g'):
                        res.add(('g', m.get('q') or m.get('d')))
                    else:
                        res |= self.var(m, f, chain, depth, seen)
            if m.k in CALLS:
                res.add(('call', m.get('fs')))
                if depth < 6:
                    for t in self.P.targets(m):
                        if t.body is None or not self.enter(t) or t.id == f.id or len(chain) > 6 or any(c[1].id == t.id for c in chain):
                            continue
                        for x in t.walk():
                            if x.k == 'ReturnStmt' and x.c and x.c[0] is not None:
                                k = (x.i, t.id, tuple((c[0].i, c[1].id) for c in chain))
                                if k in seen:
                                    continue
                                seen.add(k)
                                res |= {a for a in self.atoms(x.c[0], t, tuple(chain) + ((m, f),), depth + 1, seen) if a[0] != 'lit'}
        return res

    def var(self, m, f, chain, depth, seen):
        v = m.get('id')
        res = set()
        o = f
        if v not in self.defs(f) and v not in [p['id'] for p in f.params]:
            o = self.owner(v)
            if o is None:
                return {('v', m.get('d'))}
            vals, entry = [x[2] for x in self.defs(o).get(v, [])], True
            for i, c in enumerate(chain):
                if c[1].id == o.id:
                    chain = chain[:i]
                    break
            else:
                chain = ()
        else:
            vals, entry = self.reaching(f, v, m)
        key = (v, m.i, f.id)
        if key in seen:
            return res
        seen.add(key)
        for val in vals:
            if val is not None:
                res |= self.atoms(val, o, chain, depth + 1, seen)
        ps = [p['id'] for p in o.params]
        if v in ps and entry:
            res |= self.param(o, ps.index(v), chain, depth, seen)
        return res

    def param(self, f, i, chain, depth, seen):
        if chain:
            call, g = chain[-1]
            a = args(call)
            if call.k == 'CXXOperatorCallExpr' and call.get('cls') and (call.get('fs') == 'operator()'):
                a = a[1:]
            if self.is_algorithm(call, f):
                res = set()
                for x in a:
                    if not any(y.k == 'LambdaExpr' for y in x.walk() if x is not None):
                        res |= self.atoms(x, g, chain[:-1], depth + 1, seen)
                return res
            if i < len(a):
                return self.atoms(a[i], g, chain[:-1], depth + 1, seen)
            return set()
        return {('p', f.params[i].get('n') or f.params[i].get('d') or i)}

    def is_algorithm(self, call, f):
        """a library call that is handed the lambda f"""
        return f.is_lambda and all(t.id != f.id for t in self.P.targets(call))

    # ---- conditions
    def conds(self, n, f):
        """[(leaf condition, value it has, node of the branch)] that n's execution depends on"""
        if (n.i, f.id) not in self._cc:
            self._cc[n.i, f.id] = self._node_conds(n, f)
        return self._cc[n.i, f.id]

    def _node_conds(self, n, f):
        if f.id not in self._conds:
            self._conds[f.id] = transitive(f.cfg)
        p = self.at(f, n)
        res = []
        if p is None:
            return res
        for b, i in sorted(self._conds[f.id].get(p[0], ())):
            B = f.cfg.b[b]
            l, neg = leafcond(B)
            if l is None:
                if B.cond is not None:
                    res.append((strip(B.cond), None, b))
                continue
            res.append((l, (i == 0) != neg, b))
        return res

    def all_conds(self, n, f, chain):
        """conditions along the whole chain: [(leaf, value, function, chain up to it)]"""
        res = [(l, v, f, tuple(chain)) for l, v, b in self.conds(n, f)]
        for i in range(len(chain) - 1, -1, -1):
            c, g = chain[i]
            res += [(l, v, g, tuple(chain[:i])) for l, v, b in self.conds(c, g)]
        return res

    # ---- sites
    def callees(self, f):
        """[(call, function)] that f may enter, functions handed to library algorithms included"""
        if self._callers is None:
            self._callers = {}
        if f.id not in self._callers:
            res = []
            for n in f.walk():
                if n.k not in CALLS:
                    continue
                ts = list(self.P.targets(n))
                for a in args(n):
                    s = strip(a) if a is not None else None
                    while s is not None and s.k in ('CXXConstructExpr', 'CXXFunctionalCastExpr') and len(s.c) == 1:
                        s = strip(s.c[0])
                    if s is not None and s.k == 'LambdaExpr' and s.get('lam') in self.P.funcs:
                        ts.append(self.P.funcs[s.get('lam')])
                res += [(n, t) for t in ts if t.body is not None and self.enter(t)]
            self._callers[f.id] = res
        return self._callers[f.id]

    def sites(self, root, want, stop=lambda f: False, depth=4):
        """[(node, function, chain)] for the nodes for which want() holds in root and what it calls"""
        # the functions that get to one at all
        fs, work = {root.id: root}, [root]
        while work:
            f = work.pop()
            for n, t in self.callees(f):
                if not stop(t) and t.id not in fs:
                    fs[t.id] = t
                    work.append(t)
        hits = {k: [n for n in f.walk() if want(n)] for k, f in fs.items()}
        can = {k for k in fs if hits[k]}
        ch = True
        while ch:
            ch = False
            for k, f in fs.items():
                if k not in can and any(t.id in can for n, t in self.callees(f)):
                    can.add(k)
                    ch = True
        res = []

        def go(f, chain):
            for n in hits[f.id]:
                res.append((n, f, chain))
            if len(chain) >= depth:
                return
            for n, t in self.callees(f):
                if t.id in can and t.id != f.id and not stop(t) and t.id != root.id and not any(c[1].id == t.id for c in chain):
                    go(t, chain + ((n, f),))
        go(root, ())
        return res
