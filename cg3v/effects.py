"""Write effects: which members of which classes a function can change, itself or through what it calls."""
from .ir import CALLS, args, recv, strip
from .paths import Analysis, Root, Spec


VALUES = ('make_pair', 'make_tuple', 'max', 'min', 'minmax', 'hash_value')     # of the library: take references, change nothing


class _Spec(Spec):
    def __init__(self):
        self.out = []

    def mut(self, root, op, node, fn):
        self.out.append((root, op, node))
        return ()


class Effects:
    """skip: functions (Fn -> bool) whose bodies are not entered"""

    def __init__(self, P, skip=None, scratch=()):
        self.P = P
        self.scratch = set(scratch)     # (class, member): what is held there is nobody else's
        self.spec = _Spec()
        self.A = Analysis(P, self.spec)
        self.skip = skip or (lambda f: False)
        self._direct = {}
        self._all = {}

    def fresh(self, r, f, depth=0):
        """the object is one of the function's own"""
        b = strip(r.base) if r.kind == 'field' else r.node
        for _ in range(12):
            if b is None:
                return False
            if b.k == 'MemberExpr' and b.c:
                b = strip(b.c[0])
            elif b.k == 'CXXOperatorCallExpr' and b.get('fs') in ('operator->', 'operator*') and len(b.c) > 1:
                b = strip(b.c[1])
            elif b.k == 'UnaryOperator' and b.get('op') == '*':
                b = strip(b.c[0])
            else:
                break
        if b is None or b.k != 'DeclRefExpr':
            return False
        d = self.A.info(f).decl.get(b.get('id'))
        if d is None:
            return self.captured(b, f)
        t = (d.t or '').strip()
        if d.get('static'):
            return False
        if t.endswith('*') or 'unique_ptr' in t:
            inits = [d.c[0]] if d.c and d.c[0] is not None else []
            if inits and self.scratch and not self.A.info(f).assigned[d.get('id')]:
                r2 = self.A.root(inits[0], f)
                if r2.kind == 'field' and (r2.cls.rsplit('::', 1)[-1], r2.field) in self.scratch:
                    return True
            return bool(inits) and all(is_new(x) for x in inits) and not self.A.info(f).assigned[d.get('id')]
        if t.endswith('&'):
            i = strip(d.c[0]) if d.c and d.c[0] is not None else None
            if i is None or depth > 5:
                return False
            r2 = self.A.root(i, f)
            if r2.kind == 'field' and (r2.cls.rsplit('::', 1)[-1], r2.field) in self.scratch:
                return True
            return r2.kind in ('local', 'field') and self.fresh(r2, f, depth + 1) if r2.kind != 'local' else self.own(r2, f)
        return True

    def own_object(self, n, f):
        """a method is called on one of the function's own objects"""
        rc = recv(n)
        if rc is None:
            return False
        rc = strip(rc)
        if rc is not None and rc.k == 'CXXThisExpr':
            return False
        return self.fresh(Root('field', base=rc), f)

    def own(self, r, f):
        d = self.A.info(f).decl.get(r.id)
        return d is not None and not (d.t or '').strip().endswith(('*', '&')) and not d.get('static')

    def captured(self, b, f):
        if not f.is_lambda:
            return False
        for g in self.P.funcs.values():
            if g.file == f.file and g is not f:
                d = self.A.info(g).decl.get(b.get('id'))
                if d is not None:
                    return not (d.t or '').strip().endswith(('*', '&'))
        return False

    def direct(self, f):
        if f.id not in self._direct:
            acts, pars = [], []
            for n in f.walk():
                self.spec.out = []
                for a in self.A.raw(n, f):
                    if a[0] == 'P':
                        pars.append((a[1], n))
                for r, op, node in self.spec.out:
                    if node.k in CALLS and node.get('fs') in VALUES:
                        continue
                    if r.kind == 'field' and not self.fresh(r, f):
                        acts.append(((r.cls.rsplit('::', 1)[-1], r.field), node))
                    elif r.kind == 'local' and self.A.info(f).decl.get(r.id) is not None and self.A.info(f).decl[r.id].get('static'):
                        acts.append((('static', self.A.info(f).decl[r.id].get('d')), node))
                    elif r.kind == 'local' and self.held(r, node, f):
                        acts.append((('Cohort', 'readings'), node))
                    elif r.kind == 'outer' and r.node is not None and r.node.get('g'):
                        acts.append((('global', r.node.get('d')), node))
            self._direct[f.id] = (acts, pars)
        return self._direct[f.id]

    def held(self, r, node, f):
        """what is changed is a list of readings that a pointer stands at, not the pointer"""
        d = self.A.info(f).decl.get(r.id)
        t = (d.t or '').strip().replace('const', '').replace(' ', '') if d is not None else ''
        if not t.endswith('*') or not ('ReadingList' in t or 'vector<CG3::Reading*>' in t or 'vector<Reading*>' in t):
            return False
        if node.k in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator') and strip(node.c[0]) is r.node:
            return False
        i = strip(d.c[0]) if d.c and d.c[0] is not None else None
        if i is not None and i.k == 'UnaryOperator' and i.get('op') == '&':
            q = self.A.root(i.c[0], f)
            if q.kind == 'local' and self.own(q, f):
                return False
        return True

    def reach(self, roots):
        """functions entered from the roots: {id: (Fn, call node or None, caller id)}"""
        seen = {f.id: (f, None, None) for f in roots}
        work = list(roots)
        while work:
            f = work.pop()
            for n in f.walk():
                ts = []
                if n.k in CALLS:
                    ts = self.P.targets(n)
                elif n.k == 'LambdaExpr' and n.get('lam') in self.P.funcs:
                    ts = [self.P.funcs[n.get('lam')]]
                if ts and self.scratch and n.k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr') and self.own_object(n, f):
                    ts = []
                for t in ts:
                    if t.id not in seen and t.body is not None and not self.skip(t):
                        seen[t.id] = (t, n, f.id)
                        work.append(t)
        return seen

    def effects(self, roots):
        """[(class, member), node, Fn] of everything executed from the roots, arguments changed through references included"""
        seen = self.reach(roots)
        out = []
        pw = {}             # fn id -> parameters it changes
        for fid, (f, _, _) in seen.items():
            acts, pars = self.direct(f)
            out += [(a, n, f) for a, n in acts]
            pw[fid] = {i for i, n in pars}
        ch = True
        done = set()
        while ch:
            ch = False
            for fid, (f, _, _) in seen.items():
                for n in f.walk():
                    if n.k not in CALLS or n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                        continue
                    for t in self.P.targets(n):
                        if t.id not in pw:
                            continue
                        a = args(n)
                        if n.k == 'CXXOperatorCallExpr' and n.get('cls'):
                            a = a[1:]
                        for i in list(pw[t.id]):
                            if i >= len(a) or (n.i, fid, i, t.id) in done:
                                continue
                            done.add((n.i, fid, i, t.id))
                            ch = True
                            r = self.A.root(a[i], f)
                            if r.kind == 'field' and not self.fresh(r, f):
                                out.append(((r.cls.rsplit('::', 1)[-1], r.field), n, f))
                            elif r.kind == 'param' and self.A.param_ok(f, r.field):
                                pw[fid].add(r.field)
        return out, seen

    def chain(self, seen, fid):
        c = []
        while fid is not None:
            f, n, p = seen[fid]
            c.append(f.q.rsplit('::', 1)[-1])
            fid = p
        return ' < '.join(c)


def is_new(n):
    n = strip(n)
    if n is None:
        return False
    if n.k == 'CXXNewExpr':
        return True
    if n.k in CALLS:
        return (n.get('fs') or '').startswith(('alloc_', 'make_unique', 'make_shared'))
    return False
