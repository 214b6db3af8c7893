"""C27: what is set aside while a rule, test or included grammar runs is put back on every path."""
import re
from ..ir import CALLS, args, recv, strip, canon
from ..flow import leafcond
from ..cdep import direct, transitive
from ..run import Broken

STACKS = {('GrammarApplicator', 'context_stack'), ('GrammarApplicator', 'cohortsets'), ('GrammarApplicator', 'rocits'), ('tmpl_context_t', 'linked')}
PUSH = {'push_back', 'emplace_back'}
POP = {'pop_back'}
# state that only holds while something runs: class -> members
FIELDS = {
    'GrammarApplicator': {'in_nested', 'current_rule'},
    'ContextualTest': {'pos', 'offset', 'barrier', 'cbarrier'},
    'TextualParser': {'in_nested_rule', 'nested_rule', 'no_isets', 'no_itmpls', 'only_sets', 'filebase', 'cur_grammar', 'cur_grammar_n'},
}
# (function, member): why it may leave the member changed
EXEMPT = {
    ('GrammarApplicator::runRulesOnSingleWindow', 'current_rule'): 'says which rule is being run; set anew for each rule',
    ('TextualParser::parse_grammar', 'filebase'): 'entry point',
    ('TextualParser::parseFromUChar', 'filebase'): 'takes on the grammar it is given; the include rule covers the one that includes it',
    ('TextualParser::parseFromUChar', 'cur_grammar'): 'as above',
    ('TextualParser::parseFromUChar', 'cur_grammar_n'): 'as above',
}
# tests that take back their captures when they fail: function, member
FAILS = [('GrammarApplicator::runSingleTest', 'regexgrp_ct'), ('GrammarApplicator::runRelationTest', 'regexgrp_ct'), ('GrammarApplicator::doesSetMatchCohort_helper', 'regexgrp_ct')]
INCLUDE = ('TextualParser::parseFromUChar', ['filebase', 'lines', 'cur_grammar', 'cur_grammar_n', 'only_sets'])
CAP = 6000
PURE = {'size', 'empty', 'begin', 'end', 'rbegin', 'rend', 'contains', 'count', 'find', 'get', 'data', 'c_str', 'back', 'front', 'at', 'test'}


class Bal:
    def __init__(self, P, ctx):
        self.P, self.ctx = P, ctx
        self.apply = self.reach(P.fns('GrammarApplicator::runGrammarOnWindow'))
        self.parse = {f.id for f in P.funcs.values() if f.file.startswith('src/TextualParser')}
        self.eff = {}
        self.refs = {}
        self.lams = {}
        self.guards = {}
        for f in P.funcs.values():
            if f.body is None:
                continue
            for n in f.walk():
                if n.k != 'VarDecl' or not n.c or n.c[0] is None:
                    continue
                if n.t.strip().endswith('&'):
                    self.refs[n.get('id')] = n.c[0]
                if 'scope_guard' in n.t:
                    ls = [m for m in n.walk() if m.k == 'LambdaExpr']
                    ds = [m for m in n.walk() if m.k == 'DeclRefExpr' and '(lambda' in (m.t or '')]
                    if ls:
                        self.guards[n.get('id')] = ls[0].get('lam')
                    elif ds:
                        for v in f.walk():
                            if v.k == 'VarDecl' and v.get('id') == ds[0].get('id'):
                                x = [m for m in v.walk() if m.k == 'LambdaExpr']
                                if x:
                                    self.guards[n.get('id')] = x[0].get('lam')
        self.callers = {}
        for f in P.funcs.values():
            if f.body is None:
                continue
            for n in f.walk():
                if n.k in CALLS:
                    for t in P.targets(n):
                        self.callers.setdefault(t.id, set()).add(f.id)
        self.memo = {}
        self.busy = set()
        self.item = None

    def reach(self, roots):
        P = self.P
        seen = set()
        work = [f.id for f in roots]
        while work:
            i = work.pop()
            if i in seen or i not in P.funcs:
                continue
            seen.add(i)
            f = P.funcs[i]
            if f.body is None:
                continue
            for n in f.walk():
                if n.k in CALLS:
                    work.extend(t.id for t in P.targets(n))
                if n.k == 'LambdaExpr':
                    work.append(n.get('lam'))
        return seen

    # ---- locations
    def deref(self, n):
        n = strip(n)
        d = 0
        while n is not None and n.k == 'DeclRefExpr' and n.get('id') in self.refs and d < 5:
            n = strip(self.refs[n.get('id')])
            d += 1
        return n

    def stack(self, n):
        n = self.deref(n)
        if n is not None and n.k == 'MemberExpr' and (n.get('mc'), n.get('m')) in STACKS and self.item in (None, n.get('m')):
            return n.get('m')
        return None

    def own(self, fn):
        e = self.eff.get(('own', fn.id))
        if e is None:
            e = {n.get('id') for n in fn.walk() if n.k == 'VarDecl'} | {p['id'] for p in fn.params}
            self.eff[('own', fn.id)] = e
        return e

    def place(self, n, fn):
        M = self.place0(n, fn)
        return M if self.item in (None, M) else None

    def place0(self, n, fn):
        """member or outer variable this expression denotes, if it is one that must be put back"""
        n = self.deref(n)
        if n is None:
            return None
        if n.k == 'MemberExpr':
            c, m = n.get('mc'), n.get('m')
            if m in FIELDS.get(c, ()):
                if c == 'TextualParser' and fn.id not in self.parse or c != 'TextualParser' and fn.id not in self.apply:
                    return None
                return '%s.%s' % (c, m)
        if n.k == 'DeclRefExpr' and fn.is_lambda and n.get('id') not in self.own(fn) and (n.t or '').replace('const ', '').strip() == 'CG3::Rule *' and not n.get('g'):
            return 'd:%s' % n.get('id')
        return None

    def any_place(self, n):
        """any member or variable, for save-and-restore pairs that the table does not name"""
        n = self.deref(n)
        return None

    def name(self, M):
        return M.split('.')[-1] if not M.startswith('d:') else 'the current rule'

    # ---- effects of one element
    def writes(self, n):
        if n.k in ('BinaryOperator', 'CompoundAssignOperator') and (n.get('op') or '').endswith('=') and n.get('op') not in ('==', '!=', '<=', '>='):
            return n.c[0], (n.c[1] if n.get('op') == '=' else None)
        if n.k == 'UnaryOperator' and n.get('op') in ('++', '--'):
            return n.c[0], None
        if n.k == 'CXXOperatorCallExpr' and n.get('op') in ('=', '+=', '|=', '&=', '-='):
            A = args(n)
            return A[0], (A[1] if n.get('op') == '=' and len(A) > 1 else None)
        return None, None

    def local(self, n):
        """local variable (or member of one) an expression is the value of"""
        n = strip(n)
        d = 0
        while n is not None and d < 6:
            d += 1
            if n.k in ('CXXConstructExpr', 'CallExpr') and len(n.c) >= 1 and (n.k == 'CXXConstructExpr' and len(n.c) == 1 or (n.get('fs') or '') in ('move', 'exchange')):
                n = strip(args(n)[0] if n.k == 'CallExpr' else n.c[0])
            elif n.k == 'MemberExpr' and n.c and n.c[0] is not None:
                n = strip(n.c[0])
            else:
                break
        if n is not None and n.k == 'DeclRefExpr' and not n.get('g'):
            return n.get('id')
        return None

    def saves(self, e, fn):
        """[(local, place)] for an initialisation or assignment that copies places"""
        res = []
        if e.k == 'VarDecl' and e.c and e.c[0] is not None and not e.t.strip().endswith('&'):
            i = strip(e.c[0])
            M = self.place(i, fn) or (self.place(i.c[0], fn) if i is not None and i.k == 'CXXConstructExpr' and len(i.c) == 1 else None)
            if M:
                res.append((e.get('id'), M))
            elif i is not None and i.k in ('InitListExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CallExpr'):
                for c in (args(i) if i.k == 'CallExpr' else i.c):
                    M = self.place(c, fn) if c is not None else None
                    if M:
                        res.append((e.get('id'), M))
        l, r = self.writes(e)
        if l is not None and r is not None:
            L = self.local(l)
            M = self.place(r, fn)
            if L is not None and M and not self.place(l, fn) and (L in self.own(fn) or fn.is_lambda):
                res.append((L, M))
        return res

    def effects(self, fn):
        """does the function touch anything this is about, itself?"""
        k = ('eff', fn.id, self.item)
        if k in self.eff:
            return self.eff[k]
        push = pop = save = write = False
        for n in fn.walk():
            if n.k == 'CXXMemberCallExpr' and n.get('fs') in PUSH | POP and self.stack(recv(n)):
                push |= n.get('fs') in PUSH
                pop |= n.get('fs') in POP
            if n.k == 'VarDecl' or n.k in ('BinaryOperator', 'CXXOperatorCallExpr'):
                if self.saves(n, fn):
                    save = True
            l, r = self.writes(n)
            if l is not None and self.place(l, fn):
                write = True
        for n in fn.walk():
            if n.k == 'VarDecl' and n.get('id') in self.guards and self.guards[n.get('id')] in self.P.funcs:
                g = self.P.funcs[self.guards[n.get('id')]]
                if g.body is not None and g.id != fn.id:
                    x = self.effects(g)
                    push, pop, write = push or x[0], pop or x[1], write or x[3]
        self.eff[k] = (push, pop, save, write)
        return self.eff[k]

    def touches(self, fn, depth=0):
        """effects that this function leaves behind when looked at on its own, so that its callers have to see them"""
        k = ('touch', fn.id, self.item)
        if k in self.eff:
            return self.eff[k]
        self.eff[k] = False
        if fn.body is None or fn.cfg is None or self.item and (fn.q, self.name(self.item)) in EXEMPT:
            return False
        push, pop, save, write = self.effects(fn)
        r = (push != pop) or (write and not save)
        if not r and depth < 6:
            # hands on what helpers leave behind, without undoing it
            for n in fn.walk():
                if n.k in CALLS:
                    for t in self.P.targets(n):
                        if t.body is not None and t.id != fn.id and (t.id in self.apply or t.id in self.parse) and self.touches(t, depth + 1):
                            r = not (push or pop or save)
        self.eff[k] = r
        return r

    def relevant(self, fn):
        push, pop, save, write = self.effects(fn)
        if push or pop or save or write:
            return True
        return any(t.body is not None and self.touches(t) for n in fn.walk() if n.k in CALLS for t in self.P.targets(n)) or any(n.k == 'VarDecl' and n.get('id') in self.guards for n in fn.walk())

    def items(self, fn):
        """stacks and members this function, or what it calls without their undoing it, changes"""
        res = set()
        for m in sorted({m for c, m in STACKS}) + ['%s.%s' % (c, m) for c in sorted(FIELDS) for m in sorted(FIELDS[c])]:
            self.item = m
            try:
                push, pop, save, write = self.effects(fn)
                if push or pop or write or any(t.body is not None and self.touches(t) for n in fn.walk() if n.k in CALLS for t in self.P.targets(n)) or any(n.k == 'VarDecl' and n.get('id') in self.guards and self.guards[n.get('id')] in self.P.funcs and self.touches(self.P.funcs[self.guards[n.get('id')]]) for n in fn.walk()):
                    res.add(m)
            finally:
                self.item = None
        for n in fn.walk():
            l, r = self.writes(n)
            if l is not None:
                M = self.place(l, fn)
                if M and M.startswith('d:'):
                    res.add(M)
        return sorted(res)

    # ---- path states
    def run(self, fn, init, track=None, depth=0):
        """states at exit, from initial states"""
        key = (fn.id, frozenset(init), track, self.item)
        if key in self.memo:
            return self.memo[key]
        if fn.id in self.busy or depth > 6:
            return set(init)
        self.busy.add(fn.id)
        try:
            r = self._run(fn, init, track, depth)
        finally:
            self.busy.discard(fn.id)
        self.memo[key] = r
        return r

    def leafkey(self, leaf):
        """(canonical condition, negated)"""
        n, neg = strip(leaf), False
        d = 0
        while n is not None and d < 6:
            d += 1
            if n.k == 'UnaryOperator' and n.get('op') == '!':
                n, neg = strip(n.c[0]), not neg
            elif n.k == 'BinaryOperator' and n.get('op') in ('==', '!=') and n.c[1] is not None and (strip(n.c[1]).ev == 0 or strip(n.c[1]).k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr')):
                neg = neg != (n.get('op') == '==')
                n = strip(n.c[0])
            else:
                break
        return canon(n), neg, n

    def interesting(self, fn, e, track):
        if isinstance(e, tuple):
            return e[0] == 'dtor' and e[1] in self.guards
        if e.k == 'CXXMemberCallExpr' and e.get('fs') in PUSH | POP and self.stack(recv(e)):
            return True
        if e.k in ('DeclStmt', 'VarDecl', 'BinaryOperator', 'CompoundAssignOperator', 'CXXOperatorCallExpr', 'UnaryOperator'):
            ds = e.c if e.k == 'DeclStmt' else [e]
            for d in ds:
                if d is None:
                    continue
                if self.saves(d, fn):
                    return True
                l, r = self.writes(d)
                if l is not None and (self.place(l, fn) or track and self.tracked(l, track)):
                    return True
        if e.k in CALLS:
            for t in self.P.targets(e):
                if t.body is not None and self.touches(t):
                    return True
        return False

    def tracked(self, n, track):
        n = self.deref(n)
        return n is not None and n.k == 'MemberExpr' and n.get('m') == track and n.get('mc') == 'Rule_Context'

    def conds(self, fn, track):
        k = ('conds', fn.id, track, self.item)
        if k in self.eff:
            return self.eff[k]
        cfg = fn.cfg
        cd = transitive(cfg) if len(cfg.b) < 90 else direct(cfg)
        res = set()
        for b, B in cfg.b.items():
            if any(self.interesting(fn, e, track) for e in B.els):
                for a, i in cd.get(b, ()):
                    leaf, neg = leafcond(cfg.b[a])
                    if leaf is not None:
                        res.add(self.leafkey(leaf)[0])
        if track:
            for n in fn.walk():
                if n.k == 'ReturnStmt' and n.c and n.c[0] is not None:
                    res.add(self.leafkey(n.c[0])[0])
        self.eff[k] = res
        return res

    def kills(self, fn, e):
        """texts whose mention in a condition makes it stale after this element; 'this.' for calls that may change members"""
        if isinstance(e, tuple):
            return []
        if e.k == 'DeclStmt':
            return [d.get('id') for d in e.c if d is not None and d.k == 'VarDecl']
        if e.k == 'VarDecl':
            return [e.get('id')]
        l, r = self.writes(e)
        if l is not None:
            x = strip(l)
            if x is None:
                return []
            if x.k == 'UnaryOperator' and x.get('op') == '*':
                return [canon(x)]
            if x.k == 'MemberExpr':
                return ['%s.%s' % (canon(x.c[0]) if x.c and x.c[0] is not None else 'this', x.get('m'))]
            L = self.local(l)
            return [L] if L else []
        if e.k in CALLS:
            ids = {i for i in self.handed(e) if i}
            A = args(e)
            ts = self.P.targets(e)
            if e.k == 'CXXOperatorCallExpr' and e.get('op') in ('++', '--', '>>', '<<', '+=', '-=', '|=', '&=') and A and self.local(A[0]):
                ids.add(self.local(A[0]))
            if e.k == 'CXXMemberCallExpr' and recv(e) is not None and e.get('fs') not in PURE:
                x = strip(recv(e))
                if x is not None and x.k == 'DeclRefExpr':
                    ids.add(x.get('id'))
                elif x is not None and x.k == 'MemberExpr':
                    ids.add(canon(x))
            if e.k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CallExpr') and (not ts or any(t.body is not None for t in ts)) and (any(t.body is not None for t in ts) or not e.get('fq')):
                ids.add('this.')
            return sorted(ids)
        return []

    def handed(self, e):
        """locals handed over by address or reference may change"""
        ids = set()
        pts = e.get('pt') or []
        A = args(e)
        off = 1 if e.k == 'CXXOperatorCallExpr' and e.get('cls') else 0
        for i, a in enumerate(A[off:]):
            a2 = strip(a) if a is not None else None
            pt = pts[i].strip() if i < len(pts) else ''
            if a2 is None:
                continue
            if a2.k == 'UnaryOperator' and a2.get('op') == '&' and strip(a2.c[0]).k == 'DeclRefExpr':
                ids.add(strip(a2.c[0]).get('id'))
            elif pt.endswith('&') and not pt.startswith('const ') and a2.k == 'DeclRefExpr':
                ids.add(a2.get('id'))
            elif pt.endswith('*') and not pt.startswith('const ') and a2.k == 'DeclRefExpr' and re.search(r'(bool|int|Cohort \*) ?\*$', pt):
                ids.add('UnaryOperator*(d:%s)' % a2.get('id'))
        return ids

    def live(self, fn, keep, track):
        """conditions that still matter at the start of each block"""
        cfg = fn.cfg
        gen, kil = {}, {}
        for b, B in cfg.b.items():
            leaf, neg = leafcond(B)
            g = set()
            if leaf is not None and len(B.succ) == 2:
                g.add(self.leafkey(leaf)[0])
            gen[b] = g & keep
            ks = {k for e in B.els for k in self.kills(fn, e)}
            kil[b] = {c for c in keep if any(k in c for k in ks if k)}
            if track:
                for e in B.els:
                    if not isinstance(e, tuple) and e.k == 'ReturnStmt' and e.c and e.c[0] is not None:
                        gen[b] |= {self.leafkey(e.c[0])[0]} & keep
        pin = {c for c in keep if c.startswith('UnaryOperator*(') or 'context_stack' in c} if track else set()
        L = {b: (gen[b] - kil[b]) | pin for b in cfg.b}
        ch = True
        while ch:
            ch = False
            for b in cfg.b:
                o = set()
                for t in cfg.b[b].succ:
                    if t >= 0:
                        o |= L[t]
                # a branch reads its condition after the elements of its block
                n = ((o | gen[b]) - kil[b]) | pin
                if n - L[b]:
                    L[b] |= n
                    ch = True
        return L

    def _run(self, fn, init, track, depth):
        cfg = fn.cfg
        keep = self.conds(fn, track)
        live = self.live(fn, keep, track)
        seen = {}
        work = []
        for s in init:
            s = frozenset(x for x in s if x[0] != 'c')
            seen.setdefault(cfg.entry, set()).add(s)
            work.append((cfg.entry, s))
        n = 0
        while work:
            b, s = work.pop()
            n += 1
            if n > CAP * 4:
                raise Broken('%s: more path states than the analysis follows (%s)' % (fn.q, self.item))
            B = cfg.b[b]
            sts = [s]
            for e in B.els:
                nxt = []
                for x in sts:
                    nxt.extend(self.step(fn, x, e, keep, track, depth))
                sts = nxt
                if not sts:
                    break
            if B.nr:
                continue
            leaf, neg = leafcond(B)
            lk = self.leafkey(leaf) if leaf is not None and len(B.succ) == 2 else None
            for x in sts:
                for i, t in enumerate(B.succ):
                    if t < 0:
                        continue
                    y = x
                    if lk is not None and lk[0] in keep:
                        truth = ((i == 0) != neg) != lk[1]
                        known = [q[2] for q in x if q[0] == 'c' and q[1] == lk[0]]
                        if known and known[0] != truth:
                            continue
                        y = x | {('c', lk[0], truth)}
                    y = frozenset(q for q in y if q[0] != 'c' or q[1] in live[t])
                    if y not in seen.setdefault(t, set()):
                        seen[t].add(y)
                        work.append((t, y))
        return seen.get(cfg.exit, set())

    def kill(self, s, ids):
        """forget conditions that mention something written"""
        return frozenset(x for x in s if not (x[0] == 'c' and any(i in x[1] for i in ids if i)))

    def step(self, fn, s, e, keep, track, depth):
        if isinstance(e, tuple):
            if e[0] == 'dtor' and e[1] in self.guards and self.guards[e[1]] in self.P.funcs:
                return self.call(self.P.funcs[self.guards[e[1]]], s, None, track, depth)
            return [s]
        if e.k == 'DeclStmt':
            r = [s]
            for d in e.c:
                if d is not None and d.k == 'VarDecl':
                    r = [y for x in r for y in self.step(fn, x, d, keep, track, depth)]
            return r
        if e.k == 'VarDecl':
            s = self.kill(s, [e.get('id')])
            s = frozenset(x for x in s if not (x[0] == 's' and x[1] == e.get('id')))
            i = strip(e.c[0]) if e.c and e.c[0] is not None else None
            if i is not None and i.ev is not None and 'd:%s' % e.get('id') in keep:
                s |= {('c', 'd:%s' % e.get('id'), bool(i.ev))}
            for L, M in self.saves(e, fn):
                if not any(x[0] == 'd' and x[1] == M for x in s):
                    s |= {('s', L, M)}
            if track and i is not None and self.tracked(i, track):
                s |= {('ts', e.get('id'))}
            elif track and i is not None and i.k == 'ConditionalOperator' and any(self.tracked(c, track) for c in i.c[1:] if c is not None):
                s |= {('ts', e.get('id'))}
            return [s]
        l, r = self.writes(e)
        if l is not None:
            M = self.place(l, fn)
            x = strip(l)
            L = self.local(l)
            sv = self.saves(e, fn)
            if L is not None and not M:
                ks = [L]
                if x.k == 'MemberExpr':
                    ks = ['%s.%s' % (canon(x.c[0]) if x.c else 'this', x.get('m'))]
                s = self.kill(s, ks)
                if x.k == 'DeclRefExpr':
                    s = frozenset(q for q in s if not (q[0] == 's' and q[1] == L))
                if r is not None and strip(r).ev is not None and canon(x) in keep:
                    s |= {('c', canon(x), bool(strip(r).ev))}
            elif x is not None and x.k == 'UnaryOperator' and x.get('op') == '*':
                s = self.kill(s, [canon(x)])
                if r is not None and strip(r).ev is not None and canon(x) in keep:
                    s |= {('c', canon(x), bool(strip(r).ev))}
            for A, Mx in sv:
                if not any(q[0] == 'd' and q[1] == Mx for q in s):
                    s |= {('s', A, Mx)}
            if M:
                R = self.local(r) if r is not None else None
                s = frozenset(q for q in s if not (q[0] == 'd' and q[1] == M))
                if not (R is not None and ('s', R, M) in s):
                    s |= {('d', M, fn.id, e.i)}
            if track and self.tracked(l, track):
                s = frozenset(q for q in s if q[0] != 't')
                R = self.local(r) if r is not None else None
                if not (R is not None and ('ts', R) in s):
                    if e.k == 'BinaryOperator' and e.get('op') == '=' and R is None and any(m.k == 'DeclRefExpr' and ('ts', m.get('id')) in s for m in e.c[1].walk()):
                        s |= {('t',)}
                    else:
                        s |= {('t',)}
            return [s]
        if e.k == 'ReturnStmt' and track:
            if e.c and e.c[0] is not None:
                k, neg, n = self.leafkey(e.c[0])
                v = None
                if n is not None and n.ev is not None:
                    v = bool(n.ev)
                known = [q[2] for q in s if q[0] == 'c' and q[1] == k]
                if known:
                    v = known[0]
                if v is not None:
                    v = v != neg
                s = s | {('r', v)}
            return [s]
        if e.k in CALLS:
            if e.k == 'CXXMemberCallExpr' and e.get('fs') in PUSH | POP:
                k = self.stack(recv(e))
                if k:
                    c = [q for q in s if q[0] == 'n' and q[1] == k]
                    v = (c[0][2] if c else 0) + (1 if e.get('fs') in PUSH else -1)
                    if abs(v) > 4:
                        return []
                    s = frozenset(q for q in s if q not in c) | ({('n', k, v)} if v else set())
                    return [s]
            tgs = [t for t in self.P.targets(e) if t.body is not None]
            ids = self.kills(fn, e)
            if ids:
                s = self.kill(s, ids)
            if track and tgs and any(t.id in self.capturing for t in tgs):
                s |= {('t',)}
            out = None
            for t in tgs:
                if self.touches(t):
                    o = self.call(t, s, e, track, depth)
                    out = o if out is None else out + o
            return [s] if out is None else out
        return [s]

    def call(self, t, s, e, track, depth):
        conds = {q for q in s if q[0] == 'c'}
        rest = frozenset(q for q in s if q[0] not in ('c', 'r'))
        al = set()
        if e is not None:
            A = args(e)
            off = 1 if e.k == 'CXXOperatorCallExpr' and e.get('cls') else 0
            for i, a in enumerate(A[off:]):
                if i < len(t.params) and a is not None:
                    x = strip(a)
                    if x is not None and x.k == 'UnaryOperator' and x.get('op') == '&':
                        x = x.c[0]
                    L = self.local(x)
                    if L is not None:
                        al |= {('s', t.params[i]['id'], q[2]) for q in rest if q[0] == 's' and q[1] == L}
        if t.cfg is None:
            return [s]
        outs = self.run(t, [frozenset(rest | al)], None, depth + 1)
        pids = {p['id'] for p in t.params}
        return [frozenset(q for q in o if q[0] not in ('c', 'r') and not (q[0] == 's' and q[1] in pids)) | conds for o in outs]


def item(ctx, P, B, fn, it):
    """one stack or member, over all paths through one function"""
    push, pop, save, write = B.effects(fn)
    if B.touches(fn) and (fn.is_lambda or any(c != fn.id and (c in B.apply or c in B.parse) for c in B.callers.get(fn.id, ()))):
        return
    B.capturing = set()
    ctx.saw(fn)
    outs = B.run(fn, [frozenset()])
    short = fn.q
    if it in {m for c, m in STACKS}:
        bad = sorted({q[2] for o in outs for q in o if q[0] == 'n'})
        at = [n for n in fn.walk() if n.k == 'CXXMemberCallExpr' and n.get('fs') in PUSH | POP and B.stack(recv(n)) == it]
        w = at[0].where() if at else '%s:%d' % (fn.file, fn.line)
        ctx.check(not bad, 'stack', '%s:%s' % (short, it), w, '%s is as deep at every return as at the start' % it, '%s returns with %s %s than at the start' % (short, it, ' or '.join('%d %s' % (abs(v), 'deeper' if v > 0 else 'shallower') for v in bad)))
        return
    nm = B.name(it)
    if (short, nm) in EXEMPT:
        return
    left = sorted({(q[2], q[3]) for o in outs for q in o if q[0] == 'd'})
    w = '%s:%d' % (fn.file, fn.line)
    if left:
        w = P.funcs[left[0][0]].nodes[left[0][1]].where()
    ctx.check(not left, 'restore', '%s:%s' % (short, nm), w, '%s is put back on every path' % nm, '%s set here is not put back on some path to the end of %s' % (nm, short))


def check(ctx):
    P = ctx.P
    B = Bal(P, ctx)
    ctx.rule('stack', 'what a function pushes on the engine\'s stacks of contexts, cohort sets, positions and pending links it pops again on every path, and the other way round', 5)
    ctx.rule('restore', 'state that only holds while something runs is put back to what was saved, on every path to the end of the function that saved it', 6)
    ctx.rule('fail', 'a test that fails takes back the regular expression groups captured meanwhile', 3)
    ctx.rule('guard', 'an object that puts something back when its scope ends lives to the end of the scope, and puts back what it took', 6)
    ctx.rule('include', 'an included grammar is parsed with file name, line, text and section mode of its own, and the outer ones come back', 5)
    names = {}
    for fn in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        if fn.body is None or fn.cfg is None or not fn.file.startswith('src/') or not (fn.id in B.apply or fn.id in B.parse):
            continue
        for it in B.items(fn):
            B.item = it
            try:
                item(ctx, P, B, fn, it)
            finally:
                B.item = None
    # ---- failing tests
    caps = set()
    for fn in P.funcs.values():
        if fn.body is None:
            continue
        for n in fn.walk():
            l, r = B.writes(n)
            if l is not None and B.tracked(l, 'regexgrp_ct') or n.k in CALLS and n.get('fs') == 'captureRegex':
                caps.add(fn.id)
    capturing = set(caps)
    ch = True
    while ch:
        ch = False
        for i in list(capturing):
            for c in B.callers.get(i, ()):
                if c not in capturing:
                    capturing.add(c)
                    ch = True
    B.capturing = capturing
    for q, m in FAILS:
        for fn in P.fns(q):
            if fn.body is None or fn.cfg is None:
                continue
            # an overload that only hands over to another one
            if sum(1 for n in fn.walk() if n.k in CALLS and any(t.q == q and t.id != fn.id for t in P.targets(n))):
                continue
            ctx.saw(fn)
            outs = B.run(fn, [frozenset()], m)
            # result: a bool handed back through a pointer parameter, else what is returned
            res = [p['id'] for p in fn.params if p['t'].replace(' ', '') == 'bool*']
            bad = 0
            for o in outs:
                if ('t',) not in o:
                    continue
                if res:
                    v = [x[2] for x in o if x[0] == 'c' and x[1] == 'UnaryOperator*(d:%s)' % res[0]]
                else:
                    v = [x[1] for x in o if x[0] == 'r']
                if v and v[0] is True:
                    continue
                # no context to capture into
                if any(x[0] == 'c' and 'context_stack' in x[1] and 'empty' in x[1] and x[2] for x in o) or any(x[0] == 'c' and x[1].endswith('context_stack)') and x[2] for x in o):
                    continue
                bad += 1
            ctx.check(not bad, 'fail', q, '%s:%d' % (fn.file, fn.line), 'groups captured by a failing test are taken back', '%s can fail and keep the groups captured meanwhile' % q)
    guards(ctx, P, B)


def byhand(n, m):
    """copied to a local before the call and copied back after it, in the same sequence of statements"""
    for a in n.ancestors():
        if a.k != 'CompoundStmt':
            continue
        loc, after = set(), False
        for c in a.c:
            if c is None:
                continue
            if any(x is n for x in c.walk()):
                after = True
                continue
            for v in c.walk():
                if not after and v.k == 'VarDecl' and v.p is c and v.c and v.c[0] is not None and strip(v.c[0]) is not None and any(x.k == 'MemberExpr' and x.get('m') == m for x in v.c[0].walk()):
                    loc.add(v.get('id'))
                if after and v.k == 'BinaryOperator' and v.get('op') == '=' and v is strip(c) and strip(v.c[0]).k == 'MemberExpr' and strip(v.c[0]).get('m') == m and any(x.k == 'DeclRefExpr' and x.get('id') in loc for x in v.c[1].walk()):
                    return True
    return False


def guards(ctx, P, B):
    G = re.compile(r'\b(swapper|swapper_false|uncond_swap|scope_guard|inc_dec)\b')
    # the classes themselves
    for fn in P.funcs.values():
        if fn.body is None or not fn.name.startswith('~') or not re.search(r'(^|::)(swapper|uncond_swap)$', re.sub(r'<.*>', '', fn.q.rsplit('::', 1)[0])):
            continue
        cls = fn.q.rsplit('::', 1)[0]
        def swaps(f):
            return sorted(tuple(sorted(strip(a).get('m') or strip(a).get('d') or '?' for a in args(n))) + tuple(sorted(canon(leafcond(f.cfg.b[a])[0]).split('.')[-1].split(':')[-1] for a, i in direct(f.cfg).get(b, ()) )) for b, B2 in f.cfg.b.items() for n in B2.els if not isinstance(n, tuple) and n.k in CALLS and n.get('fs') == 'swap')
        ctors = [f for f in P.funcs.values() if f.body is not None and f.q.rsplit('::', 1)[0] == cls and re.sub(r'<.*>', '', f.name) == re.sub(r'<.*>', '', cls.split('::')[-1]) and len(f.params) > 1]
        d = swaps(fn)
        ok = bool(d) and bool(ctors) and all(len(swaps(c)) == len(d) and [len(x) for x in swaps(c)] == [len(x) for x in d] for c in ctors)
        ctx.saw(fn)
        ctx.check(ok, 'guard', cls, '%s:%d' % (fn.file, fn.line), 'the destructor swaps back what the constructor swapped', 'the destructor of %s does not swap back what the constructor swapped' % cls)
    seen = set()
    for fn in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        if fn.body is None or not fn.file.startswith('src/') or fn.name.startswith('~') or G.search(fn.q):
            continue
        vs = {}
        for n in fn.walk():
            if n.k == 'VarDecl' and G.search(n.t) and not n.t.strip().endswith(('&', '*')):
                for m in n.walk():
                    vs[m.i] = n
                if n.where() in seen:
                    continue
                seen.add(n.where())
                ctx.saw(fn)
                # taken back in the same scope it was made in, after what it guards: something follows it there
                p = n.p
                while p is not None and p.k not in ('CompoundStmt', 'ForStmt', 'IfStmt'):
                    p = p.p
                last = p is not None and p.k == 'CompoundStmt' and p.c and p.c[-1] is not None and any(x is n for x in p.c[-1].walk())
                ctx.check(not last, 'guard', '%s:%s' % (fn.q, n.get('d')), n.where(), '%s puts back at the end of a scope that goes on' % n.get('d'), 'nothing runs while %s holds: its scope ends at once' % n.get('d'))
        for n in fn.walk():
            if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and G.search(n.get('cls') or '') and n.i not in vs and n.get('cls') and not G.search((n.p.k if n.p is not None else '')):
                if fn.d.get('ctor') or any(a.k in ('CXXCtorInitializer',) for a in n.ancestors()):
                    continue
                ctx.check(False, 'guard', '%s:temporary' % fn.q, n.where(), '', 'this %s is a temporary: it puts back at once' % n.get('cls'))
    # ---- INCLUDE
    q, ms = INCLUDE
    for fn in P.fns(q):
        if fn.body is None:
            continue
        for n in fn.walk():
            if n.k in CALLS and any(t.q == q for t in P.targets(n)):
                ctx.saw(fn)
                for m in ms:
                    held = False
                    for a in n.ancestors():
                        if a.k != 'CompoundStmt':
                            continue
                        for c in a.c:
                            if c is None:
                                continue
                            if any(x is n for x in c.walk()):
                                break
                            for v in c.walk():
                                if v.k == 'VarDecl' and G.search(v.t) and v.p is c and any(x.k == 'MemberExpr' and x.get('m') == m for x in v.walk()):
                                    held = True
                    held = held or byhand(n, m)
                    ctx.check(held, 'include', '%s:%s' % (q, m), n.where(), '%s of the including grammar comes back after the included one' % m, '%s of the including grammar is not kept while the included one is parsed' % m)
