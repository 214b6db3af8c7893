"""C10: the words of a window stay numbered, linked and registered when rules insert, remove, move, split, ignore or delimit."""
from ..ir import CALLS, args, recv, strip, is_call, canon
from ..extract import Broken
from ..paths import Analysis, Spec, atoms, cmp_parts
from ..engine import callbacks, rule_types, RuleSpec
from ..model import Model, Bits, reached, short

EDIT = {'insert', 'erase', 'resize', 'swap', 'assign', 'operator=', 'emplace', 'push_back', 'emplace_back', 'pop_back', '='}
STOP = {'GrammarApplicator::runSingleRule', 'GrammarApplicator::runContextualTest', 'GrammarApplicator::doesSetMatchReading', 'GrammarApplicator::doesSetMatchCohortNormal', 'GrammarApplicator::addTag',
        'GrammarApplicator::getTagList', 'GrammarApplicator::generateVarstringTag', 'GrammarApplicator::addTagToReading', 'GrammarApplicator::delTagFromReading', 'GrammarApplicator::reflowReading',
        'GrammarApplicator::splitMappings', 'GrammarApplicator::attachParentChild', 'GrammarApplicator::pipeInSingleWindow', 'GrammarApplicator::pipeOutSingleWindow', 'GrammarApplicator::indexSingleWindow',
        'GrammarApplicator::updateValidRules', 'GrammarApplicator::isChildOf', 'GrammarApplicator::initEmptyCohort', 'Cohort::detach', 'Window::rebuildCohortLinks', 'Window::rebuildSingleWindowLinks',
        'GrammarApplicator::reflowDependencyWindow', 'free_swindow', 'free_cohort', 'alloc_cohort', 'alloc_reading', 'GrammarApplicator::printSingleWindow', 'GrammarApplicator::getTagsMatching'}


class Terms:
    """which window an expression denotes, as far as that can be told: 'host' (the one the rules run on), W(x) (the one cohort x is in)"""

    def __init__(self, P, host):
        self.P, self.host = P, host
        self.decl, self.params, self.calls, self.writes = {}, {}, {}, {}
        self.fam = [f for f in P.funcs.values() if f.body is not None and f.file == host.file]
        seen = set()
        for f in self.fam:
            for i, p in enumerate(f.params):
                self.params[p['id']] = (f, i, p)
            for n in f.walk():
                if n.k == 'VarDecl':
                    self.decl[n.get('id')] = (n, f)
                if n.k in CALLS and n.get('fid'):
                    k = (n.where(), n.i)
                    if k not in seen:
                        seen.add(k)
                        self.calls.setdefault(n.get('fid'), []).append((n, f))
                t = None
                if n.k == 'BinaryOperator' and n.get('op') == '=':
                    t = strip(n.c[0])
                if t is not None and t.k == 'DeclRefExpr':
                    self.writes.setdefault(t.get('id'), []).append((n.c[1], f))
        self.uf = {}

    def known(self, w):
        """windows that are told apart when it comes to numbering: the one the rules run on, that of the target, that of a parameter; any other is `some window`"""
        return w if w in ('host', 'W(get_apply_to)') or w and (w.startswith('<') or w.startswith('W<')) and '|' not in w else '?'

    def windows(self):
        if not hasattr(self, 'wins'):
            self.wins = {'?'}
            for f in self.fam:
                for n in f.walk():
                    if n.k == 'MemberExpr' and short(n.get('mc')) == 'SingleWindow' and n.get('m') == 'cohorts':
                        self.wins.add(self.known(self.win(n.c[0], f)))
        return self.wins

    def lam_args(self, n):
        a = args(n)
        if n.k == 'CXXOperatorCallExpr' and n.get('cls'):
            a = a[1:]
        return a

    # ---- windows
    def win(self, n, fn, d=0):
        n = strip(n)
        if n is None or d > 12:
            return None
        if n.k == 'UnaryOperator' and n.get('op') in ('*', '&'):
            return self.win(n.c[0], fn, d + 1)
        if n.k == 'MemberExpr':
            mc, m = short(n.get('mc')), n.get('m')
            if (mc, m) == ('Cohort', 'parent'):
                return self.of(self.coh(n.c[0], fn, d + 1))
            if mc == 'SingleWindow' and m in ('previous', 'next'):
                w = self.win(n.c[0], fn, d + 1)
                return w and m + '(' + w + ')'
            if mc == 'Window' and m == 'current':
                return 'gcur'
            return None
        if n.k == 'DeclRefExpr':
            v = n.get('id')
            if v in self.params:
                f, i, p = self.params[v]
                if f is self.host:
                    return 'host'
                return '<%s>' % v
            if v in self.decl:
                dn, f = self.decl[v]
                if dn.c and dn.c[0] is not None and v not in self.writes:
                    return self.win(dn.c[0], f, d + 1) or 'v' + str(v)
                return 'v' + str(v)
        if n.k in ('CXXStaticCastExpr', 'ImplicitCastExpr') and n.c:
            return self.win(n.c[0], fn, d + 1)
        return None

    def of(self, c):
        if c is None:
            return None
        if c == 'target':
            return 'host'
        if c.startswith('in:'):
            return c[3:]
        if c.startswith('<'):
            return 'W' + c
        return 'W(%s)' % c

    # ---- cohorts
    def coh(self, n, fn, d=0):
        n = strip(n)
        if n is None or d > 12:
            return None
        if n.k == 'UnaryOperator' and n.get('op') in ('*', '&'):
            return self.coh(n.c[0], fn, d + 1)
        if n.k == 'MemberExpr' and n.get('m') == 'cohort' and n.get('dk') == 'Field':
            b = strip(n.c[0])
            if b is not None and b.k in CALLS and b.get('fs') in ('get_apply_to', 'get_attach_to', 'get_mark'):
                return b.get('fs')
            if b is not None and b.k == 'MemberExpr' and b.get('m') == 'target':
                return 'target'
            if b is not None and b.k == 'MemberExpr':
                return b.get('m')
            return None
        if n.k == 'DeclRefExpr':
            v = n.get('id')
            if v in self.params:
                return '<%s>' % v
            if v in self.decl:
                dn, f = self.decl[v]
                if not is_cohp(dn.t):
                    i = dn.c[0] if dn.c else None
                    for x in (i.walk() if i is not None else ()):
                        if x.k in CALLS and x.get('fs') in ('begin', 'end', 'rbegin', 'rend', 'cbegin', 'find', 'lower_bound') and recv(x) is not None:
                            w = self.elems(recv(x), f, d + 1)
                            return w and 'in:' + w
                        if x.k == 'DeclRefExpr' and x.get('id') in self.decl and x.get('id') != v and 'iterator' in (self.decl[x.get('id')][0].t or ''):
                            return self.coh(x, f, d + 1)
                    return None
                lw = self.loopwin(dn, f, d + 1)
                if lw:
                    return 'in:' + lw if '|' not in lw else None
                if self.ranged(dn):
                    return None
                if dn.c and dn.c[0] is not None and v not in self.writes and not self.escapes(v):
                    return self.coh(dn.c[0], f, d + 1) or 'v' + str(v)
                return 'v' + str(v)
        if n.k in CALLS:
            fs, r = n.get('fs'), recv(n)
            if fs == 'operator*' and len(n.c) > 1:
                return self.coh(n.c[1], fn, d + 1)
            if fs in ('front', 'back', 'operator[]', 'at') and r is None and n.k == 'CXXOperatorCallExpr' and len(n.c) > 1:
                r = n.c[1]
            if r is not None and fs in ('front', 'back', 'operator[]', 'at', 'begin', 'rbegin', 'operator*', 'operator->'):
                w = self.elems(r, fn, d + 1)
                return w and 'in:' + w
            ts = self.P.targets(n)
            if len(ts) == 1 and ts[0].body is not None and is_cohp(n.t):
                # a helper that makes a cohort and puts it into a window: known by the window of its argument
                return None
        if n.k == 'ArraySubscriptExpr':
            w = self.elems(n.c[0], fn, d + 1)
            return w and 'in:' + w
        return None

    def ranged(self, dn):
        p = dn.p
        while p is not None and p.k == 'DeclStmt':
            p = p.p
        return p is not None and p.k == 'CXXForRangeStmt'

    def escapes(self, v):
        """handed out by reference or address (swapped, filled in)"""
        if not hasattr(self, 'esc'):
            self.esc = set()
            from ..ir import byref_args
            for f in self.fam:
                for n in f.walk():
                    if n.k == 'UnaryOperator' and n.get('op') == '&':
                        t = strip(n.c[0])
                        if t is not None and t.k == 'DeclRefExpr':
                            self.esc.add(t.get('id'))
                    if n.k in CALLS:
                        if n.k == 'CXXMemberCallExpr' and n.get('fs') in ('insert', 'push_back', 'erase', 'find', 'count', 'contains', 'lower_bound'):
                            continue
                        for t, a in byref_args(n):
                            if t.startswith('const '):
                                continue
                            a = strip(a)
                            if a is not None and a.k == 'DeclRefExpr':
                                self.esc.add(a.get('id'))
        return v in self.esc

    def loopwin(self, dn, f, d):
        """for (auto c : W.cohorts) -> W; for (auto c : set) -> window of the set"""
        p = dn.p
        while p is not None and p.k in ('DeclStmt',):
            p = p.p
        if p is None or p.k != 'CXXForRangeStmt':
            return None
        if not is_cohp(dn.t):
            return None
        for x in p.c:
            if x is None or x is dn.p:
                continue
            for y in x.walk():
                if y.k == 'VarDecl' and (y.get('d') or '').startswith('__range') and y.c and y.c[0] is not None:
                    return self.elems(y.c[0], f, d + 1)
        return None

    def elems(self, n, fn, d=0):
        """the window all members of this collection belong to"""
        n = strip(n)
        if n is None or d > 12:
            return None
        if n.k == 'MemberExpr' and short(n.get('mc')) == 'SingleWindow' and n.get('m') in ('cohorts', 'all_cohorts'):
            return self.win(n.c[0], fn, d + 1)
        if n.k in CALLS and args(n) and n.get('fs') in ('reversed', 'move', 'forward'):
            return self.elems(args(n)[0], fn, d + 1)
        if n.k == 'DeclRefExpr':
            v = n.get('id')
            if v in self.decl and ('Cohort' in (self.decl[v][0].t or '')):
                dn, f = self.decl[v]
                i = strip(dn.c[0]) if dn.c and dn.c[0] is not None else None
                if i is not None and i.k == 'MemberExpr' and (dn.t or '').strip().endswith('&'):
                    return self.elems(i, f, d + 1)
                return self.setwin(v, d + 1)
        return None

    def setwin(self, v, d):
        key = ('set', v)
        if key in self.uf:
            return self.uf[key]
        self.uf[key] = None
        ws = set()
        for f in self.fam:
            for n in f.walk():
                if n.k not in CALLS:
                    continue
                r = recv(n)
                if r is not None and strip(r).k == 'DeclRefExpr' and strip(r).get('id') == v and n.get('fs') in ('insert', 'push_back', 'emplace_back') and len(args(n)) == 1:
                    ws.add(self.of(self.coh(args(n)[0], f, d + 1)))
                elif self.P.targets(n):
                    a = self.lam_args(n)
                    ia = [i for i, x in enumerate(a) if x is not None and strip(x).k == 'DeclRefExpr' and strip(x).get('id') == v]
                    for t in self.P.targets(n):
                        if t.body is None or t.file != self.host.file:
                            continue
                        for i in ia:
                            h = self.collects(t, i)
                            if h is not None and h < len(a):
                                ws.add(self.of(self.coh(a[h], f, d + 1)))
                            elif h is None and i < len(t.params) and t.params[i]['t'].strip().endswith('&') and not t.params[i]['t'].startswith('const'):
                                ws.add(None)
        w = '|'.join(sorted(ws)) if ws and None not in ws else None
        self.uf[key] = w
        return w

    def collects(self, t, i):
        """function t puts only the cohort in parameter h, or cohorts of the window that one is in, into its parameter i: h"""
        if ('col', t.id, i) in self.uf:
            return self.uf[('col', t.id, i)]
        pid = t.params[i]['id'] if i < len(t.params) else None
        hs = [j for j, p in enumerate(t.params) if is_cohp(p['t'])]
        res = None
        if pid is not None and len(hs) == 1:
            hp = '<%s>' % t.params[hs[0]]['id']
            ok = n_ = 0

            def good(sid, depth):
                nonlocal ok, n_
                for n in t.walk():
                    if n.k in CALLS and recv(n) is not None and strip(recv(n)).k == 'DeclRefExpr' and strip(recv(n)).get('id') == sid and n.get('fs') in ('insert', 'push_back', 'emplace_back'):
                        n_ += 1
                        a = args(n)
                        if len(a) == 1:
                            w = self.of(self.coh(a[0], t))
                            if w == 'W' + hp:
                                ok += 1
                        elif len(a) == 2 and depth < 2:
                            b = [x for x in a[0].walk() if x.k == 'DeclRefExpr' and x.get('id') in self.decl]
                            if b:
                                ok += 1
                                good(b[0].get('id'), depth + 1)
            good(pid, 0)
            if n_ and ok == n_:
                res = hs[0]
        self.uf[('col', t.id, i)] = res
        return res


def is_cohp(t):
    return (t or '').replace('const ', '').replace('CG3::', '').replace('*const', '*').strip(' &').replace(' ', '') == 'Cohort*'


class Win(Analysis):
    """effects of a callee on the window of (a cohort in) one of its parameters count for the window of the argument"""

    def apply(self, e, s, n, f, t):
        T = self.spec.T
        a = T.lam_args(n)
        s2 = []
        for key, val in s:
            if key[0] == 'a' and '<' in key[1]:
                name, _, w = key[1].partition('@')
                for i, p in enumerate(t.params):
                    tok = '<%s>' % p['id']
                    if tok in w:
                        x = a[i] if i < len(a) else None
                        if x is not None and strip(x).k == 'CXXDefaultArgExpr':
                            x = None
                        if w == tok:
                            r = T.win(x, f) if x is not None and not is_null(x) else self.spec.fallback(t, p['id'])
                        else:
                            r = w.replace('W' + tok, T.of(T.coh(x, f)) or '?') if x is not None else None
                        w = T.known(r)
                s2.append((('a', name + '@' + w), val))
            else:
                s2.append((key, val))
        # forgetting first, then what is left open
        s2.sort(key=lambda kv: 0 if kv[1] == '-' else 1)
        super().apply(e, s2, n, f, t)


def is_null(x):
    return any(y.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') for y in x.walk())


class W10(RuleSpec):
    def __init__(self, P, k, T, loops):
        if k:
            super().__init__(P, k)
        self.P, self.k, self.T, self.loops = P, k, T, loops

    def fold(self, n, fn):
        return super().fold(n, fn) if self.k else None

    def switch(self, term, fn):
        return super().switch(term, fn) if self.k else None

    def skip(self, t):
        return t.q in STOP

    def param_type(self, t):
        return False

    def fallback(self, t, pid):
        ws = self.T.writes.get(pid) or []
        return self.T.win(ws[0][0], ws[0][1]) if len(ws) == 1 else None

    def once(self, B, fn):
        if B.term.i in self.loops.get(fn.id, {}):
            return True
        return any(x.k == 'MemberExpr' and x.get('m') in ('cohort_map', 'rule_to_cohorts') for c in B.term.c[:-1] if c is not None for x in c.walk())

    def mut(self, root, op, node, fn):
        if root.kind != 'field':
            return ()
        key = (short(root.cls), root.field)
        if key == ('SingleWindow', 'cohorts') and op in EDIT:
            w = self.T.known(self.T.win(root.base, fn))
            if op in ('push_back', 'emplace_back'):
                return [('+', 'INS')]
            if op == 'erase':
                a = args(node)
                if len(a) == 2 and any(x.k in CALLS and x.get('fs') == 'end' for x in a[1].walk()):
                    return [('+', 'CUT'), ('+', 'LINK')]
                return [('+', 'DEL'), ('+', 'NUM@' + w), ('+', 'LINK')]
            return [('+', {'insert': 'INS', '=': 'SET', 'operator=': 'SET'}.get(op, 'INS' if op == 'emplace' else 'RESIZE')), ('+', 'NUM@' + w), ('+', 'LINK')]
        if key == ('SingleWindow', 'all_cohorts'):
            if op == 'erase':
                a = args(node)
                if len(a) == 2 and any(x.k in CALLS and x.get('fs') == 'end' for x in a[1].walk()):
                    return [('+', 'ACUT')]
                return [('+', 'ADEL')]
            if op in ('insert', 'push_back', 'emplace_back', 'emplace'):
                return [('+', 'AHEIR' if len(args(node)) == 3 else 'AINS')]
            if op in ('=', 'operator='):
                return [('+', 'ASET')]
            if op == 'clear':
                return [('+', 'ACLEAR')]
        if key[0] == 'Window' and key[1] in ('cohort_map', 'dep_window'):
            nm = 'MAP' if key[1] == 'cohort_map' else 'DEPW'
            if op in ('=', 'insert', 'emplace', 'insert_or_assign', 'try_emplace'):
                if node.k == 'BinaryOperator':
                    for x in node.c[0].walk():
                        if x.k == 'CXXOperatorCallExpr' and x.get('fs') == 'operator[]' and x.c[-1] is not None and strip(x.c[-1]).ev == '0':
                            return ()
                return [('+', nm + '+')]
            if op == 'erase':
                return [('+', nm + '-')]
        if key == ('Cohort', 'dep_children') and op == 'erase' and incm(node):
            return [('+', 'DEPCH-')]
        if key == ('SingleWindow', 'rule_to_cohorts') and op == 'erase':
            return [('+', 'RULES')]
        if key == ('Cohort', 'type') and node.k == 'CompoundAssignOperator' and op == '|=':
            v = node.c[1].ev or strip(node.c[1]).ev
            ct = self.P.enum('CT_REMOVED', 'CT_IGNORED')
            if v is not None and int(v) & ct['CT_REMOVED']:
                return [('+', 'REMOVED')]
            if v is not None and int(v) & ct['CT_IGNORED']:
                return [('+', 'IGNORED')]
        if key == ('Cohort', 'global_number') and op == '=':
            return [('+', 'GNUM')]
        if key == ('Cohort', 'local_number') and op == '=':
            for lp in loops_of(node):
                w = self.loops.get(fn.id, {}).get(lp.i)
                if w:
                    return [('-', 'NUM@' + x) for x in (self.T.windows() if w == '?' else (w, '?'))]
        if key == ('SingleWindow', 'text') and op in ('+=', 'operator+=', '=', 'operator='):
            return [('+', 'TEXT')]
        return ()

    def node(self, n, fn):
        if n.k in CALLS:
            if is_call(n, 'rebuildCohortLinks'):
                return [('-', 'LINK')]
            if is_call(n, 'detach') and short(n.get('cls')) == 'Cohort':
                return [('+', 'DETACH')]
            if is_call(n, 'indexSingleWindow'):
                return [('+', 'RULES')]
        return ()

    def infeasible(self, n, val, env, fn):
        # a window always has its start
        n = strip(n)
        if n is not None and n.k in CALLS and n.get('fs') == 'empty' and recv(n) is not None:
            r = strip(recv(n))
            return bool(val) and r is not None and r.k == 'MemberExpr' and short(r.get('mc')) == 'SingleWindow' and r.get('m') in ('cohorts', 'all_cohorts')
        return False



def incm(node):
    """inside a loop over all cohorts of the stream"""
    for lp in loops_of(node):
        if any(x.k == 'MemberExpr' and x.get('m') == 'cohort_map' for c in lp.c[:-1] if c is not None for x in c.walk()):
            return True
    return False


def loops_of(n):
    p = n.p
    while p is not None:
        if p.k in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt'):
            yield p
        p = p.p


def renumbering(P, T):
    """fn id -> {loop statement index: window term} of the loops that number the cohorts of a window"""
    res = {}
    pure = []
    for f in P.funcs.values():
        if f.body is None:
            continue
        for n in f.walk():
            if n.k != 'BinaryOperator' or n.get('op') != '=':
                continue
            l = strip(n.c[0])
            if l is None or l.k != 'MemberExpr' or (short(l.get('mc')), l.get('m')) != ('Cohort', 'local_number'):
                continue
            if n.c[1].ev is not None:
                continue
            for lp in loops_of(n):
                w = None
                for x in lp.walk():
                    if x.k == 'MemberExpr' and short(x.get('mc')) == 'SingleWindow' and x.get('m') == 'cohorts':
                        w = T.known(T.win(x.c[0], f))
                        break
                if w is None:
                    # over a list that was handed over, or has another name
                    for x in lp.walk():
                        if x.k == 'DeclRefExpr' and 'vector<CG3::Cohort *' in (x.t or '').replace('const ', ''):
                            w = T.known(T.elems(x, f))
                            break
                if w:
                    res.setdefault(f.id, {})[lp.i] = w
                    body = lp.c[-1]
                    if body is not None and not any(x.k == 'IfStmt' or x.k in CALLS and any(t.body is not None and t.cls for t in P.targets(x)) for x in body.walk()):
                        pure.append((f, lp, n))
                break
    return res, pure


def check(ctx):
    P = ctx.P
    host, rc, cc, rs = callbacks(P)
    T = Terms(P, host)
    loops, pure = renumbering(P, T)
    kinds = rule_types(P)
    ctx.rule('number', 'after cohorts were put in, taken out or moved, the cohorts of that window are numbered anew, and linked anew, before the rule is done', 16)
    ctx.rule('count', 'numbering a window gives every cohort its place', 3)
    ctx.rule('insert', 'a cohort that is inserted gets a number and is in both lists of the window and in the maps of the stream', 5)
    ctx.rule('remove', 'a cohort that is taken out is marked, detached, and gone from the list of active cohorts, the map of the stream, the rule index and (unless only ignored) from the children of others; its text stays', 4)
    ctx.rule('move', 'a cohort that is moved is moved in both lists', 3)
    ctx.rule('window', 'a place taken from the number of a cohort is only used in the window that cohort is in', 12)
    ctx.rule('lookup', 'a cohort looked up by its number is only used if it was found', 8)
    ctx.rule('delimit', 'a window that is split hands over all that follows, in order, and the list of windows keeps its order', 8)
    ctx.rule('unignore', 'ignored cohorts come back when the window is done', 2)
    for f in (rc, cc, host):
        ctx.saw(f)
    want = {'K_ADDCOHORT_AFTER': 'i', 'K_ADDCOHORT_BEFORE': 'i', 'K_COPYCOHORT': 'i', 'K_SPLITCOHORT': 'ir', 'K_MERGECOHORTS': 'ir', 'K_REMCOHORT': 'r', 'K_MOVE_AFTER': 'm', 'K_MOVE_BEFORE': 'm', 'K_SWITCH': 's', 'K_DELIMIT': ''}
    done = {}
    for k in sorted(kinds):
        S = set()
        for g in (rc, cc):
            A = Win(P, W10(P, k, T, loops))
            S |= {frozenset(atoms(s)) for s in A.summary(g)}
            ctx.saw(*A.visited)
        ed = [s for s in S if s & {'INS', 'DEL', 'SET', 'CUT', 'RESIZE'}]
        if not ed:
            if k in want:
                raise Broken('%s no longer edits the list of cohorts' % k)
            continue
        import os
        where = '%s:%d' % (host.file, host.line)
        bad = [a for s in ed for a in s if a.startswith('NUM@')]
        ctx.check(not bad, 'number', 'numbers:' + k, where, '%s numbers the cohorts anew' % k[2:], '%s can leave the cohorts of %s with the places they had before' % (k[2:], wname(bad)))
        bad = [s for s in ed if 'LINK' in s]
        ctx.check(not bad, 'number', 'links:' + k, where, '%s links the cohorts anew' % k[2:], '%s can leave the cohorts linked as they were before' % k[2:])
        done[k] = ed
        exp = want.get(k, '')
        if 'i' in exp:
            G = {'INS', 'AINS', 'MAP+', 'DEPW+', 'GNUM'}
            # numbered as they are made, in another loop than the one that puts them in
            N_ = G - {'GNUM'}
            part = [s & G for s in S if s & N_ and not (N_ if 'r' in exp else G) <= s]
            some = any(G <= s for s in S)
            ctx.check(some and not part, 'insert', k, where, '%s: in both lists and both maps on every path that inserts' % k[2:],
                      '%s can insert a cohort without %s' % (k[2:], ' and '.join(iname[x] for x in sorted(G - (part[0] if part else set())))))
        if 'r' in exp:
            for mark, G in (('REMOVED', {'DEL', 'DETACH', 'MAP-', 'RULES', 'DEPCH-'}), ('IGNORED', {'DEL', 'DETACH', 'MAP-', 'RULES'})):
                if mark == 'IGNORED' and k != 'K_REMCOHORT':
                    continue
                sub = [s for s in S if mark in s]
                part = [G - s for s in sub if not G <= s]
                ctx.check(bool(sub) and not part, 'remove', '%s/%s' % (k, mark.lower()), where, '%s: all traces of the cohort are removed where it is marked as %s' % (k[2:], mark.lower()),
                          '%s can leave a cohort that is marked as %s %s' % (k[2:], mark.lower(), ' and '.join(rname[x] for x in sorted(part[0]))) if part else '%s never marks a cohort as %s' % (k[2:], mark.lower()))
            part = [s for s in S if 'DEL' in s and not s & {'REMOVED', 'IGNORED'}]
            ctx.check(not part, 'remove', k + '/marked', where, '%s: marked on every path that takes a cohort out' % k[2:], '%s can take a cohort out without marking it' % k[2:])
            part = [s for s in S if 'ADEL' in s]
            ctx.check(not part, 'remove', k + '/text', where, '%s: the cohort stays in the list of all cohorts' % k[2:], '%s can drop a cohort, and the text after it, from the list of all cohorts' % k[2:])
        if 'm' in exp:
            G = {'INS', 'AINS', 'DEL', 'ADEL'}
            part = [s for s in S if s & {'DEL', 'ADEL'} and bool('DEL' in s) != bool('ADEL' in s) or s & {'INS', 'AINS'} and bool('INS' in s) != bool('AINS' in s)]
            ctx.check(any(G <= s for s in S) and not part, 'move', k, where, '%s: taken out of and put into both lists' % k[2:], '%s can move a cohort in one list of the window only' % k[2:])
        if 's' in exp:
            part = [s for s in S if bool('SET' in s) != bool('ASET' in s)]
            ctx.check(any({'SET', 'ASET'} <= s for s in S) and not part, 'move', k, where, '%s: exchanged in both lists' % k[2:], '%s can exchange cohorts in one list of the window only' % k[2:])
    if set(want) - set(done):
        raise Broken('rule types %s vanished' % ', '.join(sorted(set(want) - set(done))))
    heir(ctx, P, T, loops)
    count(ctx, P, pure)
    window(ctx, P, T, host)
    lookup(ctx, P)
    delimit(ctx, P)
    unignore(ctx, P, T, loops)


iname = {'INS': 'putting it into the list of active cohorts', 'AINS': 'putting it into the list of all cohorts', 'MAP+': 'putting it into the map of cohorts', 'DEPW+': 'putting it into the map for dependencies', 'GNUM': 'giving it a number'}
rname = {'DEL': 'in the list of active cohorts', 'DETACH': 'linked to its neighbours', 'MAP-': 'in the map of cohorts', 'RULES': 'in the rule index', 'DEPCH-': 'among the children of other cohorts'}


def wname(b):
    if not b:
        return 'the window'
    w = b[0].split('@')[1]
    return 'the window' if w == 'host' else 'the window of the cohort it is about' if w.startswith('W(get_apply_to') else 'that other window'


def heir(ctx, P, T, loops):
    """functions that empty a window for good hand its cohorts and text to a neighbour, if it has one"""
    class S(W10):
        def assume(self, n, val, fn):
            n = strip(n)
            if n is not None and n.k == 'MemberExpr' and short(n.get('mc')) == 'SingleWindow' and n.get('m') in ('previous', 'next'):
                return [('+', ('HAS@' if val else 'NO@') + n.get('m'))]
            return ()

        def infeasible(self, n, val, env, fn):
            n2 = strip(n)
            if n2 is not None and n2.k == 'MemberExpr' and short(n2.get('mc')) == 'SingleWindow' and n2.get('m') in ('previous', 'next'):
                return ('a', ('NO@' if val else 'HAS@') + n2.get('m')) in env
            return super().infeasible(n, val, env, fn)

        def skip(self, t):
            return True
    for f in T.fam:
        if not any(n.k in CALLS and n.get('fs') == 'clear' and recv(n) is not None and strip(recv(n)).k == 'MemberExpr' and strip(recv(n)).get('m') == 'all_cohorts' for n in f.walk()):
            continue
        ctx.saw(f)
        A = Win(P, S(P, None, T, loops))
        S_ = [set(atoms(s)) for s in A.summary(f)]
        S_ = [s for s in S_ if 'ACLEAR' in s]
        part = [s for s in S_ if s & {'HAS@previous', 'HAS@next'} and not {'AHEIR', 'TEXT'} <= s]
        ctx.check(bool(S_) and not part, 'remove', 'heir/%s' % ('lambda' if f.is_lambda else f.q), '%s:%d' % (f.file, f.line), 'cohorts and text of a window that is dropped go to its neighbour', 'a window can be dropped without handing over its %s' % ('cohorts' if part and 'AHEIR' not in part[0] else 'text'))


def count(ctx, P, pure):
    for f, lp, n in pure:
        where = n.where()
        key = '%s/%s' % (f.q, canon(n.c[0])[:60])
        v = strip(n.c[1])
        while v is not None and v.k in CALLS and v.get('fs', '').startswith('UI') and args(v):
            v = strip(args(v)[0])
        # which value
        why = None
        if v is not None and v.k in CALLS and v.get('fs') == 'distance':
            pass
        elif v is not None and v.k in ('BinaryOperator', 'CXXOperatorCallExpr'):
            op = v.get('op') or v.get('fs', '').replace('operator', '')
            c = [x.ev for x in (v.c[0], v.c[1]) if x is not None and x.ev is not None]
            if op in ('+', '-') and any(int(x) != 0 for x in c):
                why = 'is off by %s' % c[0]
        # where it starts and ends
        for c in lp.c[:-1]:
            if c is None:
                continue
            for x in c.walk():
                if x.k == 'VarDecl' and x.c and x.c[0] is not None and x.c[0].ev is not None and int(x.c[0].ev) > 1:
                    why = 'starts at cohort %s' % x.c[0].ev
                op, a, b = cmp_parts(x)
                if op in ('<', '!=', '<='):
                    e = strip(b)
                    if e is not None and e.k == 'BinaryOperator' and e.get('op') == '-' and e.c[1].ev not in (None, '0'):
                        why = 'ends %s before the last cohort' % e.c[1].ev
                    if op == '<=' and e is not None and e.k in CALLS and e.get('fs') == 'size':
                        why = 'runs past the last cohort'
            for x in c.walk():
                if x.k == 'CXXOperatorCallExpr' and x.get('fs') in ('operator+', 'operator-') and any(y.k in CALLS and y.get('fs') in ('begin', 'end') for y in x.walk()):
                    k = [y.ev for y in x.c if y is not None and y.ev is not None]
                    end = any(y.k in CALLS and y.get('fs') == 'end' for y in x.walk())
                    if k and int(k[0]) > (0 if end else 1):
                        why = 'leaves out cohorts'
        if any(x.k in ('BreakStmt', 'ContinueStmt', 'ReturnStmt') for x in lp.c[-1].walk()):
            why = 'can end early'
        ctx.check(why is None, 'count', key, where, 'all cohorts are numbered by their place', 'the numbering of cohorts in %s %s' % (f.q, why))


def window(ctx, P, T, host):
    """W.cohorts[... X->local_number ...] and W.cohorts.begin() + X->local_number"""
    sites = set()
    for f in T.fam:
        facts = None
        for n in f.walk():
            if n.k not in CALLS:
                continue
            fs = n.get('fs')
            base = idx = None
            if fs in ('operator[]', 'at'):
                base = recv(n) if recv(n) is not None else n.c[1]
                idx = n.c[-1]
            elif fs in ('operator+',) and n.k == 'CXXOperatorCallExpr':
                b = strip(n.c[1])
                while b is not None and b.k in ('CXXConstructExpr', 'MaterializeTemporaryExpr') and len(b.c) == 1:
                    b = strip(b.c[0])
                if b is not None and b.k in CALLS and b.get('fs') in ('begin', 'cbegin'):
                    base, idx = recv(b), n.c[2]
            elif fs == 'next' and len(args(n)) == 2:
                b = strip(args(n)[0])
                if b is not None and b.k in CALLS and b.get('fs') in ('begin', 'cbegin'):
                    base, idx = recv(b), args(n)[1]
            base = strip(base) if base is not None else None
            if base is None or base.k != 'MemberExpr' or short(base.get('mc')) != 'SingleWindow' or base.get('m') not in ('cohorts', 'all_cohorts'):
                continue
            X = number_of(T, idx, f)
            if X is None:
                continue
            w, x = T.win(base.c[0], f), None
            c = T.coh(X[0], X[1])
            x = T.of(c)
            key = '%s/%s[%s]' % (f.q.split('::')[-1] if not f.is_lambda else 'lambda', canon(base)[-40:], canon(X[0])[-40:])
            if w is None or x is None:
                continue
            ok = w == x
            if not ok:
                if facts is None:
                    facts = same(T, f)
                ok = any(holds(fa, n, w, x, T) for fa in facts)
            if not ok and '<' in x + w:
                # a parameter: every caller has to see to it
                ok = all_callers(T, f, w, x)
            ctx.check(ok, 'window', key, n.where(), 'the place is one in the window it is used in',
                      '%s: the place of a cohort (%s) is used in the list of a window that may be another one: nothing says that the cohort is in that window' % (f.q, canon(X[0])[-60:]))


def all_callers(T, f, w, x):
    cs = T.calls.get(f.id) or []
    if not cs:
        return False
    for n, g in cs:
        a = T.lam_args(n)
        w2, x2 = w, x
        for i, p in enumerate(f.params):
            tok = '<%s>' % p['id']
            if i >= len(a) or a[i] is None:
                continue
            if w2 == tok:
                w2 = T.win(a[i], g) or '?w'
            if x2 == tok:
                x2 = T.win(a[i], g) or '?x'
            for nm in ('W' + tok,):
                if nm in w2:
                    w2 = w2.replace(nm, T.of(T.coh(a[i], g)) or '?w')
                if nm in x2:
                    x2 = x2.replace(nm, T.of(T.coh(a[i], g)) or '?x')
        if w2 != x2 and not any(holds(fa, n, w2, x2, T) for fa in same(T, g)):
            return False
    return True


def number_of(T, idx, f, d=0):
    """(cohort expression, function) whose local_number the index is computed from"""
    if idx is None or d > 4:
        return None
    for x in idx.walk():
        if x.k == 'MemberExpr' and (short(x.get('mc')), x.get('m')) == ('Cohort', 'local_number'):
            return x.c[0], f
    for x in idx.walk():
        if x.k == 'DeclRefExpr' and x.get('id') in T.decl and 'int' in (T.decl[x.get('id')][0].t or '') or x.k == 'DeclRefExpr' and x.get('id') in T.decl and 'long' in (T.decl[x.get('id')][0].t or ''):
            dn, g = T.decl[x.get('id')]
            srcs = [e for e in ([dn.c[0]] if dn.c and dn.c[0] is not None else [])] + [e for e, _ in T.writes.get(x.get('id'), ())]
            for s in srcs:
                r = number_of(T, s, g, d + 1)
                if r is not None:
                    return r
    return None


def same(T, f):
    """[(condition node, cohort/window term a, b, value that means equal)]: comparisons of the windows of two cohorts in this function"""
    res = []
    for n in f.walk():
        op, a, b = cmp_parts(n)
        if op not in ('==', '!='):
            continue
        x, y = T.win(a, f), T.win(b, f)
        if x and y and x != y:
            res.append((n, x, y, op == '==', f))
    return res


def holds(fa, site, w, x, T):
    """the comparison fa has come out as `equal` on every path to site"""
    n, a, b, eqv, f = fa
    cls = classes(T, a, b)
    if not ({w, x} <= cls):
        return False
    return established(f, n, eqv, site, [t[3:-1] for t in (a, b) if t.startswith('W(v')])


def classes(T, a, b):
    """terms that are the same window when a and b are (two cohorts compared and exchanged: also what they started out as)"""
    cls = {a, b}
    for t in (a, b):
        if t.startswith('W(v') and t.endswith(')'):
            v = t[3:-1]
            for vid, (dn, f) in T.decl.items():
                if str(vid) == v and dn.c and dn.c[0] is not None and not T.writes.get(vid):
                    w = T.of(T.coh(dn.c[0], f))
                    if w:
                        cls.add(w)
    return cls


def established(f, cond, val, site, var=None):
    """forward must-analysis: condition `cond` was last decided with value val"""
    cfg = f.cfg
    ins = {cfg.entry: None}
    work = [cfg.entry]
    wr = {n.i for n in f.walk() if n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]).k == 'DeclRefExpr' and var and str(strip(n.c[0]).get('id')) in var} if var else ()

    def blk(n):
        m = n
        while m is not None:
            for B in cfg.b.values():
                if any(e is m for e in B.els if not isinstance(e, tuple)):
                    return B.id
            m = m.p
        return None
    while work:
        b = work.pop()
        B = cfg.b[b]
        if B.nr:
            continue
        for i, t in enumerate(B.succ):
            if t < 0:
                continue
            v = ins[b]
            if wr and any(e.i in wr for e in B.els if not isinstance(e, tuple)):
                # what is compared gets another value: where the comparison came out the other way, that one is taken to be right
                v = True if v is False else None
            if B.cond is not None and len(B.succ) == 2:
                lv = decided(B, cond, i == 0)
                if lv is not None:
                    v = lv == val
            if t not in ins:
                ins[t] = v
                work.append(t)
            elif ins[t] is not None and ins[t] != v:
                ins[t] = None
                work.append(t)
    # a site inside a nested construct of the same function
    b = blk(site)
    return b is not None and ins.get(b) is True


def decided(B, cond, val):
    """value of `cond` on this edge, if the edge decides it"""
    c = strip(B.cond)
    if B.term is not None and B.term.k == 'BinaryOperator' and B.term.get('op') in ('&&', '||') and c is B.term:
        c = strip(c.c[0])

    def go(n, v):
        n = strip(n)
        if n is None:
            return None
        if n is strip(cond) or n is cond:
            return v
        if n.k == 'CXXRewrittenBinaryOperator' and any(x is cond for x in n.walk()):
            return v
        if n.k == 'UnaryOperator' and n.get('op') == '!':
            return go(n.c[0], not v)
        if n.k == 'BinaryOperator' and n.get('op') == '&&' and v:
            return first(go(n.c[0], True), go(n.c[1], True))
        if n.k == 'BinaryOperator' and n.get('op') == '||' and not v:
            return first(go(n.c[0], False), go(n.c[1], False))
        return None
    return go(c, val)


def first(a, b):
    return a if a is not None else b


def lookup(ctx, P):
    """cohort_map[...] read and dereferenced, cohort_map.find(...)->second: only with a check that it is there"""
    AA = Analysis(P, Spec())
    for f in sorted((f for f in P.funcs.values() if f.body is not None and f.cfg is not None), key=lambda f: (f.file, f.line)):
        num = {}
        for n in f.walk():
            m = key = None
            kind = ''
            if n.k == 'CXXOperatorCallExpr' and n.get('fs') == 'operator[]':
                m, key, kind = strip(n.c[1]), n.c[2], 'at'
            elif n.k == 'CXXMemberCallExpr' and n.get('fs') == 'find' and derefd(n):
                m, key, kind = strip(recv(n)), args(n)[0], 'find'
            if m is None or m.k != 'MemberExpr' or short(m.get('mc')) != 'Window' or m.get('m') not in ('cohort_map', 'dep_window'):
                continue
            if kind == 'at' and written(n):
                continue
            kc = canon(key)
            num[kc] = num.get(kc, 0) + 1
            k = '%s/%s' % (f.q, kc[-60:])
            if strip(key).ev == '0':
                ctx.ok('lookup', k, n.where(), 'the start of the window is always there')
                continue
            ok = guarded(P, f, n, m, kc)
            ctx.check(ok, 'lookup', k, n.where(), 'looked up after it was found',
                      '%s uses the cohort with the number %s without asking whether it is (still) there' % (f.q, kc[-60:]))
        # iterators from find(): dereferenced only after a comparison with end()
        for d in f.walk():
            if d.k != 'VarDecl' or not d.c or d.c[0] is None:
                continue
            c = strip(d.c[0])
            while c is not None and c.k in ('CXXConstructExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr') and len(c.c) == 1:
                c = strip(c.c[0])
            if c is None or c.k != 'CXXMemberCallExpr' or c.get('fs') != 'find':
                continue
            m = strip(recv(c))
            if m is None or m.k != 'MemberExpr' or short(m.get('mc')) != 'Window' or m.get('m') not in ('cohort_map', 'dep_window'):
                continue
            if args(c) and strip(args(c)[0]).ev == '0':
                continue
            vid = d.get('id')
            tests = []
            for x in f.walk():
                op, a, b = cmp_parts(x)
                if op in ('==', '!=') and any(y is not None and y.k == 'DeclRefExpr' and y.get('id') == vid for y in (peel(a), peel(b))) and any(z.k in CALLS and z.get('fs') in ('end', 'cend') for y in (a, b) if y is not None for z in y.walk()):
                    tests.append((x, op == '!='))
            uses = [x for x in f.walk() if x.k == 'CXXOperatorCallExpr' and x.get('fs') in ('operator->', 'operator*') and peel(x.c[1]) is not None and peel(x.c[1]).k == 'DeclRefExpr' and peel(x.c[1]).get('id') == vid]
            # a fallback assigned to it: find(0)
            bad = [u for u in uses if not any(established_or(f, t, v, u, vid) for t, v in tests)]
            ctx.check(not bad, 'lookup', '%s/it:%s' % (f.q, canon(args(c)[0])[-60:]), d.where(), '%d uses, each after a comparison with end()' % len(uses),
                      '%s follows the cohort looked up by %s without asking whether it was found' % (f.q, canon(args(c)[0])[-60:]))


def peel(n):
    n = strip(n)
    while n is not None and n.k in ('CXXConstructExpr', 'MaterializeTemporaryExpr', 'ImplicitCastExpr', 'CXXBindTemporaryExpr') and len(n.c) == 1:
        n = strip(n.c[0])
    return n


def established_or(f, cond, val, site, vid):
    return established(f, cond, val, site)


def derefd(n):
    p = n.p
    while p is not None and p.k in ('ImplicitCastExpr', 'MaterializeTemporaryExpr', 'ParenExpr', 'ExprWithCleanups'):
        p = p.p
    return p is not None and p.k == 'CXXOperatorCallExpr' and p.get('fs') in ('operator->', 'operator*')


def written(n):
    p, c = n.p, n
    while p is not None and p.k in ('ParenExpr',):
        p, c = p.p, p
    return p is not None and p.k == 'BinaryOperator' and p.get('op') == '=' and p.c[0] is c


def guarded(P, f, n, m, kc):
    mc = canon(m)
    for x in f.walk():
        if x.k == 'CXXMemberCallExpr' and x.get('fs') in ('count', 'contains') and strip(recv(x)).get('m') == m.get('m') and canon(args(x)[0]) == kc:
            if established(f, top_cond(x), True, n):
                return True
        op, a, b = cmp_parts(x)
        if op in ('==', '!=') and a is not None and b is not None:
            for y, z in ((a, b), (b, a)):
                y, z = peel(y), peel(z)
                if y is not None and y.k == 'CXXMemberCallExpr' and y.get('fs') == 'find' and strip(recv(y)).get('m') == m.get('m') and canon(args(y)[0]) == kc and z is not None and z.k in CALLS and z.get('fs') in ('end', 'cend'):
                    if established(f, x, op == '!=', n):
                        return True
    return False


def top_cond(x):
    """the condition a count() stands for"""
    p = x
    while p.p is not None and (p.p.k in ('ImplicitCastExpr', 'ParenExpr') or p.p.k == 'BinaryOperator' and p.p.get('op') in ('!=', '>', '==')):
        if p.p.k == 'BinaryOperator':
            if p.p.get('op') == '==':
                return x
            return p.p
        p = p.p
    return x


def delimit(ctx, P):
    f = P.fn('GrammarApplicator::delimitAt')
    ctx.saw(f)
    where = '%s:%d' % (f.file, f.line)
    ct = {k: v for k, v in P.enum('CT_REMOVED', 'CT_IGNORED', 'CT_ENCLOSED').items() if k in ('CT_REMOVED', 'CT_IGNORED', 'CT_ENCLOSED')}
    full = (1 << 32) - 1

    def sites(n, fn):
        if n.k in CALLS and any(True for _ in loops_of(n)):
            r = strip(recv(n)) if recv(n) is not None else None
            if is_call(n, 'appendCohort'):
                yield 'active'
            elif n.get('fs') in ('push_back', 'emplace_back', 'insert') and r is not None and r.k == 'MemberExpr' and r.get('m') == 'all_cohorts':
                yield 'all'
    skip = lambda t: t.q in STOP or t.q == 'SingleWindow::appendCohort'
    for nm, v in sorted(ct.items()):
        got, A = reached(P, Model({('Cohort', 'type'): Bits(full, v)}), f, sites, skip)
        ctx.check(got == {'all'}, 'delimit', nm, where, 'a cohort with %s stays in the list of all cohorts only' % nm, 'a cohort with %s is handed over as %s when a window is split' % (nm, 'an active one' if 'active' in got else 'nothing'))
    got, A = reached(P, Model({('Cohort', 'type'): Bits(full, 0)}), f, sites, skip)
    ctx.check(got == {'active'}, 'delimit', 'plain', where, 'other cohorts are handed over as active ones', 'active cohorts are handed over as %s when a window is split' % (', '.join(sorted(got)) or 'nothing'))

    class S(W10):
        def mut(self, root, op, node, fn):
            if root.kind == 'field':
                key = (short(root.cls), root.field)
                if key == ('SingleWindow', 'cohorts') and op == 'erase':
                    return [('+', 'CUT')]
                if key == ('SingleWindow', 'all_cohorts') and op == 'erase':
                    return [('+', 'ACUT')]
                if key[0] == 'SingleWindow' and key[1] in ('flush_after', 'text_post', 'has_enclosures') and op in ('swap', '=', 'operator='):
                    return [('+', key[1])]
                if key == ('Cohort', 'parent') and op == '=' and any(True for _ in loops_of(node)):
                    return [('+', 'PARENT')]
                if key[0] == 'Window' and key[1] in ('previous', 'next') and op in ('insert', 'emplace'):
                    # iterator handed over: stepped past the window that is split?
                    a = args(node)
                    return [('+', 'AFTER' if a and stepped(a[0], node, fn) else 'BEFORE')]
            return ()

        def once(self, B, fn):
            return any(x.k == 'MemberExpr' and x.get('m') == 'all_cohorts' for c in B.term.c[:-1] if c is not None for x in c.walk())

        def node(self, n, fn):
            if is_call(n, 'rebuildCohortLinks'):
                return [('+', 'RELINK')]
            if is_call(n, 'rebuildSingleWindowLinks'):
                return [('+', 'REWIN')]
            if is_call(n, 'allocPushSingleWindow'):
                return [('+', 'PUSH')]
            if is_call(n, 'addTagToReading'):
                return [('+', 'ENDTAG')]
            return ()

        def skip(self, t):
            return super().skip(t) or t.q == 'Window::allocPushSingleWindow'
    A = Analysis(P, S(P, None, Terms(P, f), {}))

    S_ = [set(atoms(s)) for s in A.summary(f)]
    need = {'CUT': 'takes the cohorts behind out of the window', 'ACUT': 'takes all that is behind out of the list of all cohorts', 'RELINK': 'links the cohorts anew', 'PARENT': 'hands over the cohorts to the new window',
            'flush_after': 'hands over the flush mark', 'text_post': 'hands over the text after the window', 'has_enclosures': 'hands over whether there are enclosures'}
    for a, t in sorted(need.items()):
        ctx.check(bool(S_) and all(a in s for s in S_), 'delimit', a, where, 'splitting a window ' + t, 'splitting a window does not always happen so that it ' + t)
    ctx.check(not any('BEFORE' in s for s in S_) and any('AFTER' in s for s in S_), 'delimit', 'order', where, 'the new window comes after the one that is split', 'the new window is put before the one that is split')
    ctx.check(all('REWIN' in s for s in S_ if 'AFTER' in s), 'delimit', 'windows', where, 'the windows are linked anew', 'the windows are not linked anew after one was put between them')


def stepped(a, node, fn):
    """++it, it + 1, std::next(it)"""
    for x in a.walk():
        if x.k in CALLS and x.get('fs') in ('operator++', 'operator+', 'next') or x.k == 'UnaryOperator' and x.get('op') == '++':
            return True
    # stepped in the statement before
    p = node
    while p.p is not None and p.p.k != 'CompoundStmt':
        p = p.p
    if p.p is not None:
        i = [j for j, c in enumerate(p.p.c) if c is p]
        for c in p.p.c[:i[0]] if i else ():
            if c is not None and any(x.k in CALLS and x.get('fs') == 'operator++' or x.k == 'UnaryOperator' and x.get('op') == '++' for x in c.walk()) and c.k not in ('ForStmt', 'WhileStmt'):
                return True
    return False


def unignore(ctx, P, T, loops):
    f = P.fn('GrammarApplicator::runGrammarOnWindow')
    ctx.saw(f)
    where = '%s:%d' % (f.file, f.line)
    ct = P.enum('CT_REMOVED', 'CT_IGNORED', 'CT_ENCLOSED')

    class S(W10):
        def mut(self, root, op, node, fn):
            if root.kind == 'field' and (short(root.cls), root.field) == ('Cohort', 'type') and op == '&=':
                v = node.c[1].ev or strip(node.c[1]).ev
                if v is not None and not int(v) & ct['CT_IGNORED']:
                    return [('+', 'BACK')]
            r = super().mut(root, op, node, fn)
            # enclosures are taken out and put back by shifting: numbered as they are shifted
            return () if op not in ('insert', 'emplace', '=') or r and r[0][1] in ('SET', 'RESIZE') else r

        def skip(self, t):
            return t.q in STOP or t.q in ('GrammarApplicator::runGrammarOnSingleWindow', 'GrammarApplicator::runRulesOnSingleWindow') or t.cls != 'GrammarApplicator' and not t.is_lambda
    A = Win(P, S(P, None, T, loops))
    S_ = [set(atoms(s)) for s in A.summary(f)]
    b = [s for s in S_ if 'BACK' in s]
    ctx.check(bool(b) and all({'INS', 'MAP+'} <= s for s in b), 'unignore', 'listed', where, 'an ignored cohort comes back into the list and the map', 'an ignored cohort is no longer marked, but not put back' if b else 'ignored cohorts never come back')
    bad = [s for s in b if any(a.startswith('NUM@') for a in s)]
    ctx.check(not bad, 'unignore', 'numbers', where, 'numbered anew', 'cohorts are left with the places they had before ignored ones came back')
