"""C09: dependency and relation rules connect the right words, and parents and children agree."""
from ..ir import CALLS, args, recv, strip, canon
from ..flow import leafcond
from ..extract import Broken
from ..engine import callbacks
from ..model import Model, reached, short, ModelSpec

# where numbers come in as they are in the input; reflowDependencyWindow turns them into links
INPUT = {
    'Cohort::Cohort': 'new', 'Cohort::clear': 'recycled',
    'GrammarApplicator::addTagToReading': 'a dependency tag of the input', 'JsonlApplicator::parseJsonCohort': 'input',
    'cg3_cohort_setdependency': 'input through the C API', 'BinaryApplicator::readWindow': 'input',
}
ATTACH = 'GrammarApplicator::attachParentChild'
REL = ('addRelation', 'setRelation', 'remRelation')
RTAG = ('add_relation_rtag', 'set_relation_rtag', 'rem_relation_rtag')
T, A, M, S = 'target', 'found cohort', 'first list', 'second list'


def cohortish(t):
    return (t or '').replace('const ', '').replace('CG3::', '').strip(' &*') in ('Cohort',) or 'Cohort' in (t or '') and ('*' in t or '&' in t) and '<' not in t


class Link:
    """typestate of the link from a cohort to its parent"""

    def __init__(self, P, ctx):
        self.P, self.ctx = P, ctx
        self.refs = {}
        self.inits = {}
        for f in P.funcs.values():
            if f.body is None:
                continue
            for n in f.walk():
                if n.k == 'VarDecl' and n.c and n.c[0] is not None:
                    self.inits[n.get('id')] = n.c[0]
                    if n.t.strip().endswith('&') or n.t.strip().endswith('*'):
                        self.refs[n.get('id')] = n.c[0]
        self.w = {}
        self.memo = {}

    def key(self, n, env=None, d=0):
        """name of the cohort an expression denotes"""
        n = strip(n)
        while n is not None and n.k == 'UnaryOperator' and n.get('op') in ('*', '&'):
            n = strip(n.c[0])
        while n is not None and n.k == 'CXXOperatorCallExpr' and n.get('op') == '*' and len(n.c) > 1:
            return canon(n)
        if n is None:
            return None
        if n.k == 'DeclRefExpr':
            if env and n.get('id') in env:
                return env[n.get('id')]
            i = self.refs.get(n.get('id'))
            if i is not None and d < 4:
                s = strip(i)
                if s is not None and s.k in ('DeclRefExpr', 'MemberExpr') or s is not None and s.k == 'UnaryOperator' and s.get('op') in ('*', '&'):
                    return self.key(i, env, d + 1)
        return canon(n)

    def field(self, n, ms):
        n = strip(n)
        if n is not None and n.k == 'DeclRefExpr' and n.get('id') in self.inits and n.get('id'):
            i = strip(self.inits[n.get('id')])
            if i is not None and i.k == 'MemberExpr' and i.get('m') in ms and short(i.get('mc')) == 'Cohort':
                return i
        if n is not None and n.k == 'MemberExpr' and n.get('m') in ms and short(n.get('mc')) == 'Cohort':
            return n
        return None

    def written(self, e):
        if e.k == 'BinaryOperator' and e.get('op') == '=':
            m = strip(e.c[0])
            if m is not None and m.k == 'MemberExpr' and m.get('m') == 'dep_parent' and short(m.get('mc')) == 'Cohort':
                return m, e.c[1]
        if e.k == 'CompoundAssignOperator':
            m = strip(e.c[0])
            if m is not None and m.k == 'MemberExpr' and m.get('m') == 'dep_parent' and short(m.get('mc')) == 'Cohort':
                return m, None
        if e.k in ('CallExpr', 'CXXMemberCallExpr') or e.k == 'CXXOperatorCallExpr' and e.get('op') == '>>':
            pts = e.get('pt') or []
            off = 1 if e.k == 'CXXOperatorCallExpr' and e.get('cls') else 0
            for i, a in enumerate(args(e)[off:]):
                m = strip(a) if a is not None else None
                if m is not None and m.k == 'MemberExpr' and m.get('m') == 'dep_parent' and short(m.get('mc')) == 'Cohort' and i < len(pts) and pts[i].strip().endswith('&') and not pts[i].startswith('const'):
                    return m, None
        return None, None

    def prim(self, e):
        """('add'|'rem', argument) for a change of a list of children"""
        if e.k not in CALLS:
            return None, None
        fs = e.get('fs')
        if fs in ('addChild', 'remChild') and e.k == 'CXXMemberCallExpr':
            return ('add' if fs == 'addChild' else 'rem'), args(e)[0]
        r = recv(e) if e.k == 'CXXMemberCallExpr' else None
        if fs in ('insert', 'erase') and r is not None and self.field(r, ('dep_children',)) is not None and args(e):
            return ('add' if fs == 'insert' else 'rem'), args(e)[0]
        return None, None

    def writes(self, fn, depth=0):
        """does it, or a helper of it that takes a cohort, write a parent?"""
        if fn.id in self.w:
            return self.w[fn.id]
        self.w[fn.id] = False
        if fn.body is None or fn.cfg is None:
            return False
        r = any(self.written(n)[0] is not None or self.prim(n)[0] for n in fn.walk())
        self.w[fn.id] = r
        return r

    def helper(self, t):
        return t.body is not None and t.cfg is not None and t.q.rsplit('::', 1)[-1] not in ('addChild', 'remChild') and self.writes(t) and t.q not in INPUT and any(cohortish(p['t']) for p in t.params) and len(t.cfg.b) < 60

    def run(self, fn, env, init, depth=0):
        """states at the end.  State items: ('free', X) X is in no list of children; ('dirty', X, what, where) parent not registered;
        ('bad', where, text); ('abs', V) no cohort has number V"""
        cfg = fn.cfg
        ins = {cfg.entry: {init}}
        work = [(cfg.entry, init)]
        n = 0
        look = {}
        for e in fn.walk():
            if e.k == 'VarDecl' and e.c and e.c[0] is not None:
                for c in e.c[0].walk():
                    if c.k in CALLS and c.get('fs') == 'find' and recv(c) is not None and strip(recv(c)) is not None and strip(recv(c)).k == 'MemberExpr' and strip(recv(c)).get('m') == 'cohort_map' and args(c):
                        look[e.get('id')] = args(c)[0]
        while work:
            b, s = work.pop()
            n += 1
            if n > 40000:
                raise Broken('%s: too many states' % fn.q)
            B = cfg.b[b]
            sts = [s]
            for e in B.els:
                if isinstance(e, tuple):
                    continue
                nxt = []
                for x in sts:
                    nxt.extend(self.step(fn, env, x, e, depth))
                sts = nxt
            if B.nr:
                continue
            for x in sts:
                for i, t in enumerate(B.succ):
                    if t < 0:
                        continue
                    y = self.edge(fn, env, x, B, i, look)
                    if y is not None and y not in ins.setdefault(t, set()):
                        ins[t].add(y)
                        work.append((t, y))
        return ins.get(cfg.exit, set())

    def vkey(self, n, env):
        n = strip(n)
        if n is not None and n.k == 'DeclRefExpr' and env and n.get('id') in env:
            return env[n.get('id')]
        return canon(n) if n is not None else None

    def absent(self, s, num, env):
        """nothing has the number `num`: nobody to be a child of"""
        f = self.field(num, ('dep_parent',))
        if f is not None:
            X = self.key(f.c[0] if f.c else None, env)
            return frozenset(q for q in s if not (q[0] == 'dirty' and q[1] == X)) | {('free', X)}
        V = self.vkey(num, env)
        s = frozenset(q for q in s if not (q[0] == 'dirty' and q[2] == V))
        return s | {('abs', V)}

    def edge(self, fn, env, s, B, i, look):
        leaf, neg = leafcond(B)
        if leaf is None or len(B.succ) != 2:
            return s
        # a conjunction decided by its first half, joined again before the branch on the whole
        c = strip(B.cond)
        if c.k == 'BinaryOperator' and c.get('op') in ('&&', '||'):
            l = strip(c.c[0])
            known = [q[2] for q in s if q[0] == 'cv' and q[1] == l.i]
            if known and known[0] == (c.get('op') == '||'):
                if (i == 0) != known[0]:
                    return None
                return frozenset(q for q in s if q[0] != 'cv')
        s = frozenset(q for q in s if q[0] != 'cv')
        s = self.edge2(fn, env, s, B, i, look, leaf, neg)
        p = c.p
        while p is not None and p.k in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups'):
            p = p.p
        if p is not None and p.k == 'BinaryOperator' and p.get('op') in ('&&', '||'):
            s |= {('cv', c.i, i == 0)}
        return s

    def edge2(self, fn, env, s, B, i, look, leaf, neg):
        truth = (i == 0) != neg
        n = strip(leaf)
        if n.k == 'CXXRewrittenBinaryOperator' and n.c:
            n = strip(n.c[0])
            d = 0
            while n is not None and n.k == 'UnaryOperator' and n.get('op') == '!' and d < 3:
                truth = not truth
                n = strip(n.c[0])
                d += 1
        op = n.get('op')
        ids = [x.get('id') for x in n.walk() if x.k == 'DeclRefExpr' and x.get('id') in look] if n.k in ('CXXOperatorCallExpr', 'BinaryOperator') else []
        finds = [x for x in n.walk() if x.k in CALLS and x.get('fs') == 'find' and recv(x) is not None and strip(recv(x)) is not None and strip(recv(x)).k == 'MemberExpr' and strip(recv(x)).get('m') == 'cohort_map'] if n.k in ('CXXOperatorCallExpr', 'BinaryOperator') else []
        if op in ('==', '!=') and (ids or finds) and any(x.k in CALLS and x.get('fs') in ('end', 'cend') for x in n.walk()):
            if truth == (op == '=='):
                return self.absent(s, look[ids[0]] if ids else args(finds[0])[0], env)
            return s
        if n.k in CALLS and n.get('fs') in ('count', 'contains') and recv(n) is not None and strip(recv(n)) is not None and strip(recv(n)).get('m') == 'cohort_map' and not truth:
            return self.absent(s, args(n)[0], env)
        # no parent at all
        if op in ('==', '!=') and n.k == 'BinaryOperator':
            for a, b in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                f = self.field(a, ('dep_parent',))
                if f is not None and strip(b) is not None and (strip(b).ev == 0xFFFFFFFF or any(x.k == 'DeclRefExpr' and x.get('d') == 'DEP_NO_PARENT' for x in strip(b).walk())):
                    if truth == (op == '=='):
                        return s | {('free', self.key(f.c[0] if f.c else None, env))}
                    return s
        # numbers of the input, not yet links
        if n.k == 'BinaryOperator' and op == '&' and not truth:
            f = self.field(n.c[0], ('type',)) or self.field(n.c[1], ('type',))
            if f is not None and any(x.k == 'DeclRefExpr' and x.get('d') == 'CT_DEP_DONE' for x in n.walk()):
                return s | {('free', self.key(f.c[0] if f.c else None, env))}
        return s

    def step(self, fn, env, s, e, depth):
        if e.k == 'DeclStmt' or e.k == 'VarDecl':
            for d in (e.c if e.k == 'DeclStmt' else [e]):
                if d is not None and d.k == 'VarDecl':
                    k = 'd:%s' % d.get('id')
                    s = frozenset(q for q in s if not (q[0] in ('free', 'abs') and k in q[1]))
            return [s]
        m, v = self.written(e)
        if m is not None:
            X = self.key(m.c[0] if m.c else None, env) if m.c else 'this'
            w = e.where()
            if ('free', X) not in s:
                s |= {('bad', w, 'a cohort gets another parent and stays among the children of the one it had')}
            s = frozenset(q for q in s if q not in (('free', X),) and not (q[0] == 'dirty' and q[1] == X))
            v2 = strip(v) if v is not None else None
            if v2 is not None and (v2.ev == 0xFFFFFFFF or any(x.k == 'DeclRefExpr' and x.get('d') == 'DEP_NO_PARENT' for x in v2.walk())):
                return [s | {('free', X)}]
            V = self.vkey(v2, env) if v2 is not None else '?'
            f = self.field(v2, ('global_number', 'dep_self')) if v2 is not None else None
            if f is not None:
                V = 'cohort ' + str(self.key(f.c[0] if f.c else None, env))
            if ('abs', V) in s:
                return [s]
            if ('reg', X, V) in s:
                return [s]
            return [s | {('dirty', X, V, w)}]
        p, a = self.prim(e)
        if p:
            f = self.field(a, ('global_number', 'dep_self'))
            if f is None:
                # a number: whoever has it
                return [s]
            X = self.key(f.c[0] if f.c else None, env)
            if p == 'rem':
                return [frozenset(q for q in s if not (q[0] == 'dirty' and q[1] == X)) | {('free', X)}]
            r = recv(e)
            R = self.key(r, env) if r is not None and e.get('fs') == 'addChild' else None
            d = [q for q in s if q[0] == 'dirty' and q[1] == X]
            for q in d:
                if q[2].startswith('cohort ') and R is not None and q[2] != 'cohort ' + R and not R.startswith(('call', 'CXXOp')) and '.second' not in R:
                    s |= {('bad', e.where(), 'the child is registered with another cohort than its parent')}
            s = frozenset(q for q in s if q not in d)
            if not d:
                s |= {('reg', X, 'cohort ' + str(R))}
            return [s]
        if e.k in CALLS and depth < 4:
            for t in self.P.targets(e):
                if self.helper(t) and t.id in self.open:
                    env2 = {}
                    A2 = args(e)
                    off = 1 if e.k == 'CXXOperatorCallExpr' and e.get('cls') else 0
                    if t.is_lambda:
                        env2.update(env or {})
                    for i, pr in enumerate(t.params):
                        if i + off < len(A2) and A2[i + off] is not None:
                            a2 = A2[i + off]
                            f = self.field(a2, ('global_number', 'dep_self'))
                            env2[pr['id']] = self.key(a2, env)
                    return list(self.run(t, env2, s, depth + 1)) or [s]
        return [s]


def check(ctx):
    P = ctx.P
    L = Link(P, ctx)
    ctx.rule('pair', 'a cohort that gets another parent leaves the children of the one it had, and enters those of the new one, on every path', 4)
    ctx.rule('block', 'parent and child are linked only after the test for loops, and that for crossing, allowed it', 2)
    ctx.rule('inner', 'the tests look at all ancestors of the parent, and at the links of all cohorts between the two', 6)
    ctx.rule('role', 'each type of dependency or relation rule links target and found cohort the way round it says, under the tags of the right list', 16)
    ctx.rule('reverse', 'REVERSE exchanges the two before anything is linked', 1)
    ctx.rule('forward', 'the children of a cohort that is removed are handed to its parent first', 1)
    # ---- pair
    callers = {}
    for f in P.funcs.values():
        if f.body is not None:
            for n in f.walk():
                if n.k in CALLS:
                    for t in P.targets(n):
                        callers.setdefault(t.id, set()).add(f.id)
    fns = [f for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)) if f.body is not None and f.cfg is not None and f.file.startswith('src/') and any(L.written(n)[0] is not None for n in f.walk()) and f.q not in INPUT]
    if len(fns) < 2:
        raise Broken('no function sets the parent of a cohort')
    # helpers that leave things to their callers
    L.open = set()
    for rnd in range(4):
        new = set()
        for f in [f for f in P.funcs.values() if f.file.startswith('src/') and L.helper(f)]:
            outs = L.run(f, {}, frozenset())
            bad = any(q[0] in ('bad', 'dirty') for o in outs for q in o)
            writes = any(L.written(n)[0] is not None for n in f.walk())
            prims = any(L.prim(n)[0] for n in f.walk())
            if callers.get(f.id) and (bad or prims and not writes or any(q[0] == 'free' for o in outs for q in o)) and f.q != ATTACH:
                new.add(f.id)
        if new <= L.open:
            break
        L.open |= new
    todo = {f.id for f in fns}
    for f in P.funcs.values():
        if f.body is not None and f.file.startswith('src/') and any(t.id in L.open and any(L.written(n)[0] is not None for n in t.walk()) for n2 in f.walk() if n2.k in CALLS for t in P.targets(n2)):
            todo.add(f.id)
    for f in sorted((P.funcs[i] for i in todo), key=lambda f: (f.file, f.line)):
        if f.q in INPUT or f.cfg is None:
            continue
        outs = L.run(f, {}, frozenset())
        fail = sorted({(q[1], q[2]) for o in outs for q in o if q[0] == 'bad'} | {(q[3], 'a cohort gets a parent that does not count it among its children') for o in outs for q in o if q[0] == 'dirty'})
        if fail and f.id in L.open:
            continue
        ctx.saw(f)
        ctx.check(not fail, 'pair', f.q, fail[0][0] if fail else '%s:%d' % (f.file, f.line), 'parents and children agree after it', fail[0][1] if fail else '')
    # ---- block
    at = P.fn(ATTACH)
    block(ctx, P, L, at)
    inner(ctx, P)
    roles(ctx, P, L)
    # ---- forward
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not f.is_lambda or not f.file.endswith('runRules.cpp') or len(f.params) != 1 or not cohortish(f.params[0]['t']):
            continue
        for b, B in f.cfg.b.items():
            for e in B.els:
                if isinstance(e, tuple) or e.k != 'CompoundAssignOperator' or L.field(e.c[0], ('type',)) is None or not any(x.k == 'DeclRefExpr' and x.get('d') == 'CT_REMOVED' for x in e.c[1].walk()):
                    continue
                n += 1
                ctx.saw(f)
                X = L.key(L.field(e.c[0], ('type',)).c[0])
                # every path to here leaves a loop over its children through their being none
                bad = reach_without(f, b, lambda C, i: empties(L, C, i, X))
                att = any(c.k in CALLS and (c.get('fq') or '').endswith('attachParentChild') or c.k in CALLS and any(t.q == ATTACH for t in P.targets(c)) for c in f.walk())
                ctx.check(not bad and att, 'forward', 'removed', e.where(), 'all its children have been handed on', 'a cohort can be removed with children that still name it as their parent')
    if not n:
        raise Broken('no action removes a cohort')


def empties(L, B, i, X):
    leaf, neg = leafcond(B)
    if leaf is None:
        return False
    n = strip(leaf)
    truth = (i == 0) != neg
    if n.k in CALLS and n.get('fs') in ('empty', 'size') and recv(n) is not None:
        f = L.field(recv(n), ('dep_children',))
        return f is not None and L.key(f.c[0] if f.c else None) == X and truth == (n.get('fs') == 'empty')
    if n.k == 'BinaryOperator' and n.get('op') in ('==', '!=', '>') and any(L.field(x, ('dep_children',)) is not None for x in n.walk()):
        return truth == (n.get('op') == '==')
    # a loop over a copy or over the list itself ends with all of them seen
    if n.k in ('CXXOperatorCallExpr', 'BinaryOperator', 'CXXRewrittenBinaryOperator') and any(x.k == 'DeclRefExpr' and '__begin' in (x.get('d') or '') for x in n.walk()):
        for x in n.walk():
            if x.k == 'DeclRefExpr' and x.get('id') in L.inits:
                for y in L.inits[x.get('id')].walk():
                    if y.k == 'DeclRefExpr' and y.get('id') in L.inits and any(L.field(z, ('dep_children',)) is not None for z in L.inits[y.get('id')].walk()):
                        return i == 1
    return False


def reach_without(f, goal, good):
    """can the block be reached without taking an edge that is good?"""
    seen, work = {f.cfg.entry}, [f.cfg.entry]
    while work:
        b = work.pop()
        if b == goal:
            return True
        B = f.cfg.b[b]
        if B.nr:
            continue
        for i, t in enumerate(B.succ):
            if t >= 0 and t not in seen and not (len(B.succ) == 2 and good(B, i)):
                seen.add(t)
                work.append(t)
    return False


def block(ctx, P, L, at):
    ctx.saw(at)
    bools = {}
    for n in at.walk():
        if n.k == 'VarDecl' and n.t.replace('const ', '').strip() == 'bool' and n.c and n.c[0] is not None:
            bools[n.get('id')] = n.c[0]
    ps = [p for p in at.params if cohortish(p['t'])]
    flags = [p for p in at.params if p['t'] == 'bool']
    if len(ps) != 2 or len(flags) != 2:
        raise Broken('attachParentChild no longer takes two cohorts and two flags')
    par, child = ps[0]['id'], ps[1]['id']
    for name, fq, field, flag in (('loop', 'wouldParentChildLoop', 'dep_block_loops', flags[0]['id']), ('crossing', 'wouldParentChildCross', 'dep_block_crossing', flags[1]['id'])):
        class B3(ModelSpec):
            def fold(self, n, fn):
                m = strip(n)
                if m is not None and m.k == 'DeclRefExpr' and m.get('id') == flag:
                    return False
                if m is not None and m.k in CALLS and m.get('fs') == fq:
                    a = args(m)
                    ids = [[x.get('id') for x in y.walk() if x.k == 'DeclRefExpr'] for y in a]
                    if par in ids[0] and child in ids[1]:
                        return True
                return None

        def sites(n, fn):
            if L.written(n)[0] is not None and strip(L.written(n)[0].c[0]).get('id') == child and not (L.field(strip(L.written(n)[1]), ('dep_self',))):
                yield 'link'
            if n.k in CALLS and n.get('fs') == 'addChild':
                yield 'link'
        got, An = reached(P, Model({('GrammarApplicator', field): True}), at, sites, lambda t: True, spec=B3)
        ctx.check('link' not in got, 'block', name, '%s:%d' % (at.file, at.line), 'not linked where it would make a %s' % name, 'two cohorts can be linked although the test for a %s says no' % name)
        # and not refused for another reason
        got, An = reached(P, Model({('GrammarApplicator', field): False}), at, sites, lambda t: True)
        ctx.check('link' in got, 'block', name + ':off', '%s:%d' % (at.file, at.line), 'linked where the test is switched off', 'no link is made even with the test for a %s switched off' % name)


# ---- the tests for loops and crossings themselves
NUM = ('global_number', 'dep_self')


class Inner:
    """what the two tests compare, as seen from the parent and the child they are asked about"""

    def __init__(self, P, fn, ctx):
        self.P, self.ctx = P, ctx
        ps = [p for p in fn.params if cohortish(p['t'])]
        if len(ps) != 2:
            raise Broken('%s no longer takes two cohorts' % fn.q)
        self.env = {ps[0]['id']: 'parent', ps[1]['id']: 'child'}
        self.fns, self.init, self.order = [], {}, {}
        self.take(fn, 0)
        for f in self.fns:
            for n in f.walk():
                if n.k in ('VarDecl', 'ParmVarDecl') and n.c and n.c[0] is not None:
                    self.init.setdefault(n.get('id'), []).append(n.c[0])
                if n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]).k == 'DeclRefExpr':
                    self.init.setdefault(strip(n.c[0]).get('id'), []).append(n.c[1])
        # two numbers put in order by hand
        for f in self.fns:
            for n in f.walk():
                if n.k in CALLS and n.get('fs') == 'swap' and len(args(n)) == 2:
                    i = next((a for a in n.ancestors() if a.k == 'IfStmt'), None)
                    c = strip(i.c[1]) if i is not None else None
                    if c is None or c.k != 'BinaryOperator' or c.get('op') not in ('<', '<=', '>', '>='):
                        continue
                    ids = [strip(a).get('id') for a in args(n)]
                    cs = [strip(a).get('id') for a in c.c[:2]]
                    if set(ids) == set(cs) and {self.value(a) for a in args(n)} == {('parent', 'number'), ('child', 'number')}:
                        up = c.get('op')[0] == '>'
                        self.order.update({cs[0]: 'min' if up else 'max', cs[1]: 'max' if up else 'min'})

    def take(self, f, d):
        if f in self.fns or d > 3:
            return
        self.fns.append(f)
        self.ctx.saw(f)
        for n in f.walk():
            if n.k not in CALLS:
                continue
            for t in self.P.targets(n) if hasattr(self.P, 'targets') else []:
                if t.body is None or t.file != f.file:
                    continue
                for p, a in zip(t.params, args(n)):
                    if a is not None:
                        r = self.role(a)
                        if r in ('parent', 'child'):
                            self.env.setdefault(p['id'], r)
                self.take(t, d + 1)

    def role(self, n, d=0):
        """parent, child, above (a cohort reached from the parent by going to parents), or what it was looked up by"""
        n = strip(n)
        while n is not None and n.k == 'UnaryOperator' and n.get('op') in ('*', '&'):
            n = strip(n.c[0])
        if n is None or d > 6:
            return None
        if n.k == 'DeclRefExpr':
            if n.get('id') in self.env:
                return self.env[n.get('id')]
            got = {self.role(i, d + 1) for i in getattr(self, 'init', {}).get(n.get('id'), [])}
            got.discard(None)
            if got and got <= {'parent', 'above'}:
                return 'above'
            return got.pop() if len(got) == 1 else None
        if n.k == 'MemberExpr' and n.get('m') == 'second' or n.k in CALLS and n.get('fs') in ('operator->', 'operator*', 'at', 'operator[]', 'find'):
            f = [x for x in n.walk() if x.k in CALLS and x.get('fs') in ('find', 'at', 'operator[]') and any(m.k == 'MemberExpr' and m.get('m') == 'cohort_map' for m in x.walk())]
            if not f:
                for x in n.walk():
                    if x.k == 'DeclRefExpr' and x.get('id') in self.init:
                        for i in self.init[x.get('id')]:
                            f += [y for y in i.walk() if y.k in CALLS and y.get('fs') in ('find', 'at', 'operator[]') and any(m.k == 'MemberExpr' and m.get('m') == 'cohort_map' for m in y.walk())]
            if f:
                a = args(f[0])[-1]
                v = self.value(a, d + 1)
                if isinstance(v, tuple) and v[1] == 'dep_parent':
                    return 'above' if v[0] in ('parent', 'above', None) else 'above ' + v[0]
                return ('at', strip(a).get('id') if strip(a).k == 'DeclRefExpr' else canon(a))
        return None

    def value(self, n, d=0):
        n = strip(n)
        if n is None or d > 6:
            return None
        if n.ev is not None:
            return n.ev
        if n.k == 'MemberExpr' and short(n.get('mc')) == 'Cohort' and n.c:
            m = n.get('m')
            return (self.role(n.c[0], d + 1), 'number' if m in NUM else m)
        if n.k == 'DeclRefExpr' and n.get('id') in self.order:
            return self.order[n.get('id')]
        if n.k == 'ConditionalOperator':
            c = strip(n.c[0])
            if c.k == 'BinaryOperator' and c.get('op') in ('<', '<=', '>', '>='):
                a, b, x, y = (self.value(m, d + 1) for m in (c.c[0], c.c[1], n.c[1], n.c[2]))
                if {a, b} == {x, y} == {('parent', 'number'), ('child', 'number')}:
                    return 'min' if (x == a) == (c.get('op')[0] == '<') else 'max'
        if n.k == 'DeclRefExpr' and len(self.init.get(n.get('id'), [])) == 1:
            return self.value(self.init[n.get('id')][0], d + 1)
        if n.k == 'CallExpr' and n.get('fs') in ('min', 'max', 'minmax'):
            vs = [self.value(a, d + 1) for a in args(n)]
            if {('parent', 'number'), ('child', 'number')} == set(v for v in vs if isinstance(v, tuple)):
                return n.get('fs')
            if all(v is not None for v in vs):
                return 'wrong'
        return None

    @staticmethod
    def missing(l):
        """a leaf that asks whether a cohort was found"""
        if l is None or any(m.k == 'MemberExpr' and short(m.get('mc')) == 'Cohort' and m.get('m') not in ('dep_parent', 'dep_self', 'global_number') for m in l.walk()):
            return False
        if any(m.k in CALLS and m.get('fs') in ('end', 'cend', 'count', 'contains') for m in l.walk()):
            return True
        x = strip(l)
        while x.k == 'UnaryOperator' and x.get('op') == '!':
            x = strip(x.c[0])
        if x.k == 'BinaryOperator' and x.get('op') in ('==', '!=') and any(strip(y).k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') for y in x.c):
            return True
        return x.k == 'DeclRefExpr' and (x.t or '').rstrip().endswith('*')

    def alts(self, n):
        """alternatives (lists of leaves) by which a condition holds"""
        n = strip(n)
        if n is not None and n.k == 'DeclRefExpr' and len(self.init.get(n.get('id'), [])) == 1 and n.get('id') not in self.env:
            return self.alts(self.init[n.get('id')][0])
        if n is not None and n.k == 'BinaryOperator' and n.get('op') == '||':
            return self.alts(n.c[0]) + self.alts(n.c[1])
        if n is not None and n.k == 'BinaryOperator' and n.get('op') == '&&':
            return [a + b for a in self.alts(n.c[0]) for b in self.alts(n.c[1])]
        return [[n]]

    def outcomes(self):
        """(value, leaves, node) for each place where the answer is decided"""
        for f in self.fns:
            if f is not self.fns[0] and not any(self.env.get(p['id']) == 'child' for p in f.params):
                continue
            for n in f.walk():
                e = None
                if n.k == 'ReturnStmt' and n.c and n.c[0] is not None:
                    e = strip(n.c[0])
                elif n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('op') in ('=', '|=') and strip(n.c[0]).k == 'DeclRefExpr' and (strip(n.c[0]).t or '') == 'bool':
                    e = strip(n.c[1])
                if e is None or (e.t or '').replace('const ', '') not in ('bool', 'int'):
                    continue
                if e.k == 'DeclRefExpr':
                    continue
                outer = [[]]
                for a in n.ancestors():
                    if a.k == 'IfStmt' and a.c[2] is not None and any(y is n for y in a.c[2].walk()):
                        outer = [o + x for o in outer for x in self.alts(a.c[1])]
                if e.ev is not None or e.k == 'CXXBoolLiteralExpr':
                    v = bool(e.ev)
                    for o in outer:
                        yield v, o, n
                else:
                    for o in outer:
                        for x in self.alts(e):
                            yield True, o + x, n

    def eqs(self, leaves):
        res = []
        for l in leaves:
            if l is not None and l.k == 'BinaryOperator' and l.get('op') in ('==', '<', '>', '<=', '>='):
                res.append((l.get('op'), self.value(l.c[0]), self.value(l.c[1])))
        return res


def inner(ctx, P):
    NOP = 0xFFFFFFFF
    for n in ('wouldParentChildLoop', 'wouldParentChildCross'):
        if not P.fn('GrammarApplicator::' + n, False):
            raise Broken('GrammarApplicator::%s is gone' % n)
    f = P.fn('GrammarApplicator::wouldParentChildLoop')
    I = Inner(P, f, ctx)
    CH, PA = ('child', 'number'), ('parent', 'number')
    where = '%s:%d' % (f.file, f.line)
    walk = False
    for v, leaves, n in I.outcomes():
        q = I.eqs(leaves)
        pairs = [{a, b} for op, a, b in q if op == '==' and a is not None and b is not None]
        if v:
            calls = [l for l in leaves if l is not None and (l.k in CALLS or l.k in ('UnaryOperator', 'DeclRefExpr'))]
            if calls and any(a.k in ('ForStmt', 'WhileStmt', 'DoStmt') for a in n.ancestors()):
                walk = True
            good = any(s in ({CH, PA}, {CH, ('parent', 'dep_parent')}, {CH, ('above', 'dep_parent')}, {CH, ('above', 'number')}) for s in pairs)
            ctx.check(good or bool(calls), 'inner', 'loop:yes', n.where(), 'a loop where the child is the parent or above it',
                      'wouldParentChildLoop answers that there is a loop without having met the child among the ancestors of the parent')
            if any(s in ({CH, ('above', 'dep_parent')}, {CH, ('above', 'number')}) for s in pairs) and any(a.k in ('ForStmt', 'WhileStmt', 'DoStmt') for a in n.ancestors()):
                loop = next(a for a in n.ancestors() if a.k in ('ForStmt', 'WhileStmt', 'DoStmt'))
                # the next one is looked up by the parent of the one that was looked at
                if any(x.k in CALLS and (x.get('fs') or '') not in ('operator==', 'operator!=') and any(a is not None and (I.value(a) == ('above', 'dep_parent') or strip(a).k == 'DeclRefExpr' and '<' not in (strip(a).t or '') and cohortish(strip(a).t) and I.role(a) == 'above')
                                                                                                   for a in args(x)) for x in loop.walk()):
                    walk = True
        elif leaves:
            good = any(s in ({PA, ('child', 'dep_parent')}, {PA, ('parent', 'dep_parent')}) for s in pairs) \
                or any(x in s and s & {('above', 'dep_parent'), ('parent', 'dep_parent')} for s in pairs for x in (0, NOP, -1)) \
                or any(I.missing(l) for l in leaves) \
                or any(l is not None and l.k in CALLS and any(a is not None and I.role(a) in ('above', 'parent') for a in args(l)) for l in leaves)
            ctx.check(good, 'inner', 'loop:no', n.where(), 'no loop at the top of the tree', 'wouldParentChildLoop answers that there is no loop before all ancestors of the parent were looked at')
    ctx.check(walk, 'inner', 'loop:walk', where, 'goes through the ancestors of the parent', 'wouldParentChildLoop does not look for the child among all ancestors of the parent')
    for g in I.fns:
        for n in g.walk():
            if n.k == 'BinaryOperator' and n.get('op') in ('<', '<=', '!=') and strip(n.c[1]).ev not in (None, 0, NOP, -1) and isinstance(strip(n.c[1]).ev, int):
                if any(a.k in ('ForStmt', 'WhileStmt', 'DoStmt') for a in n.ancestors()) and strip(n.c[0]).k == 'DeclRefExpr':
                    ctx.check(strip(n.c[1]).ev >= 1000, 'inner', 'loop:bound', n.where(), 'as far up as 1000 ancestors', 'wouldParentChildLoop gives up after %d ancestors' % strip(n.c[1]).ev)

    f = P.fn('GrammarApplicator::wouldParentChildCross')
    I = Inner(P, f, ctx)
    where = '%s:%d' % (f.file, f.line)
    low = high = False
    for v, leaves, n in I.outcomes():
        if not v:
            ctx.check(not leaves, 'inner', 'cross:no', n.where(), 'no crossing once all were looked at', 'wouldParentChildCross answers that nothing crosses before all cohorts between were looked at')
            continue
        q = I.eqs(leaves)
        for op, a, b in q:
            if a in ('min', 'max') and isinstance(b, tuple):
                a, b, op = b, a, {'<': '>', '>': '<'}.get(op, op)
            if op == '<' and b == 'min':
                low = True
            elif op == '>' and b == 'max':
                high = True
        ends = {'min', 'max'} & {x for op, a, b in q if op in '<>' for x in (a, b) if isinstance(x, str)}
        unknown = any(op in '<>' and (a is None or b is None) for op, a, b in q) or not ends and any(l is not None and (l.k in CALLS or l.k in ('UnaryOperator', 'DeclRefExpr')) for l in leaves)
        good = len(ends) == 1 or unknown
        if unknown:
            low = high = True
        between = any(isinstance(x, tuple) and isinstance(x[0], tuple) and x[0][0] == 'at' for op, a, b in q for x in (a, b) if op in '<>')
        ctx.check(good, 'inner', 'cross:yes', n.where(), 'a crossing where a link leaves the stretch between parent and child', 'wouldParentChildCross answers that there is a crossing without a link that leaves the stretch between parent and child')
        ctx.check(between, 'inner', 'cross:between', n.where(), 'looks at the cohorts between parent and child', 'wouldParentChildCross does not look at the cohorts between parent and child, but at the parent of the parent each time: crossing links are made, and links that do not cross are refused')
    ctx.check(low and high, 'inner', 'cross:sides', where, 'links that leave on either side are found', 'wouldParentChildCross does not find links that leave the stretch on %s' % ('the left' if high else 'the right' if low else 'either side'))


def roles(ctx, P, L):
    host, rc, cc, rs = callbacks(P)
    prims = {'attachParentChild'} | set(REL) | set(RTAG)
    lamnames = {}
    for n in host.walk():
        if n.k == 'VarDecl' and n.c and n.c[0] is not None:
            for m in n.c[0].walk():
                if m.k == 'LambdaExpr':
                    lamnames.setdefault(m.get('lam'), n.get('d'))

    inits, lists, loops = {}, {}, {}
    for f in P.funcs.values():
        if f.body is None or not f.file.endswith('GrammarApplicator_runRules.cpp'):
            continue
        for n in f.walk():
            if n.k == 'VarDecl' and n.c and n.c[0] is not None:
                inits[n.get('id')] = n.c[0]
            if n.k in CALLS and n.get('fs') == 'getTagList' and len(args(n)) >= 2:
                src = [x.get('m') for x in args(n)[0].walk() if x.k == 'MemberExpr' and x.get('m') in ('maplist', 'sublist')]
                dst = [x.get('id') for x in args(n)[1].walk() if x.k == 'DeclRefExpr']
                if src and dst:
                    lists.setdefault(dst[0], set()).add(M if src[0] == 'maplist' else S)

    def tag(n, env, d=0):
        for x in n.walk():
            if x.k == 'DeclRefExpr':
                i = x.get('id')
                if i in env:
                    return env[i]
                if i in lists and len(lists[i]) == 1:
                    return next(iter(lists[i]))
                if i in inits and d < 6:
                    r = tag(inits[i], env, d + 1)
                    if r:
                        return r
        return None

    asg = {}
    for f in P.funcs.values():
        if f.body is None or f.file != host.file:
            continue
        for n in f.walk():
            if n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]) is not None and strip(n.c[0]).k == 'DeclRefExpr' and cohortish(n.c[0].t):
                asg.setdefault(strip(n.c[0]).get('id'), []).append(n)

    def pure(a, use):
        """is the assignment made depending on nothing but the type of the rule?"""
        up = set(x.i for x in use.ancestors())
        for p in a.ancestors():
            if p.i in up:
                break
            if p.k == 'IfStmt':
                c = [x for x in p.c if x is not None and a not in list(x.walk())]
                names = {y.get('d') or y.get('m') for x in c[:1] for y in x.walk() if y.k in ('DeclRefExpr', 'MemberExpr')}
                if any(nm not in ('rule', 'type') and not (nm or '').startswith('K_') for nm in names):
                    return False
            elif p.k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'ConditionalOperator'):
                return False
        return True

    live = {}

    def who(n, env, d=0):
        for x in n.walk():
            if x.k == 'DeclRefExpr' and x.get('id') in env:
                return env[x.get('id')]
            if x.k == 'DeclRefExpr' and x.get('id') in asg and live.get('on') is not None and d < 5:
                # the last assignment before that this type of rule gets to
                a = [y for y in asg[x.get('id')] if y.i in live['on'] and (y.fn is not x.fn or (y.l, y.i) < (x.l, x.i))]
                if a and strip(a[-1].c[1]).ev == 0:
                    a = []
                if a:
                    r = who(a[-1].c[1], env, d + 1)
                    return r if pure(a[-1], x) else 'either'
            if x.k == 'MemberExpr' and x.get('m') == 'attach_to':
                return A
            if x.k == 'MemberExpr' and x.get('m') == 'target' and short(x.get('mc')) == 'Rule_Context':
                return T
            if x.k in CALLS and x.get('fs') == 'get_attach_to':
                return A
            if x.k in CALLS and x.get('fs') == 'get_apply_to':
                return 'either'
            if x.k == 'DeclRefExpr' and x.get('id') in inits and d < 5:
                r = who(inits[x.get('id')], env, d + 1)
                if r:
                    return r
        return None

    def name_of(n):
        if n.k not in CALLS:
            return None
        if n.get('fs') in prims:
            return n.get('fs')
        if n.k == 'CXXOperatorCallExpr' and n.get('op') == '()':
            for t in P.targets(n):
                if lamnames.get(t.id) in prims:
                    return lamnames[t.id]
        return None

    carries = {}

    def carry(t, d=0):
        if t.id in carries:
            return carries[t.id]
        carries[t.id] = False
        if t.body is None or t.cfg is None or d > 3:
            return False
        carries[t.id] = any(name_of(n) in prims for n in t.walk()) or any(carry(u, d + 1) for n in t.walk() if n.k in CALLS for u in P.targets(n) if u.is_lambda)
        return carries[t.id]

    def collect(fn, k, env, depth=0):
        res = set()

        def sites(n, f):
            nm = name_of(n)
            if nm:
                a = args(n)
                if n.k == 'CXXOperatorCallExpr':
                    a = a[1:]
                if nm == 'attachParentChild':
                    fl = []
                    for x in a[2:4]:
                        ms = [y.get('d') for y in x.walk() if y.k == 'DeclRefExpr' and (y.get('d') or '').startswith('RF_')]
                        for y in x.walk():
                            if y.k == 'DeclRefExpr' and y.get('id') in inits:
                                ms += [z.get('d') for z in inits[y.get('id')].walk() if z.k == 'DeclRefExpr' and (z.get('d') or '').startswith('RF_')]
                        fl.append(ms[0] if len(ms) == 1 else '?')
                    yield ('attachParentChild', who(a[0], env), who(a[1], env), tuple(fl))
                elif nm in REL:
                    yield (nm, who(recv(n), env), tag(a[0], env), who(a[1], env))
                else:
                    yield (nm, who(a[0], env), tag(a[1], env), who(a[2], env))
                return
            if n.k in CALLS and depth < 3:
                for t in P.targets(n):
                    if t.id != fn.id and t.file == host.file and carry(t) and t.id not in (rc.id, cc.id) and lamnames.get(t.id) not in prims:
                        a = args(n)
                        if n.k == 'CXXOperatorCallExpr':
                            a = a[1:]
                        e2 = dict(env)
                        for i, p in enumerate(t.params):
                            if i < len(a) and a[i] is not None:
                                r = who(a[i], env) if cohortish(p['t']) or 'uint32' in p['t'] or 'unsigned' in p['t'] else tag(a[i], env)
                                if r is None:
                                    r = tag(a[i], env) or who(a[i], env)
                                if r:
                                    e2[p['id']] = r
                        for x in collect(t, k, e2, depth + 1):
                            yield x
        def assigns(n, f):
            if n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]) is not None and strip(n.c[0]).get('id') in asg:
                yield n.i
        was = live.get('on')
        live['on'], An = reached(P, Model(ktype=k), fn, assigns, lambda t: True)
        got, An = reached(P, Model(ktype=k), fn, sites, lambda t: True)
        live['on'] = was
        ctx.saw(fn)
        return {g for g in got if isinstance(g, tuple)}

    # the action that links: the innermost lambda or function around the calls
    acts = [f for f in P.funcs.values() if f.body is not None and f.file == host.file and f.id not in (rc.id, cc.id, host.id) and any(name_of(n) in REL for n in f.walk())]
    start = None
    for f in acts:
        own = {name_of(n) for n in f.walk()}
        if own & set(REL) and f.is_lambda and not any(cohortish(p['t']) for p in f.params):
            start = f
    start = start or rc
    LF = ('RF_ALLOWLOOP', 'RF_ALLOWCROSS')
    want = {'K_SETPARENT': {('attachParentChild', A, T, LF)}, 'K_SETCHILD': {('attachParentChild', T, A, LF)}}
    for op in ('ADD', 'SET', 'REM'):
        r, g = op.lower() + 'Relation', op.lower() + '_relation_rtag'
        want['K_%sRELATION' % op] = {(r, T, M, A), (g, T, M, A)}
        want['K_%sRELATIONS' % op] = {(r, T, M, A), (g, T, M, A), (r, A, S, T), (g, A, S, T)}
    for k, w in sorted(want.items()):
        got = collect(start, k, {})
        for x in sorted(w):
            ctx.check(x in got, 'role', '%s:%s' % (k, '/'.join(str(y) for y in x[:3])), '%s:%d' % (start.file, start.line), '%s: %s' % (k, text(x)), '%s no longer does: %s' % (k, text(x)))
        for x in sorted(got - w, key=str):
            ctx.check(False, 'role', '%s:extra:%s' % (k, '/'.join(str(y) for y in x[:3])), '%s:%d' % (start.file, start.line), '', '%s does what it does not say: %s' % (k, text(x)))
    # REVERSE
    sw = []
    for f in [start] + [P.funcs[m.get('lam')] for m in start.walk() if m.k == 'LambdaExpr']:
        for n in f.walk():
            if n.k == 'VarDecl' and 'swapper' in n.t or n.k in CALLS and n.get('fs') == 'swap':
                sub = [n]
                if n.k in CALLS:
                    sub = [n] + [a for a in n.ancestors() if a.k == 'IfStmt']
                ids = {r for x in (args(n) if n.k in CALLS else [y for c in n.c if c is not None for y in c.walk() if y.k == 'DeclRefExpr']) if x is not None for r in [who(x, {})] if r}
                flag = any(y.k == 'DeclRefExpr' and y.get('d') == 'RF_REVERSE' for s2 in sub for y in s2.walk())
                if not flag:
                    for s2 in sub:
                        for y in s2.walk():
                            if y.k == 'DeclRefExpr' and y.get('id') in inits and any(z.k == 'DeclRefExpr' and z.get('d') == 'RF_REVERSE' for z in inits[y.get('id')].walk()):
                                flag = True
                cond = []
                for s2 in sub:
                    if s2.k == 'VarDecl':
                        cond += [y.c[0] for y in s2.walk() if y.k == 'CXXConstructExpr' and len(y.c) >= 3]
                    elif s2.k == 'IfStmt':
                        cond += [x for x in s2.c if x is not None and any(y.get('d') == 'RF_REVERSE' for y in x.walk())][:1]
                for c in cond:
                    for y in [z for z in c.walk()] + [z for w in c.walk() if w.k == 'DeclRefExpr' and 'bool' in w.t and w.get('id') in inits for z in inits[w.get('id')].walk()]:
                        if y.k == 'DeclRefExpr' and y.get('d') not in ('rule', 'RF_REVERSE') and 'bool' not in y.t or y.k == 'MemberExpr' and y.get('m') not in ('flags',) or y.k in CALLS:
                            flag = False
                if flag and {T, A} <= ids:
                    sw.append((f, n))
    good = False
    for f, n in sw:
        bl = [b for b, B in f.cfg.b.items() if any((not isinstance(e, tuple)) and any(x is n for x in e.walk()) for e in B.els)]
        firsts = [b for b, B in f.cfg.b.items() if any(not isinstance(e, tuple) and name_of(e) for e in B.els)]
        if bl:
            # no link is made before it
            ok = True
            pre = set()
            work = [f.cfg.entry]
            while work:
                b = work.pop()
                if b in pre or b in bl:
                    continue
                pre.add(b)
                work.extend(t for t in f.cfg.b[b].succ if t >= 0)
            if n.k == 'VarDecl':
                ok = not (pre & set(firsts))
            good |= ok
    ctx.check(good, 'reverse', 'swap', sw[0][1].where() if sw else '%s:%d' % (start.file, start.line), 'target and found cohort are exchanged under REVERSE before anything is linked', 'REVERSE does not exchange target and found cohort before they are linked')


def text(x):
    if x[0] == 'attachParentChild':
        return 'the %s becomes the parent of the %s (%s)' % (x[1], x[2], ', '.join(str(f) for f in x[3]))
    return '%s on the %s with the tags of the %s and the number of the %s' % (x[0], x[1], x[2], x[3])
