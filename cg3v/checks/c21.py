"""C21: no cohort is left without readings, and readings taken out are kept where the rule says."""
from ..ir import CALLS, args, recv, strip, is_call, boolval
from ..extract import Broken
from ..paths import Analysis, Spec, atoms
from ..cdep import transitive
from ..ir import canon
from ..engine import callbacks, rule_types, RuleSpec
from ..model import Model, Bits, ModelSpec, reached, short

LISTS = ('deleted', 'delayed', 'ignored')
STOP = {'GrammarApplicator::runSingleRule', 'GrammarApplicator::runContextualTest', 'GrammarApplicator::doesSetMatchReading', 'GrammarApplicator::addTag', 'GrammarApplicator::get_sub_reading',
        'GrammarApplicator::getTagList', 'GrammarApplicator::generateVarstringTag'}


def cohort_list(P, A, n, fn):
    r = A.root(n, fn)
    if r.kind == 'field' and short(r.cls) == 'Cohort' and r.field in LISTS + ('readings',):
        return r.field
    return None


def is_rlptr(t):
    return (t or '').replace('const ', '').strip().replace(' *>', '*>').endswith(('Reading*> *', 'ReadingList *'))


class LSpec(ModelSpec):
    """follows references, pointers and choices to the list of the cohort they stand for"""

    def tracks(self, d):
        return super().tracks(d) or is_rlptr(d.t)

    def value(self, n, env, fn, A, depth=0):
        m = strip(n)
        if m is not None and m.k == 'UnaryOperator' and m.get('op') == '&':
            w = self.which(m.c[0], env, fn, A)
            if w:
                return ('list', w)
        return super().value(n, env, fn, A, depth)

    def which(self, n, env, fn, A, depth=0):
        n = strip(n)
        if n is None or depth > 8:
            return None
        if n.k == 'UnaryOperator' and n.get('op') in ('*', '&'):
            return self.which(n.c[0], env, fn, A, depth + 1)
        if n.k == 'ConditionalOperator':
            from ..model import truth_of
            t = truth_of(self.value(n.c[0], env, fn, A))
            return None if t is None else self.which(n.c[1] if t else n.c[2], env, fn, A, depth + 1)
        if n.k == 'DeclRefExpr':
            v = env.get(('k', n.get('id')))
            if isinstance(v, tuple) and v[0] == 'list':
                return v[1]
            d = A.info(fn).decl.get(n.get('id'))
            if d is not None and (d.t or '').strip().endswith('&') and d.c and d.c[0] is not None:
                return self.which(d.c[0], env, fn, A, depth + 1)
            return None
        if n.k in CALLS:
            r = recv(n)
            if r is not None and n.get('fs') in ('begin', 'end', 'back', 'front'):
                return self.which(r, env, fn, A, depth + 1)
            return self.returned(n, env, fn, A, depth)
        return cohort_list(self.P, A, n, fn)

    def returned(self, n, env, fn, A, depth):
        """the list a helper returns a reference or pointer to, if it is the same one on all paths the model leaves"""
        ts = [t for t in self.P.targets(n) if t.body is not None and t.cfg is not None]
        if len(ts) != 1 or self.depth > 2 or not is_rlptr((n.t or '').replace('&', '*')) and 'vector<CG3::Reading *>' not in (n.t or '') and 'ReadingList' not in (n.t or ''):
            return None
        t = ts[0]
        self.depth += 1
        try:
            sub = type(self)(self.P, self.m, None, lambda g: True)
            sub.depth = self.depth
            B = Analysis(self.P, sub)
            a = args(n)
            if n.k == 'CXXOperatorCallExpr' and len(a) == len(t.params) + 1:
                a = a[1:]
            binds = {}
            for q, x in zip(t.params, a):
                v = self.value(x, env, fn, A)
                if v is not None:
                    binds[('k', q['id'])] = v
            ins = B.run(t, init=frozenset(binds.items()))
            got = set()
            for b, sts in ins.items():
                for st in sts:
                    cur = [st]
                    for e in t.cfg.b[b].els:
                        if not isinstance(e, tuple) and e.k == 'ReturnStmt' and e.c and e.c[0] is not None:
                            got |= {sub.which(e.c[0], dict(x), t, B, depth + 1) for x in cur}
                        cur = [y for x in cur for y in B.step(x, e, t)]
        finally:
            self.depth -= 1
        return next(iter(got)) if len(got) == 1 else None

    def node(self, n, fn):
        res = super().node(n, fn)
        if not res and n.k in CALLS and recv(n) is not None and n.get('fs') in ('insert', 'push_back', 'emplace_back', 'erase', 'clear', 'resize', 'swap', 'pop_back'):
            return [('0', '-')]      # no effect by itself, but the function it is in has to be looked into
        return res

    def env_node(self, n, env, fn, A):
        if n.k in CALLS:
            r = recv(n)
            if r is not None and n.get('fs') in ('insert', 'push_back', 'emplace_back', 'erase', 'clear', 'resize', 'swap', 'pop_back', 'operator='):
                w = self.which(r, env, fn, A)
                if w:
                    return [('+', w)]
            elif n.get('fs') not in ('begin', 'end', 'size', 'empty'):
                res = []
                for a in args(n):
                    if a is not None and (a.t or '').replace('const ', '').strip(' &*').replace(' *>', '*>').endswith(('Reading*>', 'ReadingList')):
                        w = self.which(a, env, fn, A)
                        if w:
                            res.append(('+', w))
                return res
        return ()


class Base(RuleSpec):
    def __init__(self, P, k, locs):
        super().__init__(P, k)
        self.locs = locs
        self.AA, self.src, self.names = Analysis(P, Spec()), set(), {}

    def skip(self, t):
        return t.q in STOP or t.q in ('alloc_reading', 'free_reading')

    def param_type(self, t):
        return 'vector<CG3::Reading *>' in t or 'ReadingList' in t

    def handed(self, n, fn):
        """a reference to a list of readings that a helper hands out"""
        d = self.AA.info(fn).decl.get(n.get('id')) if n.k == 'DeclRefExpr' else n
        if d is not None and d.k == 'VarDecl' and (d.t or '').strip().endswith('&') and d.c and d.c[0] is not None:
            d = strip(d.c[0])
        elif n.k == 'DeclRefExpr':
            return False
        return d is not None and d.k in CALLS and ('vector<CG3::Reading *>' in (d.t or '') or 'ReadingList' in (d.t or '')) and any(
            t.body is not None and (t.d.get('rt') or '').strip().endswith('&') or t.is_lambda for t in self.P.targets(d))

    def mut(self, root, op, node, fn):
        if root.kind not in ('field', 'local', 'outer', 'param') and recv(node) is not None if node.k in CALLS else False:
            if not op.endswith('=') and self.handed(strip(recv(node)), fn):
                return [('+', ('ADD' if op in ('insert', 'push_back', 'emplace_back') else 'TAKE') + ':some')]
        if root.kind == 'field' and short(root.cls) == 'Cohort':
            if root.field in LISTS:
                for a in (args(node) if node.k in CALLS else ()):
                    r = self.AA.root(a, fn)
                    if r.kind in ('local', 'outer') and r.node is not None and r.id in self.names:
                        self.src.add((r.id, self.names[r.id]))
                return [('+', ('ADD' if op in ('insert', 'push_back', 'emplace_back') else 'TAKE') + ':' + root.field)]
            if root.field == 'readings' and not root.deep or root.field == 'readings' and op in ('erase', 'resize', 'push_back', 'insert'):
                return [('+', 'GROW' if op in ('insert', 'push_back', 'emplace_back') else 'SHRINK')]
        if not op.endswith('=') and root.kind in ('local', 'param', 'outer') and root.id not in self.locs and root.node is not None and (is_rlptr(root.node.t) or self.handed(root.node, fn)):
            return [('+', ('ADD' if op in ('insert', 'push_back', 'emplace_back') else 'TAKE') + ':some')]
        if root.kind == 'field' and (short(root.cls), root.field) == ('Reading', 'deleted') and node.k == 'BinaryOperator':
            return [('+', 'FLAG1' if boolval(node.c[1]) is True else 'FLAG0')]
        if root.kind in ('outer', 'local') and root.id in self.locs:
            if op in ('push_back', 'emplace_back', 'insert'):
                return [('+', 'COLLECT:' + self.locs[root.id])]
            if op in ('clear', 'resize', 'assign', '=', 'operator='):
                return [('+', 'EMPTY:' + self.locs[root.id])]
        return ()


def check(ctx):
    P = ctx.P
    host, rc, cc, rs = callbacks(P)
    kinds = rule_types(P)
    ctx.saw(host, rc, cc)
    ctx.rule('last', 'a SELECT that selects nothing or everything and a REMOVE or IFF that would take all readings leave the cohort alone, unless unsafe', 10)
    ctx.rule('list', 'readings taken out go to the list the flags of the rule name, and to no other', 9)
    ctx.rule('pair', 'readings are taken out of a cohort only into one of its lists, marked as removed; and brought back whole', 5)
    ctx.rule('whole', 'which readings are kept in a list depends on what was selected alone, lists are handed over whole, and what is listed is what is marked', 2)
    ctx.rule('refill', 'a cohort that has lost all its readings gets the placeholder one', 2)
    ctx.rule('scope', 'what was collected for one cohort is gone before the next', 3)
    ctx.rule('unmap', 'REMOVE UNMAPLAST takes the mapping off the reading that would be the last to go, and keeps it', 3)
    rf = P.enum('RF_UNSAFE', 'RF_SAFE', 'RF_DELAYED', 'RF_IGNORED', 'RF_UNMAPLAST')

    def fl(on='', off=''):
        k = v = 0
        for x in on.split():
            k |= rf['RF_' + x]
            v |= rf['RF_' + x]
        for x in off.split():
            k |= rf['RF_' + x]
        return Bits(k, v)
    # the lists of readings the callbacks share
    locs = {n.get('id'): n.get('d') for n in host.walk() if n.k == 'VarDecl' and ('vector<CG3::Reading *>' in (n.t or '') or 'ReadingList' in (n.t or '')) and '*>>' not in n.t and not n.t.strip().endswith('&')}
    filled = {}
    for k in ('K_SELECT', 'K_REMOVE', 'K_IFF'):
        A = Analysis(P, Base(P, k, locs))
        filled[k] = {a[8:] for s in A.summary(rc) for a in atoms(s) if a.startswith('COLLECT:')}
        ctx.saw(*A.visited)
    ids = {v: i for i, v in locs.items()}
    if len(filled['K_SELECT']) != 1 or len(filled['K_REMOVE']) != 1 or len(filled['K_IFF']) != 2 or filled['K_SELECT'] == filled['K_REMOVE']:
        raise Broken('the lists of selected and removed readings are not recognised')
    SEL, REM = ids[next(iter(filled['K_SELECT']))], ids[next(iter(filled['K_REMOVE']))]
    F, U, RD = ('Rule', 'flags'), ('GrammarApplicator', 'unsafe'), ('Cohort', 'readings')
    AA = Analysis(P, Spec())

    def sites(n, fn):
        if n.k in CALLS:
            r = recv(n)
            fs = n.get('fs')
            if is_call(n, 'initEmptyCohort'):
                yield 'init'
            if is_call(n, 'unmapReading'):
                yield 'unmap'
            if r is not None and fs in ('push_back', 'emplace_back', 'insert'):
                x = AA.root(r, fn)
                if x.kind in ('outer', 'local') and x.id in (SEL, REM):
                    yield 'collect'
        elif n.k == 'BinaryOperator' and n.get('op') == '=':
            l = strip(n.c[0])
            if l is not None and l.k == 'MemberExpr' and (short(l.get('mc')), l.get('m')) == ('Reading', 'deleted') and boolval(n.c[1]) is True:
                yield 'mark'
    skipf = lambda t: t.q in STOP or t.q in ('GrammarApplicator::initEmptyCohort', 'GrammarApplicator::unmapReading')
    share = {}

    def run(fn, m):
        got, A = reached(P, m, fn, sites, skipf, reach=share.setdefault(fn.id, {}), spec=LSpec)
        return got
    where = '%s:%d' % (cc.file, cc.line)
    CH = {'readings', 'mark', 'deleted', 'delayed', 'ignored'}

    def none(key, m, text):
        got = run(cc, m) & CH
        ctx.check(not got, 'last', key, where, '%s: nothing is taken out' % text, '%s, and still readings are taken out (%s)' % (text, ', '.join(sorted(got))))

    def some(key, m, text):
        got = run(cc, m)
        ctx.check('mark' in got, 'last', key, where, '%s: readings are taken out' % text, '%s, but no reading is taken out' % text)
    for k in ('K_SELECT', 'K_IFF'):
        if k == 'K_SELECT':
            none(k + '/nothing', Model(sizes={RD: 3}, outer={SEL: 0, REM: 0}, ktype=k), 'SELECT that selects nothing')
        none(k + '/all', Model(sizes={RD: 3}, outer={SEL: 3, REM: 0}, ktype=k), '%s that selects every reading' % k[2:])
        some(k + '/some', Model(sizes={RD: 3}, outer={SEL: 1, REM: 0}, ktype=k), '%s that selects one of three readings' % k[2:])
    for k in ('K_REMOVE', 'K_IFF'):
        none(k + '/nothing', Model({U: 1}, sizes={RD: 3}, outer={SEL: 0, REM: 0}, ktype=k), '%s that matches nothing' % k[2:])
        for un, on, off in ((0, '', 'UNSAFE SAFE'), (0, 'SAFE', 'UNSAFE'), (1, 'SAFE', 'UNSAFE')):
            none('%s/%d%s' % (k, un, on), Model({U: un, F: fl(on, off)}, {RD: 3}, {SEL: 0, REM: 3}, k), '%s%s of all readings%s' % (k[2:], on and ' ' + on, ' (engine in unsafe mode)' if un else ''))
        for un, on, off in ((0, 'UNSAFE', ''), (1, '', 'UNSAFE SAFE')):
            some('%s/%d%s/unsafe' % (k, un, on), Model({U: un, F: fl(on, off)}, {RD: 3}, {SEL: 0, REM: 3}, k), 'unsafe %s of all readings' % k[2:])
        some(k + '/some', Model({U: 0, F: fl('', 'UNSAFE SAFE')}, {RD: 3}, {SEL: 0, REM: 2}, k), '%s of two of three readings' % k[2:])
    # which list
    for k, sz in (('K_SELECT', {SEL: 1, REM: 0}), ('K_REMOVE', {SEL: 0, REM: 1}), ('K_IFF', {SEL: 1, REM: 0}), ('K_IFF', {SEL: 0, REM: 1})):
        for on, want in (('', 'deleted'), ('DELAYED', 'delayed'), ('IGNORED', 'ignored')):
            m = Model({F: fl(on, ' '.join(x for x in ('DELAYED', 'IGNORED') if x != on))}, {RD: 3}, sz, k)
            got = run(cc, m) & set(LISTS)
            ctx.check(got == {want}, 'list', '%s/%s%d' % (k, want, sz[SEL]), where, '%s %s puts readings into %s' % (k[2:], on, want),
                      'readings taken out by %s %s go to %s instead of %s' % (k[2:], on or 'without flags', ', '.join(sorted(got)) or 'no list', want))
    for on, want in (('', 'deleted'), ('DELAYED', 'delayed'), ('IGNORED', 'ignored')):
        m = Model({F: fl(on, ' '.join(x for x in ('DELAYED', 'IGNORED') if x != on))}, ktype='K_RESTORE')
        got = run(rc, m) & set(LISTS)
        ctx.check(got == {want}, 'list', 'K_RESTORE/' + want, '%s:%d' % (rc.file, rc.line), 'RESTORE %s takes readings from %s' % (on, want),
                  'RESTORE %s takes readings from %s instead of %s' % (on or 'without flags', ', '.join(sorted(got)) or 'no list', want))
    # pairing, per path
    for k in ('K_SELECT', 'K_REMOVE', 'K_IFF'):
        sp = Base(P, k, locs)
        sp.names = {n.get('id'): n.get('d') for n in cc.walk() if n.k == 'VarDecl' and 'vector<CG3::Reading *>' in (n.t or '') and not (n.t or '').strip().endswith(('&', '*'))}
        A = Analysis(P, sp)
        S = A.summary(cc)
        for i, nm in sorted(sp.src, key=lambda x: x[1]):
            sp2 = Base(P, k, {i: nm})
            hit = any('COLLECT:' + nm in atoms(s) for s in Analysis(P, sp2).summary(cc))
            decl = A.info(cc).decl[i]
            hit = hit or bool(decl.c and decl.c[0] is not None and args(decl.c[0]))
            ctx.check(hit, 'pair', 'filled:%s/%s' % (k, nm), where, '%s: the list %s put into a list of the cohort has been filled' % (k[2:], nm),
                      '%s marks readings as removed and puts the list %s into a list of the cohort, but nothing was collected in it' % (k[2:], nm))
        bad = None
        n = 0
        for s in S:
            a = set(atoms(s))
            if a & {'SHRINK', 'FLAG1'}:
                n += 1
                if not any(x.startswith('ADD:') for x in a) or 'SHRINK' not in a:
                    bad = a
        if not n:
            raise Broken('no path on which %s takes readings out' % k)
        ctx.check(bad is None, 'pair', k, where, '%s: taken out of the readings and put into a list, on all %d kinds of path that do either' % (k[2:], n),
                  '%s can take readings out of a cohort without keeping them in one of its lists, or list them without taking them out' % k[2:])
        # everything collected is dropped again
        for l in sorted(filled[k]):
            bad = [s for s in S if 'EMPTY:' + l not in atoms(s)]
            ctx.check(not bad, 'scope', '%s/%s' % (k, l), where, '%s: %s is emptied on every path' % (k[2:], l),
                      '%s can leave readings of one cohort in %s: they are then taken for readings of the next cohort' % (k[2:], l))
        # refill
        if k != 'K_SELECT':
            class M(ModelSpec):
                def node(self, n, fn):
                    return [('+', 'INIT')] if is_call(n, 'initEmptyCohort') else ()
            B = Analysis(P, M(P, Model(sizes={RD: 0}, outer={SEL: 0}, ktype=k), None, lambda t: True))
            R = B.summary(cc)
            ctx.check(bool(R) and all('INIT' in atoms(s) for s in R), 'refill', k, where, '%s: a cohort without readings gets the placeholder reading' % k[2:],
                      '%s can leave a cohort without any reading' % k[2:])
    # marked as removed: next to the place where they are dropped
    marked(ctx, P, cc, REM, SEL)
    whole(ctx, P, cc, {SEL, REM})
    # RESTORE
    restore(ctx, P, rc, locs)
    # UNMAPLAST
    for nm, on, rem, want in (('last', 'UNMAPLAST', 2, {'unmap'}), ('earlier', 'UNMAPLAST', 1, {'collect'}), ('plain', '', 2, {'collect'})):
        m = Model({F: fl(on, '' if on else 'UNMAPLAST')}, {RD: 3}, {SEL: 0, REM: rem}, 'K_REMOVE')
        got = run(rc, m) & {'unmap', 'collect'}
        ctx.check(got == want, 'unmap', nm, '%s:%d' % (rc.file, rc.line), 'REMOVE %s with %d of 3 readings collected: %s' % (on, rem, '/'.join(sorted(want))),
                  'REMOVE %s with %d of 3 readings collected: %s instead of %s' % (on, rem, '/'.join(sorted(got)) or 'nothing', '/'.join(sorted(want))))


def marked(ctx, P, cc, REM, SEL):
    """the flag Reading::deleted is set for what leaves the readings: every loop or block of the cohort action that drops readings sets it"""
    n = 0

    def flag(f, x):
        return any(y.k == 'BinaryOperator' and y.get('op') == '=' and strip(y.c[0]) is not None and strip(y.c[0]).k == 'MemberExpr' and strip(y.c[0]).get('m') == 'deleted'
                   and short(strip(y.c[0]).get('mc')) == 'Reading' and boolval(y.c[1]) is True for y in x.walk())

    def reach(x, depth=0):
        yield x
        if depth < 3:
            for y in x.walk():
                if y.k in CALLS:
                    for t in P.targets(y):
                        if t.body is not None and t.q not in STOP:
                            for z in reach(t.body, depth + 1):
                                yield z
    for k in ('K_SELECT', 'K_REMOVE', 'K_IFF'):
        sp = Base(P, k, {})
        A = Analysis(P, sp)
        S = [set(atoms(s)) for s in A.summary(cc)]
        n += 1
        # loops may run zero times in the analysis: it is enough that some path sets the flag, and no path sets it without a list taking the reading
        ok = any('FLAG1' in a for a in S) and all('FLAG0' not in a for a in S)
        ctx.check(ok, 'pair', 'mark:' + k, '%s:%d' % (cc.file, cc.line), '%s marks what it takes out as removed' % k[2:], '%s does not mark the readings it takes out as removed' % k[2:])


def local_text(A, fn, n):
    """canonical text of an expression, variables that are set once replaced by what they are set to"""
    n = strip(n)
    for _ in range(4):
        if n is None or n.k != 'DeclRefExpr':
            break
        i = A.info(fn)
        d = i.decl.get(n.get('id'))
        if d is None or i.assigned[n.get('id')] or not d.c or d.c[0] is None or not (d.t or '').strip().endswith(('*', '&', 'auto')):
            break
        n = strip(d.c[0])
    return canon(n)


def whole(ctx, P, cc, shared):
    """what the cohort action takes out is kept whole: lists are handed over from begin to end; which readings are kept is decided by
    what was selected alone; and the reading that is marked as removed is the one that is put into the list"""
    AA = Analysis(P, Spec())
    fns = [cc] + sorted({t for n in cc.walk() if n.k in CALLS for t in P.targets(n) if t.body is not None and t.cfg is not None and t.q not in STOP
                         and (t.is_lambda or t.cls == cc.cls or t.file == cc.file)}, key=lambda f: (f.file, f.line))
    nw = 0
    srcs = set()
    for f in fns:
        for n in f.walk():
            if n.k in CALLS and n.get('fs') in ('insert', 'assign') and recv(n) is not None:
                a = [x for x in args(n)]
                if n.k == 'CXXOperatorCallExpr':
                    continue
                if not (recv(n).t or '').replace('const ', '').strip(' &*').replace(' *>', '*>').endswith(('Reading*>', 'ReadingList')) or len(a) < 2:
                    continue
                lo, hi = strip(a[-2]), strip(a[-1])
                if len(a) < 3 and n.get('fs') == 'insert':
                    continue
                r = AA.root(a[-2], f)
                if r.kind in ('outer', 'local'):
                    srcs.add(r.id)
                    arith = [x for e in (lo, hi) for x in e.walk() if x.k == 'BinaryOperator' and x.get('op') in ('+', '-') or x.k == 'CXXOperatorCallExpr' and x.get('fs') in ('operator+', 'operator-', 'operator++', 'operator--')
                             or x.k in CALLS and x.get('fs') in ('next', 'prev', 'advance')]
                    nw += 1
                    ctx.check(not arith, 'whole', 'range:%s/%d' % (cc.q.split('::')[-1], nw), n.where(), 'the list is handed over from its begin to its end',
                              'only a part of the readings taken out is put into the list of the cohort')
    if not srcs:
        return
    for f in fns:
        pushed = {}
        for n in f.walk():
            if n.k in CALLS and n.get('fs') in ('push_back', 'emplace_back', 'insert') and recv(n) is not None and args(n):
                r = AA.root(recv(n), f)
                if r.kind in ('outer', 'local') and r.id in srcs and r.id not in shared:
                    pushed.setdefault(local_text(AA, f, args(n)[-1]), []).append(n)
        cd = None
        for t, ns in sorted(pushed.items()):
            for n in ns:
                cd = cd or transitive(f.cfg)
                odd = stray_conditions(P, AA, f, n, cd, shared)
                nw += 1
                ctx.check(odd is None, 'whole', 'kept:%d' % nw, n.where(), 'whether a reading is put into the list depends on nothing but what was selected or collected',
                          'whether a reading that is taken out is kept in a list depends on something else than what was selected (line %d)' % (odd.l if odd is not None else 0))
        for n in f.walk():
            if n.k == 'BinaryOperator' and n.get('op') == '=' and boolval(n.c[1]) is True:
                l = strip(n.c[0])
                if l is None or l.k != 'MemberExpr' or (short(l.get('mc')), l.get('m')) != ('Reading', 'deleted') or not l.c:
                    continue
                cd = cd or transitive(f.cfg)
                odd = stray_conditions(P, AA, f, n, cd, shared)
                base = strip(l.c[0])
                i = AA.info(f)
                wrong = pushed and base is not None and base.k == 'DeclRefExpr' and base.get('id') in i.decl and i.assigned[base.get('id')] and local_text(AA, f, base) not in pushed
                nw += 1
                ctx.check(odd is None and not wrong, 'whole', 'marked:%d' % nw, n.where(), 'the reading that is kept in the list is the one marked as removed',
                          'another reading than the one put into the list can be marked as removed' if wrong else
                          'whether a reading that is taken out is marked as removed depends on something else than what was selected (line %d)' % (odd.l if odd is not None else 0))
    ctx.saw(*fns)


def stray_conditions(P, A, f, n, cd, shared):
    """a condition inside the innermost loop around n that n depends on and that does not look at the shared lists"""
    loop = n.p
    while loop is not None and loop.k not in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
        loop = loop.p
    if loop is None:
        return None
    inside = {id(x) for x in loop.walk()}
    at = None
    for b, B in f.cfg.b.items():
        if any(e is n for e in B.els if not isinstance(e, tuple)):
            at = b
    if at is None:
        return None
    for b, _ in sorted(cd[at]):
        B = f.cfg.b[b]
        if B.term is None or B.cond is None or id(B.cond) not in inside or B.term.k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            continue
        q = B.term
        if q.k in ('BinaryOperator', 'ConditionalOperator') and any(y.p is loop for y in [q]):
            continue
        if not mentions(P, A, f, B.cond, shared, 0):
            # part of a loop condition
            y, up = B.cond, B.cond.p
            while up is not None and up is not loop and up.k in ('BinaryOperator', 'UnaryOperator', 'ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups'):
                up = up.p
            if up is loop:
                continue
            # the rest of the condition it belongs to
            top = B.cond
            while top.p is not None and top.p.k in ('BinaryOperator', 'UnaryOperator', 'ParenExpr'):
                top = top.p
            if top is not B.cond and mentions(P, A, f, top, shared, 0) and top.k == 'BinaryOperator' and top.get('op') in ('&&', '||') and not names_only(B.cond):
                continue
            return B.cond
    return None


def names_only(n):
    """a test of a single variable"""
    n = strip(n)
    while n is not None and n.k == 'UnaryOperator' and n.get('op') == '!':
        n = strip(n.c[0])
    return n is not None and n.k == 'DeclRefExpr'


def mentions(P, A, f, n, shared, depth):
    for x in n.walk():
        if x.k == 'DeclRefExpr':
            if x.get('id') in shared:
                return True
            i = A.info(f)
            d = i.decl.get(x.get('id'))
            if d is not None and depth < 4:
                if d.c and d.c[0] is not None and mentions(P, A, f, d.c[0], shared, depth + 1):
                    return True
                for y in f.walk():
                    if y.k == 'BinaryOperator' and y.get('op') == '=' and strip(y.c[0]) is not None and strip(y.c[0]).k == 'DeclRefExpr' and strip(y.c[0]).get('id') == x.get('id'):
                        if mentions(P, A, f, y.c[1], shared, depth + 1):
                            return True
        elif x.k in CALLS and depth < 3:
            for t in P.targets(x):
                if t.body is not None and t.q not in STOP and mentions(P, A, t, t.body, shared, depth + 2):
                    return True
    return False


def restore(ctx, P, rc, locs):
    sp = Base(P, 'K_RESTORE', locs)
    A = Analysis(P, sp)
    S = A.summary(rc)
    ctx.saw(*A.visited)
    bad = None
    n = 0
    for s in S:
        a = {x.split(':')[0] for x in atoms(s)} & {'TAKE', 'GROW', 'FLAG0', 'ADD', 'SHRINK', 'FLAG1'}
        if a:
            n += 1
            if a != {'TAKE', 'GROW', 'FLAG0'}:
                bad = a
    if not n:
        raise Broken('no path on which RESTORE brings readings back')
    nice = {'TAKE': 'taken from the list', 'GROW': 'put among the readings', 'FLAG0': 'no longer marked as removed', 'ADD': 'put into a list', 'SHRINK': 'taken out of the readings', 'FLAG1': 'marked as removed'}
    ctx.check(bad is None, 'pair', 'K_RESTORE', '%s:%d' % (rc.file, rc.line), 'RESTORE: taken from the list, put among the readings and unmarked together',
              'RESTORE can leave a reading %s only' % ' and '.join(nice[x] for x in sorted(bad or ())))
