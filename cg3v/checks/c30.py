"""C30: looking does not change anything: tests, matching, tracing, debugging and profiling leave the windows as they are."""
from .. import stream as T
from ..cdep import direct
from ..effects import Effects
from ..extract import Broken
from ..flow import leafcond
from ..ir import CALLS, args, boolval, canon, recv, strip
from ..model import NZ, Bits, Model, ModelSpec, reached, short

STATE = ('Cohort', 'Reading', 'SingleWindow', 'Window', 'Rule', 'Set', 'Grammar', 'ContextualTest', 'Tag')
LOOKING = ('runContextualTest', 'doesSetMatchCohortNormal', 'doesSetMatchCohortCareful', 'doesSetMatchReading', 'doesTagMatchReading')
OPTIONS = {'trace', 'trace_name_only', 'trace_no_removed', 'trace_encl', 'debug_level', 'debug_rules', 'verbosity_level', 'profiler'}

# what may change while looking
ALLOWED = {
    ('Cohort', 'num_min'): 'cache of the smallest number of a cohort (C28)',
    ('Cohort', 'num_max'): 'cache of the largest number of a cohort (C28)',
    ('Reading', 'matched_target'): 'mark of the rule being tried, cleared for each rule',
    ('Reading', 'matched_tests'): 'mark of the rule being tried, cleared for each rule',
    ('Cohort', 'possible_sets'): 'remembers that a set did not match; filled anew when readings change',
    ('Grammar', 'single_tags'): 'looked up with [], all keys are there',
}
# what tracing may change
TRACED = {
    ('Reading', 'hit_by'): 'the trace itself',
}
# what printing for debugging may change
PRINTED = {
    ('Grammar', 'single_tags'): 'looked up with [], all keys are there',
    ('Window', 'cohort_map'): 'looked up after asking whether the key is there',
    ('Cohort', 'dep_self'): 'number for printing where there is none yet: the number the word has anyway',
    ('MatxinApplicator', 'nodes'): 'made anew for each window (C14)',
    ('MatxinApplicator', 'deps'): 'made anew for each window (C14)',
    ('Reading', 'deleted'): 'a subreading shows as its reading; nothing else looks at the mark of a subreading',
}
RESTORED = 'ContextualTest'


def skipped(f):
    n = f.q.rsplit('::', 1)[-1]
    return n == 'addTag' or n in ('printSingleWindow', 'printCohort')


def check(ctx):
    P = ctx.P
    ctx.rule('pure', 'matching sets and running contextual tests change no window, cohort, reading, rule, set or grammar', 6)
    ctx.rule('restore', 'a template that is changed for a test is as before when the test is over', 1)
    ctx.rule('cache', 'a set is taken out of the possible sets of a word only when all its readings were looked at and none matched', 4)
    ctx.rule('report', 'no change of windows depends on tracing, debugging, verbosity or profiling', 20)
    ctx.rule('quiet', 'showing a window for debugging or profiling changes nothing in it', 6)
    E = Effects(P, skipped, {('GrammarApplicator', 'subs_any')})
    pure(ctx, P, E)
    fam = family(P)
    cache(ctx, P)
    quiet(ctx, P, E, fam)
    report(ctx, P, E, fam)


def bits_only(n, f):
    """a write to Cohort::type that only says that the cached numbers are current"""
    names = {x.get('d') for x in n.walk() if x.k == 'DeclRefExpr' and x.get('dk') == 'EnumConstant'}
    return n.k == 'CompoundAssignOperator' and n.get('op') in ('|=', '&=') and names == {'CT_NUM_CURRENT'}


def pure(ctx, P, E):
    roots = [f for q in LOOKING for f in P.fns('GrammarApplicator::' + q)]
    out, seen = E.effects(roots)
    ctx.saw(*[f for f, _, _ in seen.values()])
    n = 0
    temp = {}
    done = set()
    for (c, m), node, f in out:
        if c not in STATE and c not in ('static',):
            continue
        if c == RESTORED:
            temp.setdefault(f.id, (f, []))[1].append((m, node))
            continue
        ok = (c, m) in ALLOWED or (c, m) == ('Cohort', 'type') and bits_only(node, f)
        if (c, m) == ('Cohort', 'possible_sets'):
            ok = node.get('fs') in ('reset', 'operator[]') or node.k not in CALLS and False
        if c == 'static':
            ok = True       # C12
        n += 1
        key = '%s.%s:%s' % (c, m, f.q.rsplit('::', 1)[-1])
        if (key, ok) in done:
            continue
        done.add((key, ok))
        ctx.check(ok, 'pure', key, node.where(), ALLOWED.get((c, m), 'cache'), '%s.%s is changed while looking (%s)' % (c, m, E.chain(seen, f.id)))
    for f, ws in temp.values():
        restored(ctx, P, f, ws)
    if len(seen) < 25:
        raise Broken('only %d functions are reached from contextual tests' % len(seen))
    ctx.note('looking: %d functions reached, %d writes to members of %s judged' % (len(seen), n, ', '.join(STATE)))


def cache(ctx, P):
    pos = P.enum('POS_ACTIVE', 'POS_INACTIVE')
    C = 'dSMC_Context'
    cases = {
        'only active readings are looked at': {(C, 'options'): Bits(pos['POS_ACTIVE'], pos['POS_ACTIVE'])},
        'only inactive readings are looked at': {(C, 'options'): Bits(pos['POS_INACTIVE'], pos['POS_INACTIVE'])},
        'subreadings are looked at': {(C, 'test'): NZ, ('ContextualTest', 'offset_sub'): NZ},
        'the set itself matched': {(C, 'matched_target'): True},
    }
    fs = [f for q in ('doesSetMatchCohortNormal', 'doesSetMatchCohortCareful') for f in P.fns('GrammarApplicator::' + q)]

    def sites(n, fn):
        if n.k in CALLS and n.get('fs') in ('reset', 'clear', 'flip', 'operator&=') and recv(n) is not None and strip(recv(n)).k == 'MemberExpr' and strip(recv(n)).get('m') == 'possible_sets':
            yield 'reset'
    some = False
    for f in fs:
        ctx.saw(f)
        g, _ = reached(P, Model({(C, 'matched_target'): False, (C, 'options'): Bits(pos['POS_ACTIVE'] | pos['POS_INACTIVE'], 0)}), f, sites, lambda t: True)
        some |= 'reset' in g
        for what, fields in cases.items():
            g, _ = reached(P, Model(fields), f, sites, lambda t: True)
            ctx.check('reset' not in g, 'cache', '%s:%s' % (f.q.rsplit('::', 1)[-1], what), '%s:%d' % (f.file, f.line), 'the possible sets stay when %s' % what, 'a set is taken out of the possible sets of the word although %s' % what)
    if not some:
        raise Broken('doesSetMatchCohort* no longer shrink possible_sets')


def restored(ctx, P, f, ws):
    """along every path, the last write to a member is one that puts back what was read from it before any write"""
    saved = {}
    for n in f.walk():
        if n.k == 'VarDecl' and n.c and n.c[0] is not None:
            i = strip(n.c[0])
            if i is not None and i.k == 'MemberExpr' and short(i.get('mc') or '') == RESTORED:
                saved[n.get('id')] = (i.get('m'), canon(i))
    lam = [g for g in P.funcs.values() if g.is_lambda and g.file == f.file and f.line <= g.line <= f.end]
    for m in sorted({m for m, _ in ws}):
        W = {}
        for x, node in ws:
            if x != m:
                continue
            back = node.k == 'BinaryOperator' and node.get('op') == '=' and strip(node.c[1]).k == 'DeclRefExpr' and saved.get(strip(node.c[1]).get('id')) == (m, canon(strip(node.c[0])))
            W[node.i] = back
        ok = any(W.values()) and paths_ok(f, W)
        if not ok:
            for g in lam:
                for x in g.walk():
                    if x.k == 'BinaryOperator' and x.get('op') == '=' and strip(x.c[0]).k == 'MemberExpr' and strip(x.c[0]).get('m') == m and strip(x.c[1]).k == 'DeclRefExpr' and strip(x.c[1]).get('id') in saved:
                        ok = True
        ctx.check(ok, 'restore', '%s:%s' % (f.q.rsplit('::', 1)[-1], m), [n for x, n in ws if x == m][0].where(), '%s is put back on every path' % m, '%s.%s stays changed when %s is left' % (RESTORED, m, f.q.rsplit('::', 1)[-1]))


def condkey(leaf, f, depth=0):
    """a condition, with variables that are set once replaced by what they are set to"""
    n = strip(leaf)
    if n is not None and n.k == 'BinaryOperator' and n.get('op') == '!=' and strip(n.c[1]) is not None and strip(n.c[1]).ev == 0:
        return condkey(n.c[0], f, depth + 1)
    if n is not None and n.k == 'DeclRefExpr' and depth < 4:
        ds = [d for d in f.walk() if d.k == 'VarDecl' and d.get('id') == n.get('id')]
        ws = [x for x in f.walk() if x.k in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator') and (x.get('op') or '').endswith(('=', '++', '--')) and x.get('op') not in ('==', '!=', '<=', '>=') and strip(x.c[0]) is not None and strip(x.c[0]).get('id') == n.get('id')]
        i = strip(ds[0].c[0]) if len(ds) == 1 and not ws and ds[0].c and ds[0].c[0] is not None else None
        if i is not None and not (i.k == 'BinaryOperator' and i.get('op') in ('&&', '||')) and i.k not in CALLS:
            return condkey(i, f, depth + 1)
    return canon(leaf)


def paths_ok(f, W):
    """no path from a write that does not restore to the exit without one that does; equal conditions go the same way"""
    cd = direct(f.cfg)
    rel, todo = set(), {b for b, B in f.cfg.b.items() if any(not isinstance(e, tuple) and e.i in W for e in B.els)}
    while todo:
        b = todo.pop()
        for c, i in cd.get(b, ()):
            if c not in rel:
                rel.add(c)
                todo.add(c)
    loops = {b for b in rel if f.cfg.b[b].term is not None and f.cfg.b[b].term.k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')}
    work = [(f.cfg.entry, frozenset(), False)]
    seen = set()
    while work:
        b, env, dirty = work.pop()
        if (b, env, dirty) in seen:
            continue
        seen.add((b, env, dirty))
        if len(seen) > 20000:
            return True
        B = f.cfg.b[b]
        for e in B.els:
            if not isinstance(e, tuple) and e.i in W:
                dirty = (not dirty) if W[e.i] is None else not W[e.i]
        if b == f.cfg.exit:
            if dirty:
                return False
            continue
        if B.nr:
            continue
        leaf, neg = leafcond(B) if b in rel and b not in loops else (None, False)
        for i, t in enumerate(B.succ):
            if t < 0:
                continue
            e2 = env
            if leaf is not None:
                k, v = condkey(leaf, f), (i == 0) != neg
                if (k, not v) in env:
                    continue
                e2 = env | {(k, v)}
            work.append((t, e2, dirty))
    return True


# ---------------------------------------------------------------- printing
def family(P):
    """printing functions with a parameter that says that it is only for debugging: {fn id: (Fn, parameter id)}"""
    res = {}
    for f in P.funcs.values():
        if f.body is not None and f.q.rsplit('::', 1)[-1] in ('printSingleWindow', 'printCohort') and f.params and f.params[-1]['t'] == 'bool':
            res[f.id] = (f, f.params[-1]['id'], len(f.params) - 1)
    if len(res) < 6:
        raise Broken('printing functions with a debugging mode not found')
    return res


class Quiet(ModelSpec):
    pid = None

    def fold(self, n, fn):
        m = strip(n)
        if m is not None and m.k == 'DeclRefExpr' and m.get('id') == self.pid:
            return True
        return None


def mode(n, pid, idx):
    """True/False/'same' for the debugging argument of a call"""
    a = args(n)
    if idx >= len(a) or a[idx] is None:
        return False
    x = strip(a[idx])
    if x is not None and x.k == 'DeclRefExpr' and x.get('id') == pid:
        return True
    return bool(boolval(x))


def quiet(ctx, P, E, fam):
    E.quiet = {}
    for fid, (f, pid, idx) in sorted(fam.items(), key=lambda kv: (kv[1][0].file, kv[1][0].line)):
        ctx.saw(f)
        if f.q.startswith('MweSplitApplicator'):
            ctx.note('MweSplitApplicator::printSingleWindow makes the window it prints, and has no rules to debug')
            continue
        acts, pars = E.direct(f)
        w = {}
        for a, n in acts:
            w.setdefault(n.i, []).append(a)

        def sites(n, fn):
            if n.fn is f or fn is f:
                for a in w.get(n.i, ()):
                    yield ('w', n.i, a)
                if n.k in CALLS:
                    yield ('c', n.i)

        class Sp(Quiet):
            pass
        Sp.pid = pid
        got, _ = reached(P, Model(), f, sites, lambda t: True, spec=Sp)
        bad = []
        turns = {}
        calls = 0
        for s in sorted(got, key=str):
            if s[0] == 'w':
                if judged(s[2]):
                    bad.append((s[2], f.nodes[s[1]], f.q))
                continue
            n = f.nodes[s[1]]
            for t in P.targets(n):
                if t.body is None or other(f, t):
                    continue
                calls += 1
                if t.id in fam:
                    if not mode(n, pid, fam[t.id][2]):
                        bad.append((('window', 'printed for good'), n, t.q))
                    continue
                if skipped(t) or E.own_object(n, f):
                    continue
                if t.q.rsplit('::', 1)[-1] == 'reverse':
                    turns.setdefault(canon(args(n)[0]), {})[n.i] = n
                    continue
                out, seen = E.effects([t])
                for a, x, g in out:
                    if judged(a):
                        bad.append((a, n, E.chain(seen, g.id)))
        for k, ns in sorted(turns.items()):
            ctx.check(turned_back(f, ns), 'quiet', '%s:reverse' % f.q, list(ns.values())[0].where(), 'subreadings turned round for printing are turned back', 'the subreadings stay turned round after printing, so that all but the last of them are lost')
        for a, n, how in bad:
            ctx.check(False, 'quiet', '%s:%s.%s' % (f.q, a[0], a[1]), n.where(), '', 'printing a window for debugging or profiling changes %s.%s (%s)' % (a[0], a[1], how))
        ctx.check(not bad, 'quiet', f.q, '%s:%d' % (f.file, f.line), '%d calls and %d writes executed when printing for debugging: nothing changes' % (calls, len(got)), 'printing for debugging changes what is printed')


def other(f, t):
    """a print function of another format: one window is printed in one format only"""
    return t.q.rsplit('::', 1)[-1] in ('printStreamCommand', 'printPlainTextLine') and t.q.rsplit('::', 1)[0] != f.q.rsplit('::', 1)[0]


def judged(a):
    return (a[0] in STATE or a[0].endswith('Applicator')) and a not in PRINTED and not a[1].startswith('did_warn')


def turned_back(f, ns):
    return paths_ok(f, {i: None for i in ns})


# ---------------------------------------------------------------- options
def region(f, cd, b):
    reg = {x for x in f.cfg.b if any(c == b for c, i in cd.get(x, ()))}
    ch = True
    while ch:
        ch = False
        for x in f.cfg.b:
            if x not in reg and any(c in reg for c, i in cd.get(x, ())):
                reg.add(x)
                ch = True
    return reg


def report(ctx, P, E, fam):
    roots = [f for f in P.funcs.values() if f.body is not None and f.q.rsplit('::', 1)[-1] in ('runGrammarOnText', 'runGrammarOnWindow')]
    E2 = Effects(P, lambda f: f.q.rsplit('::', 1)[-1].startswith('print') and f.q.rsplit('::', 1)[-1] != 'printDebugRule' or f.q.rsplit('::', 1)[-1] in ('mergeMappings', 'mergeReadings', 'error'))
    seen = E2.reach(roots)
    sites = 0
    count = {}
    for f, _, _ in sorted(seen.values(), key=lambda x: (x[0].file, x[0].line)):
        if f.cfg is None or not any(n.k == 'MemberExpr' and n.get('m') in OPTIONS and short(n.get('mc') or '').endswith('Applicator') for n in f.walk()):
            continue
        ctx.saw(f)
        cd = direct(f.cfg)
        acts, pars = E.direct(f)
        flagged = set()
        for b, B in f.cfg.b.items():
            l = leafcond(B)[0]
            if l is None:
                continue
            opts = T.names(P, l) & OPTIONS
            if not opts:
                continue
            sites += 1
            o = sorted(opts)[0]
            reg = region(f, cd, b)
            ins = {e.i for x in reg for e in f.cfg.b[x].els if not isinstance(e, tuple)}
            bad = [(a, n) for a, n in acts if n.i in ins and (a[0] in STATE or a[0] == 'GrammarApplicator') and a not in TRACED and a not in PRINTED]
            loc = {n.get('id') for n in f.walk() if n.k == 'VarDecl' and (n.i in ins or n.p is not None and n.p.i in ins)}
            for x in reg:
                for n in f.cfg.b[x].els:
                    if isinstance(n, tuple) or n.k not in CALLS + ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator'):
                        continue
                    if n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('op', '').endswith('=') and n.get('op') not in ('==', '!=', '<=', '>=') or n.k == 'UnaryOperator' and n.get('op') in ('++', '--'):
                        r = E.A.target_root(n.c[0], n.get('op'), f)
                        if r.kind in ('local', 'outer', 'param') and r.node is not None and r.node.get('id') not in loc and not deep_print(n):
                            bad.append((('variable', r.node.get('d')), n))
                    if n.k not in CALLS:
                        continue
                    for t in P.targets(n):
                        if t.body is None:
                            continue
                        if t.id in fam:
                            if not mode(n, None, fam[t.id][2]):
                                bad.append((('window', 'printed for good'), n))
                            continue
                        if skipped(t) or t.q.rsplit('::', 1)[-1] in ('error',):
                            continue
                        out, s2 = E.effects([t])
                        for a, x2, g in out:
                            if (a[0] in STATE or a[0] == 'GrammarApplicator') and a not in TRACED and a not in PRINTED and a not in ALLOWED:
                                bad.append((a, n))
                        for g, _, _ in s2.values():
                            for c in g.walk():
                                if c.k in CALLS:
                                    for u in P.targets(c):
                                        if u.id in fam and not mode(c, None, fam[u.id][2]):
                                            bad.append((('window', 'printed for good'), n))
            for a, n in bad:
                if (a, n.i) in flagged:
                    continue
                flagged.add((a, n.i))
                k = '%s:%s.%s' % (o, a[0], a[1])
                count[k] = count.get(k, 0) + 1
                ctx.check(False, 'report', k + ('' if count[k] == 1 else ':%d' % count[k]), n.where(), '', '%s.%s changes or not depending on %s (%s)' % (a[0], a[1], o, f.q.rsplit('::', 1)[-1]))
            if not bad:
                ctx.check(True, 'report', '%s:%d' % (f.q, b), l.where(), 'what depends on %s changes nothing' % o, '')
        # used otherwise than in a condition
        leafs = {x.i for B in f.cfg.b.values() if B.cond is not None for x in B.cond.walk()}
        for n in f.walk():
            if n.k == 'MemberExpr' and n.get('m') in OPTIONS and short(n.get('mc') or '').endswith('Applicator') and n.i not in leafs:
                top = n
                for a in n.ancestors():
                    if a.k in ('BinaryOperator', 'CompoundAssignOperator') and (a.get('op') or '').endswith('=') and a.get('op') not in ('==', '!=', '<=', '>='):
                        top = a
                        break
                if top is not n and not any(x is n for x in top.c[0].walk()):
                    acts2 = [a for a, x in acts if x is top and a[0] in STATE]
                    for a in acts2:
                        ctx.check(False, 'report', '%s:value:%s.%s' % (n.get('m'), a[0], a[1]), n.where(), '', '%s.%s gets a value that depends on %s' % (a[0], a[1], n.get('m')))
    ctx.note('%d conditions on %s in %d functions of the engine and the readers' % (sites, ', '.join(sorted(OPTIONS)), len(seen)))


def deep_print(n):
    return False
