"""C28: the cached numeric extremes of a cohort are recomputed after its readings or their numeric tags change."""
from ..ir import CALLS, args, recv, strip, is_call
from ..extract import Broken
from ..paths import Analysis, Spec, atoms
from ..engine import callbacks, rule_types, RuleSpec

M64 = (1 << 64) - 1
# functions that make or take apart a reading or cohort nobody can ask for extremes of, or that leave the tags of the cohort as they are
EXEMPT = {
    'GrammarApplicator::mergeReadings': 'joins readings that have the same tags but for the mapping tag, which is never numeric in effect; done when printing',
    'ApertiumApplicator::mergeMappings': 'joins equal readings when printing', 'MatxinApplicator::mergeMappings': 'joins equal readings when printing',
    'ApertiumApplicator::testPR': 'self-made reading',
    'Cohort::~Cohort': 'the cohort is gone', 'alloc_reading': 'the new reading is in no cohort yet; what lists it is looked at itself',
    'Cohort::unignoreAll': 'done when the cohort is printed, after which no rule runs on it',
    'GrammarApplicator::get_sub_reading': 'fills a temporary reading that is in no cohort',
}


RELTYPES = {'K_SETRELATION', 'K_SETRELATIONS', 'K_ADDRELATION', 'K_ADDRELATIONS', 'K_REMRELATION', 'K_REMRELATIONS'}


def short(c):
    return (c or '').split('::')[-1]


def mk(P, bit, base, k=None):
    class S(base):
        def __init__(self):
            if k is not None:
                super().__init__(P, k)

        def mut(self, root, op, node, fn):
            if root.kind != 'field':
                return ()
            key = (short(root.cls), root.field)
            if key == ('Cohort', 'readings') and op not in ('sort', 'stable_sort'):
                return [('+', 'READINGS')]
            if key == ('Reading', 'tags_numerical'):
                if k in RELTYPES:
                    return ()         # only tags R:name:id are taken away here, which have no numeric value
                if short(fn.cls) == 'Reading' or owner_is_bag(root):
                    return ()
                return [('+', 'NUM')]
            if key == ('Cohort', 'type') and node.k in ('BinaryOperator', 'CompoundAssignOperator'):
                v = node.c[1].ev if strip(node.c[1]).ev is None else strip(node.c[1]).ev
                if v is not None:
                    v = int(v) & M64
                    if op == '&=' and not v & bit or op == '=' and not v & bit:
                        return [('+', 'CLEAR')]
            return ()

        def once(self, B, fn):
            # the tag list of an APPEND rule names at least one reading
            return k == 'K_APPEND' and B.term.k == 'CXXForRangeStmt' and any(is_call(x, 'appendReading') for x in B.term.walk())

        def node(self, n, fn):
            if n.k in ('BinaryOperator',) and n.get('op') == '=':
                l = strip(n.c[0])
                if l is not None and l.k == 'MemberExpr' and (short(l.get('mc')), l.get('m')) == ('Cohort', 'type'):
                    r = strip(n.c[1])
                    if r.k == 'BinaryOperator' and r.get('op') == '&':
                        for x in r.c:
                            e = strip(x)
                            if e.ev is not None and not int(e.ev) & bit:
                                return [('+', 'CLEAR')]
            return ()

        def skip(self, t):
            return t.q in STOP or t.q in EXEMPT
    return S()


def owner_is_bag(root):
    b = strip(root.base) if root.base is not None else None
    if b is None:
        return False
    if b.k == 'MemberExpr' and b.get('m') == 'bag_of_tags':
        return True
    if b.k == 'DeclRefExpr':
        f = root.node.fn if hasattr(root.node, 'fn') else None
        if f is not None:
            for d in f.walk():
                if d.k == 'VarDecl' and d.get('id') == b.get('id') and d.c and d.c[0] is not None and d.t.strip().endswith('&'):
                    i = strip(d.c[0])
                    return i is not None and i.k == 'MemberExpr' and i.get('m') == 'bag_of_tags'
    return False


STOP = {'GrammarApplicator::runSingleRule', 'GrammarApplicator::runContextualTest', 'GrammarApplicator::doesSetMatchReading',
        'GrammarApplicator::doesSetMatchCohortNormal', 'GrammarApplicator::profileRuleContext', 'GrammarApplicator::addTag',
        'free_reading', 'free_cohort', 'free_swindow', 'alloc_cohort', 'GrammarApplicator::getTagList', 'GrammarApplicator::getTagsMatching',
        'GrammarApplicator::generateVarstringTag', 'GrammarApplicator::doesTagMatchReading'}


def check(ctx):
    P = ctx.P
    ctx.rule('rule', 'on every path of a rule action that changes the readings of a cohort or their numeric tags, the cohort no longer counts its extremes as current', 14)
    ctx.rule('helper', 'so does every other function that changes them, on every path', 3)
    ctx.rule('cache', 'the extremes are taken from all numeric tags of all readings, marked as current only after that, and looked at only through this', 4)
    bit = P.enum('CT_NUM_CURRENT', 'CT_REMOVED')['CT_NUM_CURRENT']
    host, rc, cc, rs = callbacks(P)
    kinds = rule_types(P)
    nm = 0
    for k in sorted(kinds):
        sp = mk(P, bit, RuleSpec, k)
        A = Analysis(P, sp)
        for name, f in (('reading', rc), ('cohort', cc)):
            S = A.summary(f)
            ctx.saw(f)
            bad, ch = None, set()
            for s in S:
                a = set(atoms(s))
                if a - {'CLEAR'}:
                    ch |= a - {'CLEAR'}
                    if 'CLEAR' not in a:
                        bad = a
            if ch:
                nm += 1
                ctx.check(bad is None, 'rule', '%s/%s' % (k, name), '%s:%d' % (f.file, f.line), '%s (%s action) changing %s' % (k[2:], name, what(ch)),
                          '%s can change %s in its %s action and leave the cached minimum and maximum of the cohort in place' % (k[2:], what(bad or ch), name))
        ctx.saw(*A.visited)
    ctx.selftest(nm >= 12, 'rule types that change readings or numeric tags (%d)' % nm)
    # everything else
    inner = {f.id for f in P.funcs.values() if f.is_lambda and f.d.get('parent') in (host.id, rc.id, cc.id)} | {rc.id, cc.id, host.id}
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or f.cfg is None or f.id in inner or f.q in EXEMPT or f.is_lambda:
            continue
        if not any(n.k == 'MemberExpr' and (short(n.get('mc')), n.get('m')) in (('Cohort', 'readings'), ('Reading', 'tags_numerical')) for n in f.walk()):
            continue
        sp = mk(P, bit, Spec)
        A = Analysis(P, sp)
        own = False
        for n in f.walk():
            if any(x[0] == 'A' and x[1] == '+' and x[2] != 'CLEAR' for x in A.raw(n, f)):
                own = True
        if not own or short(f.cls) == 'Reading' or f.kind == 'CXXConstructor' if hasattr(f, 'kind') else not own:
            continue
        S = A.summary(f)
        ctx.saw(f)
        bad = None
        for s in S:
            a = set(atoms(s))
            if a - {'CLEAR'} and 'CLEAR' not in a:
                bad = a
        ctx.check(bad is None, 'helper', f.q, '%s:%d' % (f.file, f.line), f.q, '%s can change %s and leave the cached minimum and maximum of the cohort in place' % (f.q, what(bad or ())))
    cache(ctx, P, bit)


def what(a):
    d = {'READINGS': 'the readings of a cohort', 'NUM': 'numeric tags of a reading'}
    return ' and '.join(d[x] for x in sorted(a) if x in d) or 'readings'


def cache(ctx, P, bit):
    up = P.fn('Cohort::updateMinMax')
    ctx.saw(up)
    # the only place that marks the extremes as current
    n = 0
    for f in P.funcs.values():
        if f.body is None:
            continue
        for x in f.walk():
            if x.k in ('CompoundAssignOperator', 'BinaryOperator') and x.get('op') in ('|=', '=', '^='):
                l = strip(x.c[0])
                if l is not None and l.k == 'MemberExpr' and (short(l.get('mc')), l.get('m')) == ('Cohort', 'type'):
                    e = strip(x.c[1])
                    v = e.ev
                    if v is not None and int(v) & bit and x.get('op') != '=' or v is not None and int(v) & bit:
                        n += 1
                        ctx.check(f.id == up.id, 'cache', 'mark:' + f.q, x.where(), 'marked as current in %s' % f.q, 'extremes are marked as current in %s without having been computed' % f.q)
    if not n:
        raise Broken('nothing marks the extremes as current')
    # marked only after both maps were cleared and the loop over the readings was run
    class S(Spec):
        def mut(self, root, op, node, fn):
            if op in ('=', 'operator=') and node is not None and node.c:
                l = strip(node.c[0] if node.k != 'CXXOperatorCallExpr' else node.c[1])
                if l is None or l.k not in ('MemberExpr', 'DeclRefExpr'):
                    return ()         # an element of the map
            if root.kind == 'field' and short(root.cls) == 'Cohort' and root.field in ('num_min', 'num_max') and op in ('clear', '=', 'swap', 'operator='):
                return [('+', root.field)]
            return ()

        def node(self, x, fn):
            if x.k == 'CompoundAssignOperator' and x.get('op') == '|=':
                l = strip(x.c[0])
                if l is not None and l.k == 'MemberExpr' and l.get('m') == 'type':
                    return [('+', 'MARK')]
            return ()
    A = Analysis(P, S())
    S_ = A.summary(up)
    bad = [s for s in S_ if 'MARK' in atoms(s) and not {'num_min', 'num_max'} <= set(atoms(s))]
    ctx.check(not bad and any('MARK' in atoms(s) for s in S_), 'cache', 'cleared', '%s:%d' % (up.file, up.line), 'both maps are cleared before they are marked as current',
              'the maps of extremes are marked as current without having been cleared')
    # every reading and every numeric tag is taken: no early end of the loops
    loops = [x for x in up.walk() if x.k in ('CXXForRangeStmt', 'ForStmt', 'WhileStmt')]
    over = {(short(m.get('mc')), m.get('m')) for lp in loops for m in lp.walk() if m.k == 'MemberExpr' and m.get('dk') == 'Field'}
    ctx.check({('Cohort', 'readings'), ('Reading', 'tags_numerical')} <= over, 'cache', 'all', '%s:%d' % (up.file, up.line), 'computed from the numeric tags of the readings',
              'the extremes are no longer computed from all numeric tags of all readings')
    ctx.check(not any(x.k in ('BreakStmt', 'ReturnStmt') for lp in loops for x in lp.walk()), 'cache', 'complete', '%s:%d' % (up.file, up.line), 'no loop ends early', 'a loop over the readings or their tags ends early')
    # the smaller value goes into the minimum, the larger into the maximum
    for f in [up] + [g for g in P.funcs.values() if g.is_lambda and g.file == up.file and up.line <= g.line <= up.end]:
        for x in f.walk():
            if x.k == 'BinaryOperator' and x.get('op') in ('<', '>', '<=', '>='):
                side = []
                for c in x.c:
                    ms = {m.get('m') for m in c.walk() if m.k == 'MemberExpr'}
                    side.append('map' if ms & {'num_min', 'num_max'} else 'val' if 'comparison_val' in ms else None)
                    if side[-1] == 'map':
                        which = (ms & {'num_min', 'num_max'}).pop()
                if sorted(map(str, side)) != ['map', 'val']:
                    continue
                op = x.get('op')[0] if side[0] == 'val' else {'<': '>', '>': '<'}[x.get('op')[0]]
                neg = False
                for a in x.ancestors():
                    if a.k == 'UnaryOperator' and a.get('op') == '!':
                        neg = not neg
                    if a.k in ('IfStmt', 'ConditionalOperator', 'CompoundStmt'):
                        # 'if (nothing new) continue' or an else branch: not judged
                        if a.k == 'IfStmt' and not any(m.k == 'MemberExpr' and m.get('m') == which for m in a.c[2].walk()):
                            neg = None
                        break
                if neg is None:
                    continue
                if neg:
                    op = {'<': '>', '>': '<'}[op]
                ctx.check(op == ('<' if which == 'num_min' else '>'), 'cache', 'sense:' + which, x.where(), '%s takes the %s value' % (which, 'smaller' if which == 'num_min' else 'larger'),
                          '%s is replaced when the new value is %s' % (which, 'larger' if op == '>' else 'smaller'))
    # readers go through updateMinMax
    for f in P.funcs.values():
        if f.body is None or f.id == up.id:
            continue
        rd = [x for x in f.walk() if x.k == 'MemberExpr' and short(x.get('mc')) == 'Cohort' and x.get('m') in ('num_min', 'num_max')]
        rd = [x for x in rd if not cleared(x)]
        if not rd or f.q in ('Cohort::clear', 'Cohort::Cohort', 'Cohort::~Cohort'):
            continue

        class R(Spec):
            def node(self, x, fn):
                if x.k in CALLS and x.get('fid') == up.id:
                    return [('+', 'UP')]
                return ()

            def skip(self, t):
                return t.id == up.id
        A = Analysis(P, R())
        ins = A.run(f)
        bad = False
        for b, ss in ins.items():
            B = f.cfg.b[b]
            for s in ss:
                cur = {s}
                for e in B.els:
                    if isinstance(e, tuple):
                        continue
                    if e in rd and any('UP' not in atoms(c) for c in cur):
                        bad = True
                    cur = {t for c in cur for t in A.step(c, e, f)}
        ctx.check(not bad, 'cache', 'read:' + f.q, '%s:%d' % (f.file, f.line), '%s brings the extremes up to date before it looks at them' % f.q, '%s looks at the extremes without bringing them up to date' % f.q)


def cleared(x):
    p = x.p
    while p is not None and p.k in ('ImplicitCastExpr', 'ParenExpr', 'MemberExpr'):
        p = p.p
    return p is not None and p.k in CALLS and p.get('fs') == 'clear'
