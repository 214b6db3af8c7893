"""C08: remembered negative rule results are forgotten on every state change, and changes are reported."""
from ..ir import CALLS, args, recv, strip, is_call
from ..extract import Broken
from ..paths import Analysis, Spec, atoms, cmp_parts, Root
from ..engine import callbacks, rule_types, RuleSpec
from .. import cdep

# what contextual tests and target matching can see of a window
OBS = {('Cohort', 'readings'): 'READINGS', ('Cohort', 'deleted'): 'LISTS', ('Cohort', 'delayed'): 'LISTS', ('Cohort', 'ignored'): 'LISTS',
       ('Reading', 'tags_list'): 'TAGS', ('Reading', 'immutable'): 'IMM', ('Reading', 'mapped'): 'MAPPED',
       ('SingleWindow', 'cohorts'): 'COHORTS', ('Cohort', 'dep_parent'): 'DEP', ('Cohort', 'relations'): 'REL',
       ('GrammarApplicator', 'variables'): 'VARS', ('Cohort', 'wordform'): 'WF'}
# functions that only compute, or whose effects are not of this kind (allocation of objects that are not in a window yet, tag creation, index upkeep)
STOP = {'GrammarApplicator::runSingleRule', 'GrammarApplicator::runContextualTest', 'GrammarApplicator::doesSetMatchReading',
        'GrammarApplicator::doesSetMatchCohortNormal', 'GrammarApplicator::profileRuleContext', 'GrammarApplicator::addTag', 'GrammarApplicator::get_sub_reading',
        'alloc_reading', 'free_reading', 'free_cohort', 'free_swindow', 'GrammarApplicator::getTagList', 'GrammarApplicator::getTagsMatching',
        'GrammarApplicator::generateVarstringTag', 'GrammarApplicator::doesTagMatchReading', 'GrammarApplicator::makeBaseFromWord',
        'GrammarApplicator::doesWordformsMatch', 'GrammarApplicator::updateRuleToCohorts', 'GrammarApplicator::updateValidRules', 'GrammarApplicator::indexSingleWindow'}
RELTYPES = {'K_ADDRELATION', 'K_SETRELATION', 'K_REMRELATION', 'K_ADDRELATIONS', 'K_SETRELATIONS', 'K_REMRELATIONS'}
# rule types whose changes are by design not reported (they are not retried and do not repeat a section by themselves)
QUIET = {'K_PROTECT': 'protection only takes readings out of play', 'K_UNPROTECT': 'never reported upstream', 'K_SETVARIABLE': 'variables are not window state',
         'K_REMVARIABLE': 'variables are not window state', 'K_RESTORE': 'never reported upstream', 'K_REMPARENT': 'never reported upstream',
         'K_SWITCHPARENT': 'never reported upstream', 'K_WITH': 'reports what its sub-rules report'}
PT = {'std::vector<CG3::Reading *>', 'std::vector<unsigned int>', 'std::vector<CG3::Cohort *>'}


def short(c):
    return (c or '').split('::')[-1]


class S(RuleSpec):
    def __init__(self, P, k, A=None):
        super().__init__(P, k)
        self.A = None

    def skip(self, t):
        return t.q in STOP

    def param_type(self, t):
        return t in PT

    def mut(self, root, op, node, fn):
        if root.kind != 'field':
            return ()
        key = (short(root.cls), root.field)
        if key == ('GrammarApplicator', 'index_ruleCohort_no'):
            if op in ('clear',):
                return [('+', 'CLEAR')]
            if op == '=':
                return [('+', 'CLEAR')]
            return ()
        a = OBS.get(key)
        if a is None:
            return ()
        if a == 'IMM' and node.k == 'BinaryOperator':
            r = strip(node.c[1])
            if r is not None and r.k == 'CXXBoolLiteralExpr' and str(r.ev if r.ev is not None else r.get('v')) in ('1', 'True', 'true'):
                return ()          # PROTECT: only takes readings out of play, no failed test can start to hold
        if a == 'REL' and op == 'operator[]':
            return ()              # looks up or makes an empty entry
        if a == 'TAGS' and self.kname in RELTYPES:
            return ()              # mirror of the relation itself
        if a == 'DEP' and self.kname in RELTYPES:
            return ()
        return [('+', a)]

    def node(self, n, fn):
        # the other process may rewrite anything
        if is_call(n, 'pipeInSingleWindow'):
            return [('+', 'READINGS')]
        return ()

    def assume(self, leaf, val, fn):
        op, a, b = cmp_parts(leaf)
        if op not in ('==', '!=') or (val == (op == '!=')):
            return ()
        for x, y in ((a, b), (b, a)):
            if x is None or y is None or x.k != 'DeclRefExpr':
                continue
            d = self.A.info(fn).decl.get(x.get('id'))
            if d is None or not d.c or d.c[0] is None:
                continue
            m1, m2 = self.measured(d.c[0], fn), self.measured(y, fn)
            if m1 and m1 == m2:
                if m1[1] == 'hash' and m1[0] == 'Reading':
                    return [('0', 'TAGS'), ('0', 'MAPPED'), ('0', 'READINGS'), ('0', 'LISTS'), ('0', 'DEP'), ('0', 'WF')]
                if m1 == ('Cohort', 'relations'):
                    return [('0', 'REL')]
            # digests: both locals are computed by hash_value over the window's cohorts
            if y.k == 'DeclRefExpr' and self.digest(x, fn) and self.digest(x, fn) == self.digest(y, fn):
                return [('0', 'COHORTS'), ('0', 'DEP')]
        return ()

    def infeasible(self, leaf, val, env, fn):
        # a cohort without readings is not looked at (see C22), so an action that has removed none does not find it empty
        l = strip(leaf)
        if val and l is not None and l.k in CALLS and l.get('fs') == 'empty' and recv(l) is not None:
            r = self.A.root(recv(l), fn)
            if r.kind == 'field' and (short(r.cls), r.field) == ('Cohort', 'readings') and env.get(('a', 'READINGS')) != '+':
                return True
        return False

    def measured(self, n, fn):
        n = strip(n)
        if n is None:
            return None
        if n.k in CALLS and n.get('fs') == 'size' and recv(n) is not None:
            r = self.A.root(recv(n), fn)
        else:
            r = self.A.root(n, fn)
        return (short(r.cls), r.field) if r.kind == 'field' else None

    def digest(self, x, fn):
        """fields a local accumulates through a self-referencing assignment v = f(.., v)"""
        vid = x.get('id')
        res = set()
        for n in fn.walk():
            if n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]).k == 'DeclRefExpr' and strip(n.c[0]).get('id') == vid:
                rhs = strip(n.c[1])
                if rhs.k not in CALLS or not any(d.k == 'DeclRefExpr' and d.get('id') == vid for d in rhs.walk()):
                    return None
                res |= {m.get('m') for m in rhs.walk() if m.k == 'MemberExpr' and m.get('dk') == 'Field'}
        return frozenset(res) or None


def effects(P, k, fns):
    sp = S(P, k)
    A = Analysis(P, sp)
    sp.A = A
    return A, [A.summary(f) for f in fns]


def captured_bool(host, name_pred):
    return None


def muts(st):
    return sorted(a for a in atoms(st) if a != 'CLEAR')


def rc_id(P, host, rc, cc):
    """the bool local of the host that the callbacks set and that decides whether the section is repeated: it is tested together with the
    result of runSingleRule right after the call"""
    rs = P.fn('GrammarApplicator::runSingleRule')
    res = None
    bools = {n.get('id'): n for n in host.walk() if n.k == 'VarDecl' and n.t == 'bool'}
    set_in = {}
    for f in (rc, cc):
        for n in f.walk():
            if n.k in ('BinaryOperator', 'CompoundAssignOperator') and (n.get('op') or '') in ('=', '|='):
                t = strip(n.c[0])
                if t.k == 'DeclRefExpr' and t.get('id') in bools:
                    set_in[t.get('id')] = set_in.get(t.get('id'), 0) + 1
    # a result variable of runSingleRule
    rvs = {d.get('id') for d in host.walk() if d.k == 'VarDecl' and d.c and d.c[0] is not None and any(is_call(x, 'runSingleRule') for x in d.c[0].walk())}
    cand = set()
    for n in host.walk():
        if n.k == 'BinaryOperator' and n.get('op') in ('||', '|', '|='):
            ids = {x.get('id') for x in n.walk() if x.k == 'DeclRefExpr'}
            has_rv = ids & rvs or any(is_call(x, 'runSingleRule') for x in n.walk())
            if has_rv:
                cand |= {i for i in ids if i in set_in}
    if not cand:
        # tested on its own
        for B in host.cfg.b.values():
            c = strip(B.cond)
            if c is not None and c.k == 'DeclRefExpr' and c.get('id') in set_in:
                cand.add(c.get('id'))
        if cand:
            cand = {max(cand, key=lambda i: set_in[i])}
    if len(cand) != 1:
        raise Broken('the flag that reports changes of a rule is not recognised (%d candidates)' % len(cand))
    return cand.pop()


def check(ctx):
    P = ctx.P
    ctx.rule('forget', 'on every path through the action code of a rule type that changes something contextual tests or targets can see, the remembered negative results are cleared', 40)
    ctx.rule('report', 'on every path through the action code of a rule type that changes the window, the change is reported to the section loop', 25)
    ctx.rule('section', 'a reported change makes the section (unless NOITERATE or limited to one run) report that it did something', 1)
    ctx.rule('window', 'each pass over a window starts without remembered negative results', 1)
    ctx.rule('bail', 'where an action gives up after a change, the remembered results are cleared or the window is started over', 1)
    ctx.rule('key', 'negative results are remembered and looked up per rule and cohort, and not for nested rules', 2)
    host, rc, cc, rs = callbacks(P)
    ctx.saw(host, rc, cc, rs)
    kts = rule_types(P)
    if len(kts) < 30:
        raise Broken('only %d rule types found' % len(kts))
    rcid = rc_id(P, host, rc, cc)
    bools = {n.get('id'): n.get('d') for n in host.walk() if n.k == 'VarDecl' and n.t == 'bool'}
    excused = set()
    nmut = 0
    for k in sorted(kts):
        A, (R, C) = effects(P, k, (rc, cc))
        ctx.saw(*A.visited)
        Rclr = bool(R) and all('CLEAR' in atoms(s) for s in R)
        for nm, summ, f in (('reading', R, rc), ('cohort', C, cc)):
            badp, badr, m = None, None, set()
            for s in summ:
                mm = muts(s)
                if not mm:
                    continue
                m |= set(mm)
                env = dict(s)
                trues = {bools.get(x[1]): x[1] for x, v in s if x[0] == 'v' and v is True and x[1] in bools}
                give = {i for nme, i in trues.items() if i != rcid and stops(P, host, i)}
                if 'CLEAR' not in atoms(s) and not (nm == 'cohort' and Rclr) and not give:
                    badp = s
                if env.get(('v', rcid)) is not True and not give and k not in QUIET:
                    if not (set(mm) <= {'VARS'}):
                        badr = s
                excused |= {i for i in give if 'CLEAR' not in atoms(s) or env.get(('v', rcid)) is not True}
            if m:
                nmut += 1
            what = 'a %s rule changing %s' % (k[2:], ', '.join(sorted(m)) or 'nothing') + ' (%s action)' % nm
            ctx.check(badp is None, 'forget', '%s/%s' % (k, nm), '%s:%d' % (f.file, f.line), what,
                      'a %s rule can change %s in its %s action without clearing the remembered negative results: rules whose tests failed before are not retried' % (k[2:], ', '.join(muts(badp or frozenset())), nm))
            if k not in QUIET and m:
                ctx.check(badr is None, 'report', '%s/%s' % (k, nm), '%s:%d' % (f.file, f.line), what + ' reports it',
                          'a %s rule can change %s in its %s action without reporting it: the section is not repeated' % (k[2:], ', '.join(muts(badr or frozenset())), nm))
    ctx.selftest(nmut >= 25, 'only %d rule actions with effects recognised' % nmut)
    for k in ('K_ADD', 'K_REMCOHORT', 'K_DELIMIT', 'K_SETPARENT', 'K_MOVE_AFTER', 'K_SUBSTITUTE', 'K_ADDRELATION'):
        ctx.selftest(k in kts, k + ' is a rule type')

    # ---- section loop
    class H(Spec):
        def fold(self, n, fn):
            n = strip(n)
            names = {x.get('d') for x in n.walk() if x.k == 'DeclRefExpr' and x.get('dk') == 'EnumConstant'}
            if n.k == 'BinaryOperator' and n.get('op') == '&' and 'RF_NOITERATE' in names:
                return False
            op, a, b = cmp_parts(n)
            if op in ('!=', '==') and any(x.k == 'MemberExpr' and x.get('m') == 'section_max_count' for x in n.walk()):
                return op == '!='
            if op in ('>', '<', '>=', '<=') and any(x.k == 'MemberExpr' and x.get('m') == 'section_max_count' for x in n.walk()):
                return None
            return None

        def node(self, n, fn):
            if n.k in ('CompoundAssignOperator', 'BinaryOperator') and n.get('op') in ('|=', '='):
                if any(x.k == 'DeclRefExpr' and x.get('d') == 'RV_SOMETHING' for x in n.c[1].walk()):
                    return [('+', 'SOMETHING')]
            if n.k == 'ReturnStmt' and any(x.k == 'DeclRefExpr' and x.get('d') == 'RV_SOMETHING' for x in n.walk()):
                return [('+', 'SOMETHING')]
            return ()

        def skip(self, t):
            return True
    A = Analysis(P, H())
    call = [n for n in host.walk() if is_call(n, 'runSingleRule') and n.get('fid') == rs.id]
    for cl in call:
        ins = A.run_from(host, cl, frozenset([(('v', rcid), True)]))
        ex = ins.get(host.cfg.exit, set())
        if not ex:
            raise Broken('no path from the rule call to the end of %s' % host.q)
        bad = [s for s in ex if 'SOMETHING' not in atoms(s)]
        ctx.check(not bad, 'section', 'something', cl.where(), 'all %d kinds of path from a reported change to the end of the section say so' % len(ex),
                  'a change reported by a rule does not make %s return RV_SOMETHING on every path: the section is not repeated' % host.q)

    # ---- giving up
    for i in sorted(excused):
        ctx.ok('bail', '%s:%d' % (host.file, host.line), 'with %s set no rule runs on before the results are cleared or the pass ends' % bools[i])
    if not excused:
        raise Broken('no action that gives up found')

    # ---- window start
    gw = [f for f in P.fns('GrammarApplicator::runGrammarOnWindow')]
    one = P.fn('GrammarApplicator::runGrammarOnSingleWindow')
    n = 0
    for f in P.funcs.values():
        if f.body is None:
            continue
        cs = [x for x in f.walk() if is_call(x, 'runGrammarOnSingleWindow') and x.get('fid') == one.id]
        if not cs:
            continue
        ctx.saw(f)

        class W(Spec):
            def mut(self, root, op, node, fn):
                if root.kind == 'field' and root.field == 'index_ruleCohort_no' and op in ('clear', '='):
                    return [('+', 'CLEAR')]
                return ()

            def node(self, x, fn):
                if is_call(x, 'runGrammarOnSingleWindow'):
                    return [('-', 'CLEAR')]
                return ()

            def skip(self, t):
                return t.q in STOP or t.q == one.q or t.q.startswith('GrammarApplicator::printSingleWindow')
        A = Analysis(P, W())
        ins = A.run(f)
        for c in cs:
            for B in f.cfg.b.values():
                if c in B.els:
                    sts = list(ins.get(B.id, ()))
                    for e in B.els:
                        if e is c:
                            break
                        sts = [t for s in sts for t in A.step(s, e, f)]
                    n += 1
                    ctx.check(sts and all('CLEAR' in atoms(s) for s in sts), 'window', 'start', c.where(), 'cleared before each pass over the window',
                              'a pass over a window can start with results remembered from the pass before')
    if not n:
        raise Broken('no pass over a window found')

    # ---- key
    tr = cdep.transitive(rs.cfg)
    uses = []
    for x in rs.walk():
        if x.k in CALLS and x.get('fs') in ('insert', 'contains', 'find', 'count', 'emplace') and recv(x) is not None:
            r = A.root(recv(x), rs)
            if r.kind == 'field' and r.field == 'index_ruleCohort_no':
                uses.append(x)
    ins_ = [x for x in uses if x.get('fs') in ('insert', 'emplace')]
    look = [x for x in uses if x.get('fs') not in ('insert', 'emplace')]
    for f in P.funcs.values():
        if f.id == rs.id or f.body is None:
            continue
        for x in f.walk():
            if x.k in CALLS and x.get('fs') in ('insert', 'emplace') and recv(x) is not None and any(m.k == 'MemberExpr' and m.get('m') == 'index_ruleCohort_no' for m in recv(x).walk()):
                (ins_).append(x)
                uses.append(x)
    if not ins_ or not look:
        raise Broken('no use of the remembered negative results found')
    for x in uses:
        f = x.fn
        flds = deps(A, f, args(x)[0])
        what = 'remembered' if x in ins_ else 'looked up'
        ctx.check(('Rule', 'number') in flds and ('Cohort', 'global_number') in flds, 'key', what, x.where(), '%s by rule and cohort number' % what,
                  'the negative result is %s by %s instead of rule and cohort' % (what, sorted('%s::%s' % y for y in flds)))
        if x in ins_ or x in look:
            b = [B.id for B in f.cfg.b.values() if x in B.els]
            g = False
            for (bb, i) in (cdep.transitive(f.cfg)[b[0]] if b else ()):
                for leaf, lv in A.facts(strip(f.cfg.b[bb].cond), i == 0, f):
                    l = strip(leaf)
                    if l.k == 'MemberExpr' and l.get('m') == 'in_nested' and lv is False:
                        g = True
            ctx.check(g, 'key', 'nested/' + what, x.where(), '%s only for rules that are not nested' % what,
                      'the negative result of a nested rule is %s: it depends on the context of the outer rule as well' % what)


def deps(A, f, n, depth=0):
    res = set()
    for m in n.walk():
        if m.k == 'MemberExpr' and m.get('dk') == 'Field':
            res.add((short(m.get('mc')), m.get('m')))
        if m.k == 'DeclRefExpr' and depth < 4:
            d = A.info(f).decl.get(m.get('id'))
            if d is not None and d.c and d.c[0] is not None:
                res |= deps(A, f, d.c[0], depth + 1)
    return res


_stops = {}


def stops(P, host, vid):
    """from where `vid` is found true, no further rule runs in this call before the remembered results are cleared"""
    if (host.id, vid) in _stops:
        return _stops[(host.id, vid)]

    class W(Spec):
        def mut(self, root, op, node, fn):
            if root.kind == 'field' and root.field == 'index_ruleCohort_no' and op in ('clear', '='):
                return [('+', 'CLEAR')]
            return ()

        def skip(self, t):
            return True
    A = Analysis(P, W())
    call = [n for n in host.walk() if is_call(n, 'runSingleRule')]
    res = bool(call)
    pre = A.run(host)
    for cl in call:
        init = set()
        for B in host.cfg.b.values():
            if cl in B.els:
                sts = list(pre.get(B.id, ()))
                for e in B.els:
                    if e is cl:
                        break
                    sts = [t for s in sts for t in A.step(s, e, host)]
                for s in sts:
                    init.add(frozenset({**{k: v for k, v in s if k[0] == 'v'}, ('v', vid): True}.items()))
        ins = {}
        for st in init:
            for b, ss in A.run_from(host, cl, st).items():
                ins.setdefault(b, set()).update(ss)
        for B in host.cfg.b.values():
            if any(e in call for e in B.els):
                if any('CLEAR' not in atoms(s) and dict(s).get(('v', vid)) is True for s in ins.get(B.id, ())):
                    res = False
    _stops[(host.id, vid)] = res
    return res
