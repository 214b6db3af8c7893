"""C22: a rule is applied only where it may be."""
from ..ir import CALLS, args, recv, strip, is_call, boolval
from ..extract import Broken
from ..paths import cmp_parts
from ..engine import callbacks, rule_types, is_rule_type
from ..model import Model, Bits, ModelSpec, reached, short
from .. import cdep

RCB, CCB, TEST, MT, RUN = 'reading action', 'cohort action', 'target test', 'reading marked as matching', 'run of the rule'


class Sites:
    def __init__(self, P, rs, host):
        self.P, self.rs, self.host = P, rs, host
        self.cb = {rs.params[2]['id']: RCB, rs.params[3]['id']: CCB}
        self.ct = rs.params[2]['t'].replace('const ', '').strip(' &')

    def __call__(self, n, fn):
        if n.k == 'CXXOperatorCallExpr' and n.get('fs') == 'operator()':
            r = strip(n.c[1]) if len(n.c) > 1 else None
            if r is not None and r.k == 'DeclRefExpr':
                if r.get('id') in self.cb:
                    yield self.cb[r.get('id')]
                elif r.t.replace('const ', '').strip(' &') == self.ct:
                    yield RCB
                    yield CCB
        elif n.k in CALLS and n.get('fs') == 'doesSetMatchReading':
            if any(x.k == 'MemberExpr' and x.get('m') == 'target' and short(x.get('mc')) == 'Rule' for a in args(n) if a is not None for x in a.walk()):
                yield TEST
        elif n.k == 'BinaryOperator' and n.get('op') == '=' and short(fn.cls) != 'Reading':
            l = strip(n.c[0])
            if l is not None and l.k == 'MemberExpr' and l.get('m') == 'matched_target' and short(l.get('mc')) == 'Reading' and boolval(n.c[1]) is not False:
                yield MT
        elif n.k in CALLS and n.get('fid') == self.rs.id:
            yield RUN


def check(ctx):
    P = ctx.P
    host, rc, cc, rs = callbacks(P)
    sites = Sites(P, rs, host)
    ctx.saw(rs, host)
    ctx.rule('cohort', 'a cohort that a rule may not touch is passed over before any action of the rule', 12)
    ctx.rule('single', 'the last reading of a cohort is not selected, and removed only by an unsafe rule', 8)
    ctx.rule('reading', 'a reading that a rule may not touch is neither tested nor marked as matching', 8)
    ctx.rule('match', 'the reading action runs only for readings whose target, and for all rules but IFF whose contexts, matched', 3)
    ctx.rule('rule', 'a rule that is switched off is not run', 8)
    ctx.rule('open', 'where nothing forbids it the rule is applied', 20)
    ctx.rule('fresh', 'whether a reading matched is settled anew for every reading on every path', 2)
    ctx.rule('carry', 'what was found for one cohort does not carry over to the next', 1)

    ct = P.enum('CT_REMOVED', 'CT_IGNORED', 'CT_ENCLOSED', 'CT_RELATED')
    rf = P.enum('RF_UNSAFE', 'RF_SAFE', 'RF_NEAREST')
    kinds = rule_types(P)
    if len(kinds) < 30 or len(ct) < 6:
        raise Broken('rule types or cohort types not found')
    ALL = (1 << 64) - 1

    def fl(on='', off=''):
        k = v = 0
        for x in on.split():
            k |= rf['RF_' + x]
            v |= rf['RF_' + x]
        for x in off.split():
            k |= rf['RF_' + x]
        return Bits(k, v)
    reach = {}
    stop = {'GrammarApplicator::runContextualTest', 'GrammarApplicator::doesSetMatchReading', 'GrammarApplicator::profileRuleContext', 'GrammarApplicator::runRulesOnSingleWindow',
            'GrammarApplicator::runSingleRule', 'GrammarApplicator::get_sub_reading'}
    lam = {f.id for f in P.funcs.values() if f.is_lambda and f.d.get('parent') == host.id}

    def skipf(t):
        return t.q in stop or t.id in (rc.id, cc.id) or t.is_lambda and t.file == host.file and host.line <= t.line <= host.end

    memo = {}

    def run(model, fn=None):
        fn = fn or rs
        got, A = reached(P, model, fn, sites, skipf, reach=reach.setdefault(fn.id, {}))
        ctx.saw(*A.visited)
        return got

    def forbid(rule, key, model, atoms, text, fn=None):
        got = run(model, fn)
        bad = [a for a in atoms if a in got]
        ctx.check(not bad, rule, key, '%s:%d' % ((fn or rs).file, (fn or rs).line), '%s: no %s' % (text, ', no '.join(atoms)),
                  '%s, and still there is a path to %s' % (text, ' and to '.join('the ' + b for b in bad)))

    def allow(key, model, atoms, text, fn=None):
        got = run(model, fn)
        miss = [a for a in atoms if a not in got]
        ctx.check(not miss, 'open', key, '%s:%d' % ((fn or rs).file, (fn or rs).line), '%s: %s can be reached' % (text, ', '.join(atoms)),
                  '%s, but the %s cannot be reached' % (text, ' and the '.join(miss)))

    base = run(Model())
    for a in (RCB, CCB, TEST, MT):
        if a not in base:
            raise Broken('no %s in runSingleRule' % a)
    ACT = [RCB, CCB]
    C = lambda **k: {('Cohort', x): v for x, v in k.items()}
    R = lambda **k: {('Reading', x): v for x, v in k.items()}
    T = ('Cohort', 'type')
    # --- cohorts
    for n, v in sorted(ct.items()):
        if n in ('CT_REMOVED', 'CT_IGNORED', 'CT_ENCLOSED'):
            forbid('cohort', n, Model({T: Bits(v, v)}), ACT + [TEST], 'every cohort has ' + n)
        elif n.startswith('CT_') and bin(v).count('1') == 1:
            allow(n, Model({T: v}), ACT + [TEST], 'every cohort is just ' + n)
    forbid('cohort', 'first', Model(C(local_number=0)), ACT, 'every cohort is the one at the start of a window')
    allow('second', Model(C(local_number=1)), ACT, 'the cohort is the first real one')
    forbid('cohort', 'parent', Model(C(parent=('ptr', 'other'))), ACT, 'every cohort belongs to another window')
    allow('parent', Model(C(parent=('ptr', 'SingleWindow'))), ACT, 'the cohort is in the window')
    forbid('cohort', 'noreadings', Model(sizes={('Cohort', 'readings'): 0}), ACT, 'no cohort has readings')
    F = ('Rule', 'flags')
    pos = [('inner', 'ENCL_INNER', '', lambda l, n, r: l and l <= n <= r), ('outer', 'ENCL_OUTER', 'ENCL_INNER', lambda l, n, r: not (l and l <= n <= r))]
    for nm, on, off, want in pos:
        for l, n, r in ((5, 3, 8), (5, 4, 8), (5, 5, 8), (5, 6, 8), (5, 8, 8), (5, 9, 8), (0, 3, 0), (5, 12, 8)):
            m = Model({F: fl(on, off), ('Cohort', 'local_number'): n, ('GrammarApplicator', 'par_left_pos'): l, ('GrammarApplicator', 'par_right_pos'): r})
            text = '%s rule, enclosure at %d..%d, cohort at %d' % (on, l, r, n)
            k = '%s/%d-%d@%d' % (nm, l, r, n)
            if want(l, n, r):
                allow(k, m, ACT, text)
            else:
                forbid('cohort', k, m, ACT, text)
    np = global_const(P, 'DEP_NO_PARENT')
    DP = ('Cohort', 'dep_parent')
    for k in sorted(kinds):
        if k == 'K_IGNORE':
            continue
        # rules on dependencies
        if k == 'K_SETPARENT':
            forbid('cohort', k + '/SAFE', Model({DP: 3, F: fl('SAFE')}, ktype=k), ACT, 'SETPARENT SAFE on a cohort that has a parent')
            allow(k + '/UNSAFE', Model({DP: 3, F: fl('UNSAFE', 'SAFE NOPARENT')}, ktype=k), ACT, 'SETPARENT UNSAFE on a cohort that has a parent')
            allow(k + '/SAFE', Model({DP: np, F: fl('SAFE')}, ktype=k), ACT, 'SETPARENT SAFE on a cohort without parent')
        if k in ('K_REMPARENT', 'K_SWITCHPARENT'):
            forbid('cohort', k, Model({DP: np}, ktype=k), ACT, '%s on a cohort without parent' % k[2:])
            allow(k, Model({DP: 3, F: fl('', 'NOPARENT')}, ktype=k), ACT, '%s on a cohort with a parent' % k[2:])
    forbid('cohort', 'NOPARENT', Model({DP: 3, F: fl('NOPARENT')}), ACT, 'a rule flagged NOPARENT on a cohort that has a parent')
    allow('NOPARENT', Model({DP: np, F: fl('NOPARENT')}), ACT, 'a rule flagged NOPARENT on a cohort without parent')
    SZ = {('SingleWindow', 'cohorts'): 6}
    forbid('cohort', 'DELIMIT/last', Model(C(local_number=5), SZ, ktype='K_DELIMIT'), ACT, 'DELIMIT on the last cohort of the window')
    allow('DELIMIT', Model(C(local_number=4), SZ, ktype='K_DELIMIT'), ACT, 'DELIMIT before the last cohort of the window')
    # --- the last reading
    one = {('Cohort', 'readings'): 1}
    two = {('Cohort', 'readings'): 2}
    U = ('GrammarApplicator', 'unsafe')
    forbid('single', 'SELECT', Model(sizes=one, ktype='K_SELECT'), ACT, 'SELECT on a cohort with one reading')
    allow('SELECT', Model(sizes=two, ktype='K_SELECT'), ACT, 'SELECT on a cohort with two readings')
    for k in ('K_REMOVE', 'K_IFF'):
        for un, on, off in ((0, '', 'UNSAFE'), (1, 'SAFE', 'UNSAFE'), (0, 'SAFE', 'UNSAFE')):
            forbid('single', '%s/%d%s' % (k, un, on), Model({U: un, F: fl(on, off), ('Reading', 'noprint'): 0}, one, ktype=k), ACT,
                   '%s %son the only reading of a cohort%s' % (k[2:], on and 'SAFE ', ' (engine in unsafe mode)' if un else ''))
        for un, on, off in ((0, 'UNSAFE', ''), (1, '', 'UNSAFE SAFE')):
            allow('%s/%d%s' % (k, un, on), Model({U: un, F: fl(on, off), ('Reading', 'noprint'): 0}, one, ktype=k), ACT, 'unsafe %s on the only reading of a cohort' % k[2:])
            forbid('single', '%s/%d%s/noprint' % (k, un, on), Model({U: un, F: fl(on, off), ('Reading', 'noprint'): 1}, one, ktype=k), ACT,
                   '%s on the placeholder reading of a cohort without readings' % k[2:])
    forbid('single', 'K_UNMAP', Model({F: fl('SAFE')}, two, ktype='K_UNMAP'), ACT, 'UNMAP SAFE on a cohort with several readings')
    allow('K_UNMAP/1', Model({F: fl('SAFE')}, one, ktype='K_UNMAP'), ACT, 'UNMAP SAFE on a cohort with one reading')
    allow('K_UNMAP/2', Model({F: fl('', 'SAFE')}, two, ktype='K_UNMAP'), ACT, 'UNMAP without SAFE on a cohort with several readings')
    # --- readings
    RT = [TEST, MT]
    for k in ('K_MAP', 'K_ADD', 'K_REPLACE'):
        forbid('reading', k + '/mapped', Model(R(mapped=1), ktype=k), RT, '%s on mapped readings' % k[2:])
    forbid('reading', 'NOMAPPED', Model({('Reading', 'mapped'): 1, F: fl('NOMAPPED')}), RT, 'a rule flagged NOMAPPED on mapped readings')
    allow('mapped', Model({('Reading', 'mapped'): 1, F: fl('', 'NOMAPPED')}, ktype='K_SELECT'), RT + ACT, 'SELECT on mapped readings')
    allow('unmapped', Model({('Reading', 'mapped'): 0, F: fl('NOMAPPED')}, ktype='K_MAP'), RT + ACT, 'MAP NOMAPPED on unmapped readings')
    mg = ('GrammarApplicator', 'allow_magic_readings')
    forbid('reading', 'magic', Model({('Reading', 'noprint'): 1, mg: 0}), RT, 'placeholder readings while these may not be touched')
    allow('magic', Model({('Reading', 'noprint'): 1, mg: 1}), RT + ACT, 'placeholder readings where these may be touched')
    for k in sorted(kinds):
        if k == 'K_IGNORE':
            continue
        m = Model(R(immutable=1), ktype=k)
        if k == 'K_UNPROTECT':
            allow(k + '/protected', m, RT + ACT, 'UNPROTECT on protected readings')
        else:
            forbid('reading', k + '/protected', m, [TEST] if k in ('K_SELECT', 'K_IFF') else RT, '%s on protected readings' % k[2:])
    # --- matching
    forbid('match', 'target', Model(R(matched_target=0)), [RCB], 'no reading matched the target')
    for k in sorted(kinds):
        if k in ('K_IFF', 'K_IGNORE'):
            continue
        forbid('match', 'tests:' + k, Model(R(matched_target=1, matched_tests=0), ktype=k), [RCB], '%s, and no reading matched the contexts' % k[2:])
    allow('iff', Model(R(matched_target=1, matched_tests=0), ktype='K_IFF'), [RCB], 'IFF whose contexts do not match')
    allow('matched', Model(R(matched_target=1, matched_tests=1)), ACT, 'readings matched')
    for k in sorted(kinds):
        if k != 'K_IGNORE':
            allow(k, Model(ktype=k), ACT, 'a %s rule' % k[2:])
    # --- rules
    hs = sites

    def hforbid(key, model, text):
        forbid('rule', key, model, [RUN], text, host)

    def hallow(key, model, text):
        allow('rule:' + key, model, [RUN], text, host)
    hforbid('ignore', Model(ktype='K_IGNORE'), 'an ignored rule')
    for k in ('K_MAP', 'K_ADD', 'K_REPLACE'):
        hforbid('nomappings/' + k, Model({('GrammarApplicator', 'apply_mappings'): 0}, ktype=k), '%s with mappings switched off' % k[2:])
        hallow('nocorrections/' + k, Model({('GrammarApplicator', 'apply_corrections'): 0}, ktype=k), '%s with corrections switched off' % k[2:])
    for k in ('K_SUBSTITUTE', 'K_APPEND'):
        hforbid('nocorrections/' + k, Model({('GrammarApplicator', 'apply_corrections'): 0}, ktype=k), '%s with corrections switched off' % k[2:])
        hallow('nomappings/' + k, Model({('GrammarApplicator', 'apply_mappings'): 0}, ktype=k), '%s with mappings switched off' % k[2:])
    VR = ('GrammarApplicator', 'valid_rules')
    hforbid('notlisted', Model(sizes={VR: 2}, has={VR: 0}), 'a rule that is not among those asked for')
    hallow('listed', Model(sizes={VR: 2}, has={VR: 1}), 'a rule that is among those asked for')
    hallow('nolist', Model(sizes={VR: 0}, has={VR: 0}), 'no selection of rules')
    he, df = ('SingleWindow', 'has_enclosures'), ('GrammarApplicator', 'did_final_enclosure')
    for h in (0, 1):
        for d in (0, 1):
            for fi in (0, 1):
                m = Model({he: h, df: d, F: fl('ENCL_FINAL') if fi else fl('', 'ENCL_FINAL')})
                t = 'a rule %s ENCL_FINAL, window %s enclosures, %s pass' % ('with' if fi else 'without', 'with' if h else 'without', 'final' if d else 'earlier')
                if h and d != fi:
                    hforbid('final/%d%d%d' % (h, d, fi), m, t)
                else:
                    hallow('final/%d%d%d' % (h, d, fi), m, t)
    # --- loop-carried state
    carried(ctx, P, rs, sites)
    fresh(ctx, P, rs, sites, stop)


def global_const(P, name):
    for x in P.globals.values():
        if x['q'].split('::')[-1] == name and 'init' in x:
            v = x['nodes'][x['init']].get('ev')
            if v is not None:
                return int(v)
    for f in P.funcs.values():
        for n in f.walk():
            if n.k == 'DeclRefExpr' and n.get('d') == name and n.ev is not None:
                return int(n.ev)
    raise Broken(name + ' vanished')


def carried(ctx, P, rs, sites):
    """scalars that live across cohorts, change within an iteration and are read in the next one before they are set"""
    loops = []
    for n in rs.walk():
        if n.k in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt') and any(a in (CCB,) for x in n.walk() for a in sites(x, rs)):
            loops.append(n)
    if not loops:
        raise Broken('no loop around the cohort action')
    lp = loops[-1]
    inside = {id(x) for x in lp.walk()}
    outer = {}
    for n in rs.walk():
        if n.k == 'VarDecl' and id(n) not in inside and not n.t.strip().endswith('&'):
            outer[n.get('id')] = n

    def lhs(n):
        p = n.p
        return p is not None and p.k == 'BinaryOperator' and p.get('op') == '=' and strip(p.c[0]) is n
    changed = {}
    for x in lp.walk():
        t = None
        if x.k in ('BinaryOperator', 'CompoundAssignOperator') and (x.get('op') or '').endswith('=') and x.get('op') not in ('==', '!=', '<=', '>='):
            t = strip(x.c[0])
        elif x.k == 'UnaryOperator' and x.get('op') in ('++', '--'):
            t = strip(x.c[0])
        if t is not None and t.k == 'DeclRefExpr' and t.get('id') in outer:
            changed.setdefault(t.get('id'), x)
    head = [B for B in rs.cfg.b.values() if B.term is lp]
    if len(head) != 1:
        raise Broken('loop over cohorts not found in the control flow')
    head = head[0]
    own = {x.get('id') for c in lp.c[:1] if c is not None for x in c.walk() if x.k == 'VarDecl'}
    n = 0
    for vid, at in sorted(changed.items(), key=lambda z: z[1].l):
        name = outer[vid].get('d')
        if vid in own:
            continue
        n += 1
        hit = None
        seen, work = set(), [s for s in head.succ[:1] if s >= 0]
        while work and hit is None:
            b = work.pop()
            if b in seen or b == head.id:
                continue
            seen.add(b)
            kill = False
            for e in rs.cfg.b[b].els:
                if isinstance(e, tuple):
                    continue
                if e.k == 'DeclRefExpr' and e.get('id') == vid and not lhs(e):
                    hit = e
                    break
                if e.k == 'BinaryOperator' and e.get('op') == '=' and strip(e.c[0]) is not None and strip(e.c[0]).get('id') == vid and strip(e.c[0]).k == 'DeclRefExpr':
                    kill = True
                    break
            if not kill and hit is None:
                work += [s for s in rs.cfg.b[b].succ if s >= 0]
        only = all(boolval(x) is True for x in assigned(lp, vid))
        ctx.check(hit is None or only, 'carry', name, (hit or at).where(), '%s: set before it is read for each cohort, or only ever set to true' % name,
                  '%s is changed while one cohort is handled (line %d) and read for the next one before it is set again' % (name, at.l))
    ctx.ok('carry', lp.where(), '%d variables outlive the handling of one cohort' % n)


def assigned(lp, vid):
    for x in lp.walk():
        if x.k in ('BinaryOperator', 'CompoundAssignOperator') and (x.get('op') or '').endswith('=') and x.get('op') not in ('==', '!=', '<=', '>='):
            t = strip(x.c[0])
            if t is not None and t.k == 'DeclRefExpr' and t.get('id') == vid:
                yield x.c[1] if x.get('op') in ('=', '|=') else x
        elif x.k == 'UnaryOperator' and x.get('op') in ('++', '--') and strip(x.c[0]).get('id') == vid:
            yield x



def fresh(ctx, P, rs, sites, stop):
    loops = [n for n in rs.walk() if n.k in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt') and any(a == TEST for x in n.walk() for a in sites(x, rs))]
    if not loops:
        raise Broken('no loop over the readings to test')
    lp = loops[-1]
    heads = [B for B in rs.cfg.b.values() if B.term is lp]
    if len(heads) != 1:
        raise Broken('loop over readings not found in the control flow')
    head = heads[0]
    for flag in ('matched_target', 'matched_tests'):
        def sets(n, f, depth=0):
            if n.k == 'BinaryOperator' and n.get('op') == '=':
                l = strip(n.c[0])
                return l is not None and l.k == 'MemberExpr' and l.get('m') == flag and short(l.get('mc')) == 'Reading'
            if n.k in CALLS and depth < 2:
                for t in P.targets(n):
                    if t.body is not None and t.q not in stop and any(sets(x, t, depth + 1) for x in t.walk()):
                        return True
            return False
        done = {b for b, B in rs.cfg.b.items() if any(not isinstance(e, tuple) and sets(e, rs) for e in B.els)}
        seen, work, bad = set(), [s for s in head.succ[:1] if s >= 0], False
        while work:
            b = work.pop()
            if b in seen or b in done:
                continue
            seen.add(b)
            if b == head.id:
                bad = True
                break
            work += [s for s in rs.cfg.b[b].succ if s >= 0]
        ctx.check(not bad and bool(done), 'fresh', flag, lp.where(), '%s is set for every reading, whatever it was for an earlier rule' % flag,
                  'a reading can pass the loop with the %s it had from an earlier rule' % flag)
    # flags of the loop itself: not read before they are set for the reading at hand
    inside = {id(x) for x in lp.walk()}
    cl = [n for n in rs.walk() if n.k in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt') and n is not lp and any(x is lp for x in n.walk())]
    outer = {n.get('id'): n for n in (cl[-1] if cl else rs.body).walk() if n.k == 'VarDecl' and id(n) not in inside and n.t.replace('const ', '').strip() == 'bool'}
    local = {n.get('id') for n in lp.walk() if n.k == 'VarDecl' and n.t.replace('const ', '').strip() == 'bool'}
    changed = {v for v in outer if any(True for _ in assigned(lp, v)) and not all(boolval(x) is True for x in assigned(lp, v))}
    for v in sorted(changed, key=lambda v: outer[v].l):
        hit = stale_flag(rs, head, v, changed | local)
        ctx.check(hit is None, 'fresh', 'flag:' + str(outer[v].get('d')), (hit or outer[v]).where(), '%s is set for each reading before it is looked at' % outer[v].get('d'),
                  '%s is looked at with the value it was given for an earlier reading' % outer[v].get('d'))


def stale_flag(fn, head, var, flags):
    """a read of `var` that a pass through the loop can reach before it sets it; flags whose value is known decide branches"""
    def is_lhs(n):
        p = n.p
        return p is not None and p.k == 'BinaryOperator' and p.get('op') == '=' and strip(p.c[0]) is n

    def flagval(n, st):
        n = strip(n)
        if n is None:
            return None
        if n.k == 'UnaryOperator' and n.get('op') == '!':
            v = flagval(n.c[0], st)
            return None if v is None else not v
        if n.k == 'DeclRefExpr' and n.get('id') in flags:
            return dict(st).get(n.get('id'))
        return boolval(n)
    seen, work = set(), [(s, frozenset()) for s in head.succ[:1] if s >= 0]
    while work:
        b, st = work.pop()
        if (b, st) in seen or b == head.id or len(seen) > 20000:
            continue
        seen.add((b, st))
        B = fn.cfg.b[b]
        for e in B.els:
            if isinstance(e, tuple):
                continue
            if e.k == 'DeclRefExpr' and e.get('id') == var and not is_lhs(e) and var not in dict(st):
                return e
            if e.k == 'BinaryOperator' and e.get('op') == '=':
                l = strip(e.c[0])
                if l is not None and l.k == 'DeclRefExpr' and l.get('id') in flags:
                    st = frozenset({(k, v) for k, v in st if k != l.get('id')} | {(l.get('id'), flagval(e.c[1], st))})
            elif e.k == 'DeclStmt':
                for d in e.c:
                    if d is not None and d.k == 'VarDecl' and d.get('id') in flags and d.c:
                        st = frozenset({(k, v) for k, v in st if k != d.get('id')} | {(d.get('id'), flagval(d.c[0], st))})
        go = [s for s in B.succ if s >= 0]
        if len(B.succ) == 2 and B.cond is not None and B.term is not None and B.term.k != 'SwitchStmt':
            v = flagval(B.cond, st)
            if v is not None:
                go = [B.succ[0 if v else 1]]
        work += [(s, st) for s in go if s >= 0]
    return None
