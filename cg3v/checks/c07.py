"""C07: what a rule changed is in the trace, and the trace is printed."""
import re
from ..ir import CALLS, args, recv, strip, is_call
from ..extract import Broken
from ..paths import Analysis, Spec, atoms, cmp_parts
from ..engine import callbacks, rule_types
from .c08 import S, short, muts, OBS, stops, rc_id

# rule types that leave what they were applied to as it was: only what they make is recorded
NEWONLY = {'K_COPYCOHORT'}
EXEMPT = {'K_WITH': 'its sub-rules trace themselves'}


class T(S):
    """S plus HIT (own rule number appended to hit_by) and changes of the lists of readings handed from the reading to the cohort action"""

    def __init__(self, P, k, host_lists):
        super().__init__(P, k)
        self.lists = host_lists

    def once(self, B, fn):
        return True

    def mut(self, root, op, node, fn):
        if root.kind == 'field' and (short(root.cls), root.field) == ('Reading', 'hit_by'):
            if op in ('push_back', 'emplace_back') and self.own(node, fn):
                return [('+', 'HIT')] if self.kname in NEWONLY or not self.fresh(root.base, fn) else ()
            if op in ('clear', 'pop_back', 'erase', 'resize', 'assign', 'swap', '='):
                return [('-', 'HIT')]
            return ()
        if root.kind == 'outer' and root.id in self.lists and op in ('push_back', 'emplace_back', 'insert'):
            return [('+', 'LIST:' + self.lists[root.id])]
        if root.kind == 'field' and (short(root.cls), root.field) == ('Reading', 'immutable'):
            return [('+', 'IMM')]
        return [(s, a) for s, a in super().mut(root, op, node, fn) if a != 'CLEAR']

    def assume(self, leaf, val, fn):
        l = strip(leaf)
        if not val and l is not None and l.k in CALLS and l.get('fs') == 'empty' and recv(l) is not None:
            r = self.A.root(recv(l), fn)
            if r.kind == 'outer' and r.id in self.lists:
                return [('+', 'NE:' + self.lists[r.id])]
        return super().assume(leaf, val, fn)

    def fresh(self, base, fn):
        b = strip(base)
        if b is not None and b.k == 'DeclRefExpr':
            d = self.A.info(fn).decl.get(b.get('id'))
            return d is not None and bool(d.c) and d.c[0] is not None and any(x.k in CALLS and (x.get('fs') or '').startswith('alloc') for x in d.c[0].walk())
        return False

    def own(self, node, fn):
        a = args(node)
        if not a:
            return False
        n = strip(a[0])
        if n.k == 'DeclRefExpr':
            d = self.A.info(fn).decl.get(n.get('id'))
            if d is not None and d.c and d.c[0] is not None:
                n = strip(d.c[0])
            elif n.get('dk') == 'ParmVar':
                return True          # rule number handed in
        return n.k == 'MemberExpr' and n.get('m') == 'number' and short(n.get('mc')) == 'Rule'

    def infeasible(self, leaf, val, env, fn):
        # null readings (no such sub-reading) have nothing to record
        l = strip(leaf)
        if not val and l is not None and l.k == 'DeclRefExpr' and l.t.replace('const ', '').strip().endswith('Reading *'):
            return True
        return super().infeasible(leaf, val, env, fn)


def untraced(c):
    """a condition that only holds when not tracing"""
    c = strip(c)
    if c.k == 'UnaryOperator' and c.get('op') == '!':
        m = strip(c.c[0])
        return m.k == 'MemberExpr' and m.get('m') == 'trace'
    if c.k == 'BinaryOperator' and c.get('op') == '&&':
        return untraced(c.c[0]) or untraced(c.c[1])
    return False


def from_init(f, n, depth=0):
    if n is not None and depth < 4 and n.k == 'DeclRefExpr' and not n.get('g'):
        d = [x for x in f.walk() if x.k == 'VarDecl' and x.get('id') == n.get('id')]
        if len(d) == 1 and d[0].c and d[0].c[0] is not None:
            return from_init(f, strip(d[0].c[0]), depth + 1)
    return n


def check(ctx):
    P = ctx.P
    ctx.rule('record', 'an action of a rule that changes readings, tags or cohorts appends the number of the rule to hit_by of a reading on that path (or the rule does so on every path of its reading action)', 40)
    ctx.rule('handover', 'a reading that the reading action hands to the cohort action is recorded by the one or the other', 3)
    ctx.rule('new', 'a reading made by an action gets the number of the rule appended to its hit_by', 4)
    ctx.rule('print', 'with tracing on, whatever prints a reading in a format with traces prints every entry of hit_by', 3)
    ctx.rule('removed', 'where removed readings are printed for tracing, delayed ones are as well', 1)
    ctx.rule('keep', 'hit_by is only reset where the reading itself is reset or copied', 1)
    host, rc, cc, rs = callbacks(P)
    ctx.saw(host, rc, cc)
    kts = rule_types(P)
    lists = {}
    for d in host.walk():
        if d.k == 'VarDecl' and 'Reading *' in (d.t or '') and ('vector<' in d.t):
            lists[d.get('id')] = d.get('d')
    if not lists:
        # they may be members or captured from elsewhere
        ctx.note('no local reading lists in the host function')
    bools = {d.get('id'): d.get('d') for d in host.walk() if d.k == 'VarDecl' and d.t == 'bool'}
    reported = {bools[rc_id(P, host, rc, cc)], 'delimited'}
    n = 0
    for k in sorted(kts):
        if k in EXEMPT:
            continue
        sp = T(P, k, lists)
        A = Analysis(P, sp)
        sp.A = A
        R, C = A.summary(rc), A.summary(cc)
        ctx.saw(*A.visited)
        real = [s for s in R]
        Rhit = bool(R) and all('HIT' in atoms(s) for s in R if atoms(s)) and any('HIT' in atoms(s) for s in R)
        # lists filled with and without a record
        unrec = {a for s in R for a in atoms(s) if a.startswith('LIST:') and 'HIT' not in atoms(s)}
        filled = {a for s in R for a in atoms(s) if a.startswith('LIST:')}
        for nm, summ, f in (('reading', R, rc), ('cohort', C, cc)):
            m, bad = set(), None
            for s in summ:
                mm = [a for a in muts(s) if a != 'HIT' and not a.startswith(('LIST:', 'NE:'))]
                if not mm:
                    continue
                m |= set(mm)
                used = {'LIST:' + a[3:] for a in atoms(s) if a.startswith('NE:')} & filled or filled
                if any(x[0] == 'v' and v is True and x[1] in bools and stops(P, host, x[1]) and bools[x[1]] not in reported for x, v in s):
                    continue          # gives up with a warning
                if 'HIT' not in atoms(s) and not (nm == 'cohort' and (Rhit or (filled and not (used & unrec)))):
                    bad = s
            if m:
                n += 1
            ctx.check(bad is None, 'record', '%s/%s' % (k, nm), '%s:%d' % (f.file, f.line), '%s rule changing %s (%s action)' % (k[2:], ', '.join(sorted(m)) or 'nothing', nm),
                      'a %s rule can change %s in its %s action without recording itself in hit_by of a reading: the change is missing from the trace' % (
                          k[2:], ', '.join(a for a in muts(bad or frozenset()) if not a.startswith(('LIST:', 'NE:'))), nm))
        for a in sorted(filled):
            cons = [s for s in C if set(muts(s)) & {'READINGS', 'LISTS'}]
            if any('NE:' + a[5:] in atoms(s) for s in cons):
                cons = [s for s in cons if 'NE:' + a[5:] in atoms(s)]
            ok = a not in unrec or (cons and all('HIT' in atoms(s) for s in cons))
            ctx.check(ok, 'handover', '%s/%s' % (k, a[5:]), '%s:%d' % (rc.file, rc.line), 'readings a %s rule puts on %s are recorded' % (k[2:], a[5:]),
                      'a %s rule puts readings on %s without recording itself in hit_by, and neither does its cohort action' % (k[2:], a[5:]))
    ctx.selftest(n >= 20, 'only %d actions with effects recognised' % n)

    # ---- new readings
    eng = [f for f in P.funcs.values() if f.file == host.file and f.body is not None]
    for f in eng:
        for d in f.walk():
            calls = [c for c in d.walk() if c.k in CALLS and (c.get('fs') or '').startswith('alloc') and 'Reading' in (c.t or '')] if d.k == 'VarDecl' and d.c and d.c[0] is not None else []
            if d.k in ('BinaryOperator',) and d.get('op') == '=' and strip(d.c[1]).k in CALLS and is_call(strip(d.c[1]), 'alloc_reading'):
                tgt = strip(d.c[0])
                if tgt.k == 'DeclRefExpr':
                    calls = [strip(d.c[1])]
                elif tgt.k == 'MemberExpr' and tgt.get('m') == 'wread':
                    continue              # static tags of the wordform are not traced
            if not calls or strip((d.c[0] if d.k == 'VarDecl' else d.c[1])) is not calls[0] and len(calls) != 1:
                continue
            vid = d.get('id') if d.k == 'VarDecl' else strip(d.c[0]).get('id')
            if 'Reading' not in (d.t or ''):
                continue
            hit = [x for x in f.walk() if x.k in CALLS and x.get('fs') in ('push_back', 'emplace_back') and recv(x) is not None
                   and strip(recv(x)).k == 'MemberExpr' and strip(recv(x)).get('m') == 'hit_by'
                   and any(y.k == 'DeclRefExpr' and y.get('id') == vid for y in recv(x).walk())]
            ctx.saw(f)
            ctx.check(bool(hit), 'new', '%d' % (len([o for o in ctx.obl if o[0] == 'new'])), d.where(), 'recorded on the new reading',
                      'a reading made by a rule does not get the number of the rule: nothing in the trace says where it comes from')

    # ---- printing
    pt = P.fn('GrammarApplicator::printTrace')
    printers = {}
    for f in P.funcs.values():
        if f.body is None:
            continue
        if any(is_call(x, 'printTrace') and x.get('fid') == pt.id for x in f.walk()):
            printers[f.id] = f

    class W(Spec):
        def fold(self, n, fn):
            n = strip(n)
            if n is not None and n.k == 'MemberExpr' and n.get('m') == 'trace' and short(n.get('mc')) == 'GrammarApplicator':
                return True
            return None

        def once(self, B, fn):
            return B.term is not None and B.term.k in ('CXXForRangeStmt', 'ForStmt', 'WhileStmt', 'DoStmt') and any(m.k == 'MemberExpr' and m.get('m') == 'hit_by' for m in B.term.walk())

        def node(self, n, fn):
            if n.k in CALLS:
                if is_call(n, 'printTrace'):
                    return [('+', 'TRACE'), ('+', 'OUT')]
                if re.sub(r'_\d+$', '', n.get('fs') or '') in ('u_fprintf', 'u_fputc', 'u_fprintf_u') and args(n) and not any(m.get('d') == 'ux_stderr' for m in n.walk()):
                    return [('+', 'OUT')]
            return ()

        def skip(self, t):
            return t.q == pt.q or 'printReading' in t.q
    for f in printers.values():
        ctx.saw(f)
        A = Analysis(P, W())
        ins = A.run(f)
        ex = ins.get(f.cfg.exit, set())
        bad = [s for s in ex if 'OUT' in atoms(s) and 'TRACE' not in atoms(s)]
        ctx.check(ex and not bad, 'print', f.q, '%s:%d' % (f.file, f.line), 'prints the trace on all paths that print a reading',
                  '%s can print a reading without its trace although tracing is on' % f.q)
        loops = [x for x in f.walk() if x.k in ('CXXForRangeStmt', 'ForStmt', 'WhileStmt') and any(is_call(y, 'printTrace') for y in x.walk())]
        over = [x for x in loops if any(m.k == 'MemberExpr' and m.get('m') == 'hit_by' for m in x.walk())]
        for x in over:
            for y in x.walk():
                if y.k in ('BreakStmt', 'ContinueStmt', 'ReturnStmt', 'GotoStmt'):
                    inner = [a for a in y.ancestors() if a.k in ('CXXForRangeStmt', 'ForStmt', 'WhileStmt', 'DoStmt', 'SwitchStmt')]
                    if inner and inner[0] is not x and y.k in ('BreakStmt', 'ContinueStmt'):
                        continue
                    conds = []
                    for a in y.ancestors():
                        if a is x:
                            break
                        if a.k == 'IfStmt':
                            conds.append(a.c[1])
                    off = any(untraced(c) for c in conds)
                    ctx.check(off, 'print', f.q + '/end', y.where(), 'the loop over hit_by ends early without tracing only', '%s can leave out entries of hit_by' % f.q)
        ctx.check(bool(over), 'print', f.q + '/all', '%s:%d' % (f.file, f.line), 'prints every entry of hit_by', '%s does not print every entry of hit_by' % f.q)

    # what is printed of a rule is its type and its line
    good = [x for x in pt.walk() if x.k == 'ArraySubscriptExpr' or x.k == 'CXXOperatorCallExpr' and x.get('fn') == 'operator[]']
    kt = [x for x in good if any(m.k == 'DeclRefExpr' and m.get('d') == 'keywords' for m in x.walk())]
    lines = [m for x in pt.walk() if x.k in CALLS for m in args(x) if strip(m) is not None and strip(m).k == 'MemberExpr' and short(strip(m).get('mc')) == 'Rule']
    if kt:
        i = strip((kt[0].c[1] if kt[0].k == 'ArraySubscriptExpr' else kt[0].c[2]))
        v = from_init(pt, i)
        ctx.check(v is not None and v.k == 'MemberExpr' and v.get('m') == 'type', 'print', 'type', kt[0].where(), 'the type of the rule is printed', 'what printTrace prints is not the type of the rule')
    ms = {strip(m).get('m') for m in lines}
    inner = [x for x in pt.walk()]
    for x in pt.walk():
        if x.k in CALLS and any(m is not None and 'Rule' in (m.t or '') for m in args(x)):
            for t in P.targets(x):
                if t.body is not None:
                    inner += list(t.walk())
    for x in inner:
        if x.k in CALLS:
            for m in args(x):
                v = from_init(pt, strip(m)) if strip(m) is not None else None
                if v is not None and v.k == 'MemberExpr' and short(v.get('mc')) == 'Rule':
                    ms.add(v.get('m'))
    ctx.check('line' in ms, 'print', 'line', '%s:%d' % (pt.file, pt.line), 'the line of the rule is printed', 'printTrace no longer prints the line of the rule (it prints %s)' % ' '.join(sorted(ms)))

    # ---- delayed and deleted
    k = 0
    for f in P.funcs.values():
        if f.body is None or not f.n.startswith('print'):
            continue
        prints = [x for x in f.walk() if x.k == 'CXXForRangeStmt' and any(y.k in CALLS and (y.get('fs') or '').startswith('printReading') for y in x.walk())]
        flds = {}
        for x in prints:
            for m in x.walk():
                if m.k == 'MemberExpr' and short(m.get('mc')) == 'Cohort' and m.get('m') in ('deleted', 'delayed', 'readings'):
                    flds.setdefault(m.get('m'), x)
        if 'deleted' in flds or 'delayed' in flds:
            k += 1
            for w in ('deleted', 'delayed', 'readings'):
                ctx.check(w in flds, 'removed', '%s/%s' % (f.q, w), '%s:%d' % (f.file, f.line), '%s readings printed' % w, '%s prints some removed readings, but not the %s ones' % (f.q, w))
            ctx.saw(f)
    ctx.selftest(k >= 1, 'no function prints removed readings')

    # ---- hit_by is kept
    OKW = {'Reading::clear', 'Reading::Reading', 'alloc_reading', 'Reading::operator='}
    for f in P.funcs.values():
        if f.body is None:
            continue
        for x in f.walk():
            r = None
            if x.k in CALLS and x.get('fs') in ('clear', 'erase', 'pop_back', 'resize', 'assign', 'swap', 'operator=') and recv(x) is not None:
                r = strip(recv(x))
            elif x.k == 'CXXOperatorCallExpr' and x.get('fs') == 'operator=':
                r = strip(x.c[1])
            if r is not None and r.k == 'MemberExpr' and r.get('m') == 'hit_by' and short(r.get('mc')) == 'Reading':
                ctx.check(f.q in OKW, 'keep', f.q, x.where(), 'reset together with the reading', '%s forgets which rules a reading was hit by' % f.q)
