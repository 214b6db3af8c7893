"""C03: external programs get and return whole windows in the documented format, and a reply changes only what it marks."""
from .. import serial as S, serialcmp as C, stream as T
from ..cdep import direct
from ..extract import Broken
from ..flow import block_of, leafcond
from ..ir import CALLS, args, recv, strip
from ..engine import callbacks
from ..model import Model, ModelSpec, reached, short
from .c02 import SEM, atoms, conj, contains, loops, ranged, short_key

# the documented format (manual/externals.xml): widths, order, and what each part is
DOC = [
    (4, 'length'), (4, 'SingleWindow.number'), (4, 'count SingleWindow.cohorts'),
    ['SingleWindow.cohorts',
     (4, 'length'), (4, 'Cohort.global_number'), (4, 'flags'), {'Cohort.dep_parent': [(4, 'Cohort.dep_parent')]}, (2, 'Cohort.wordform'), (None, 'Cohort.wordform'),
     (4, 'count Cohort.readings'),
     ['Cohort.readings',
      (4, 'length'), (4, 'flags'), {'Reading.baseform': [(2, 'Reading.baseform'), (None, 'Reading.baseform')]}, (4, 'count Reading.tags_list'),
      ['Reading.tags_list', (2, 'Reading.tags_list'), (None, 'Reading.tags_list')]],
     {'Cohort.text': [(2, 'Cohort.text'), (None, 'Cohort.text')]}],
]
BITS = {'Cohort.text': 1, 'Cohort.dep_parent': 2, 'Reading.noprint': 2, 'Reading.deleted': 4, 'Reading.baseform': 8}
MODIFIED = 1
VERSION = 7226
TAGSKIP = [{'baseform'}, {'wordform', 'hash'}, {'type', 'T_DEPENDENCY', 'has_dep'}]


def check(ctx):
    P = ctx.P
    ctx.rule('layout', 'what is sent and what is taken in have the same order and the same widths', 1)
    ctx.rule('member', 'a value goes back to the member it was sent from', 0)
    ctx.rule('count', 'every repetition is as long as the count sent and read for it', 1)
    ctx.rule('flag', 'an optional part is sent under the condition its flag says, and read under that flag', 1)
    ctx.rule('doc', 'format, flags and version are the documented ones', 10)
    ctx.rule('alike', 'the tags counted for a reading are the tags sent', 3)
    ctx.rule('length', 'every packet has the length of what follows in front', 1)
    ctx.rule('trust', 'counts and numbers of a reply are compared with the window before anything is taken over', 4)
    ctx.rule('untouched', 'a reading not marked as modified is not changed, a marked one is taken over whole', 7)
    ctx.rule('flow', 'the version is sent once per process; each call sends the window, then takes the reply, then the window is indexed anew', 10)
    w, r = P.fn('GrammarApplicator::pipeOutSingleWindow'), P.fn('GrammarApplicator::pipeInSingleWindow')
    W, R = T.PWalker(P, SEM, 'w'), T.PWalker(P, SEM, 'r')
    W.run(w)
    R.run(r)
    ctx.saw(*W.functions)
    ctx.saw(*R.functions)
    wk = [k for k in W.root if k in [('v', p['id']) for p in w.params]]
    rk = [k for k in R.root if k in [('v', p['id']) for p in r.params]]
    if len(wk) != 1 or len(rk) != 1:
        raise Broken('streams of the external protocol not recognised')
    wt, rt = S.normalise(W.root[wk[0]], W), S.normalise(R.root[rk[0]], R)
    compared = {f for k, p in R.assumed for f in fields(k) if p and k[0] == 'cmp' and k[1] == '=='}

    def sink(kind, key, where, msg):
        if msg and key.endswith(':dropped') and any(f in compared for f in key[:-8].split(',')):
            return      # only compared: see trust
        ctx.check(not msg, kind, short_key(key), where, key, msg)
    cmp = C.Cmp(W, R, SEM, sink)
    cmp.seq(wt, rt)
    cmp.leftovers()
    doc(ctx, P, W, R, cmp, wt)
    length(ctx, P, W, wt)
    alike(ctx, P, W)
    trust(ctx, P, R, rt)
    untouched(ctx, P, R, cmp)
    flow(ctx, P, w, r)


def fields(k):
    if isinstance(k, tuple):
        if len(k) == 2 and k[0] == 'f':
            yield k[1]
        else:
            for x in k:
                yield from fields(x)


def name(t, W):
    locs = {v for it in W.items if it.uid == t.uid for v in getattr(it, 'locs', ())}
    own = {f for f in t.srcs if f.split('.')[0] in SEM and f not in ('GrammarApplicator.grammar',)}
    bits = {k for k, m in W.bitdefs if k[1] in locs}
    if bits:
        return {'flags'}
    out = set(own)
    for v in locs:
        if v.startswith('size:'):
            out |= {'count ' + f for f in own if f.endswith('.' + v[5:])}
    return out or {'length', 'count'}


def doc(ctx, P, W, R, cmp, wt):
    def go(ts, want, path):
        ts = [t for t in ts if isinstance(t, (S.Raw, S.Loop, S.Gate))]
        for i, d in enumerate(want):
            t = ts[i] if i < len(ts) else None
            what = d[1] if isinstance(d, tuple) else d[0] if isinstance(d, list) else list(d)[0]
            key = '%s/%d:%s' % (path, i, what)
            if isinstance(d, tuple):
                ok = isinstance(t, S.Raw) and t.n == d[0]
                if ok and what not in ('length', 'flags') and not what.startswith('count'):
                    ok = what in name(t, W) or what in t.srcs
                elif ok and what == 'flags':
                    ok = name(t, W) == {'flags'}
                ctx.check(ok, 'doc', key, t.where() if t is not None else 'src/GrammarApplicator.cpp:1', '%s in %s bytes' % (what, d[0] or 'its'), 'the documented format has %s here in %s bytes, what is sent differs' % (what, d[0] or 'its'))
            elif isinstance(d, list):
                ok = isinstance(t, S.Loop)
                ctx.check(ok, 'doc', key, t.where() if t is not None else 'src/GrammarApplicator.cpp:1', 'for each of %s' % what, 'the documented format has each of %s here' % what)
                if ok:
                    go(t.body, d[1:], path + '/' + what)
            else:
                ok = isinstance(t, S.Gate) and not t.els and (what in fields(t.key))
                ctx.check(ok, 'doc', key, t.where() if t is not None else 'src/GrammarApplicator.cpp:1', 'where there is one: %s' % what, 'the documented format has an optional %s here' % what)
                if ok:
                    go(t.then, d[what], path + '/' + what)
        ctx.check(len(ts) == len(want), 'doc', path + '/end', ts[-1].where() if ts else '', 'nothing else is sent', 'more is sent than the documented format has')
    go(wt, DOC, 'window')
    got = {}
    for (k, m), stacks in W.bitdefs.items():
        for st in stacks:
            for f in [f for g, p in st for f in fields(g) if f in BITS]:
                got.setdefault(f, set()).add((m, len(st)))
    for f, m in BITS.items():
        ctx.check({x for x, _ in got.get(f, ())} == {m}, 'doc', 'bit:%s' % f, 'src/GrammarApplicator.cpp:1', 'flag of %s is %d' % (f, m), 'the flag of %s is %s, documented as %d' % (f, sorted(x for x, _ in got.get(f, ())), m))
        # the condition is that member and nothing else
        bad = [st for (k, mm), stacks in W.bitdefs.items() for st in stacks if any(f in fields(g) for g, p in st) and not all(cond_ok(g, p, f) for g, p in st)]
        ctx.check(not bad, 'flag', 'when:%s' % f, 'src/GrammarApplicator.cpp:1', 'set where there is %s' % f, 'the flag of %s is set under another condition: %s' % (f, str(bad)[:140]))
    v = [n.ev for g in P.funcs.values() for n in (g.walk() if g.is_lambda or g.body is not None and 'runRules' in g.file else ()) if n.k == 'DeclRefExpr' and n.get('d') == 'CG3_EXTERNAL_PROTOCOL' and n.ev is not None]
    ctx.check(bool(v) and set(v) == {VERSION}, 'doc', 'version', 'src/GrammarApplicator_runRules.cpp:1', 'protocol version %d' % VERSION, 'the protocol version sent is %s, documented as %d' % (v[:1], VERSION))


def cond_ok(g, p, f):
    for k, q in atoms(g, p):
        fs = set(fields(k))
        if fs == {'GrammarApplicator.has_dep'} and q and f == 'Cohort.dep_parent':
            continue
        if fs != {f}:
            return False
        if k[0] == 'cmp' and f == 'Cohort.dep_parent':
            if q or ('c', 0xffffffff) not in k:
                return False
        elif not q:
            return False
    return True


def length(ctx, P, W, wt):
    for f in sorted(W.functions, key=lambda f: f.line):
        for n in f.walk():
            if n.k == 'CXXMemberCallExpr' and n.get('fs') == 'write' and len(args(n)) == 2 and args(n)[1] is not None and any(x.k == 'CXXMemberCallExpr' and x.get('fs') in ('data', 'c_str') for x in args(n)[0].walk()) and f.q.rsplit('::', 1)[-1] not in ('writeUTF8_Raw', 'writeUTF8_LE', 'writeRaw'):
                ids = {x.get('id') for x in args(n)[0].walk() if x.k == 'DeclRefExpr' and x.get('dk') in ('Var', 'ParmVar')}
                sz = {y for x in args(n)[1].walk() if x.k == 'CXXMemberCallExpr' and x.get('fs') == 'size' for y in [strip(recv(x)).get('id')]}
                its = [it for it in W.items if any(v.startswith('size:') and v[5:] in ids for v in getattr(it, 'locs', ())) and it.n == 4]
                ctx.check(bool(its) and ids == sz, 'length', f.q.rsplit('::', 1)[-1], n.where(), 'the length sent is that of what is sent', 'the length in front of the packet is not that of what is sent')


def alike(ctx, P, W):
    f = P.fn('GrammarApplicator::pipeOutReading')
    ctx.saw(f)
    cnt = {}
    ls = [L for L in T.loops_of(f) if ranged(L) == 'tags_list']
    sets = {}
    cd = direct(f.cfg)

    def writes(e):
        return e.k in CALLS and any(a is not None and 'ostream' in (a.t or '') or a is not None and 'ostringstream' in (a.t or '') for a in args(e)) and e.get('fs') != 'operator<<'

    def counts(e):
        return e.k == 'UnaryOperator' and e.get('op') == '++' and strip(e.c[0]) is not None and strip(e.c[0]).k == 'DeclRefExpr' and S.width(strip(e.c[0]).t) == 4
    for L in ls:
        for kind, ev in (('counted', counts), ('sent', writes)):
            if any(ev(x) for x in T.body_of(L).walk()):
                es = T.skip_edges(f, L, ev)
                sk = {frozenset(conds(P, f, b, {x for x, _ in es}, {y.i for y in T.body_of(L).walk()}, cd) - {'grammar', 'single_tags', 'parent'}) for b, i in es}
                sets.setdefault(kind, []).append((L, sk))
    if len(sets.get('sent', [])) != 1:
        raise Broken('pipeOutReading no longer sends the tags of a reading in one loop')
    for kind, v in sets.items():
        for L, sk in v:
            bad = [s for s in sk if s not in [frozenset(x) for x in TAGSKIP] and not (s and s <= frozenset().union(*TAGSKIP))]
            miss = [x for x in ({'baseform'}, {'wordform'}) if not any(x <= s for s in sk)]
            ctx.check(not bad and not miss, 'alike', 'skip:' + kind, L.where(), 'all tags are %s but base form, word form and dependencies' % kind, 'a tag is %s or not depending on %s' % (kind, ', '.join(sorted(bad[0])) if bad else 'not enough: base form and word form are sent elsewhere'))
    a = [frozenset().union(*sk) for L, sk in sets.get('counted', [])]
    b = [frozenset().union(*sk) for L, sk in sets['sent']]
    ctx.check(len(a) == 1 and a == b, 'alike', 'same', f.where() if hasattr(f, 'where') else '%s:%d' % (f.file, f.line), 'counted and sent alike', 'tags are counted under other conditions than they are sent')


def conds(P, f, b, skips, inside, cd, seen=()):
    """what an edge out of block b depends on inside a loop: its own condition and the conditions that lead there"""
    out = set()
    leaf = leafcond(f.cfg.b[b])[0]
    if leaf is not None:
        out |= T.names(P, leaf)
    for c, i in cd.get(b, ()):
        l = leafcond(f.cfg.b[c])[0]
        if c not in skips and c not in seen and l is not None and l.i in inside:
            out |= conds(P, f, c, skips, inside, cd, tuple(seen) + (b,))
    return out


def lin(k):
    """(base key, offset) of a linear expression"""
    if isinstance(k, tuple) and k and k[0] == 'BinaryOperator' and k[1] in ('+', '-'):
        for i, j in ((2, 3), (3, 2)):
            if k[j][0] == 'c' and (k[1] == '+' or j == 3):
                b, o = lin(k[i])
                return b, o + (k[j][1] if k[1] == '+' else -k[j][1])
    return k, 0


def trust(ctx, P, R, rt):
    eqs = []
    for k, p in R.assumed:
        for x, q in atoms(k, p):
            if x[0] == 'cmp' and x[1] == '==' and q:
                eqs.append((lin(x[2]), lin(x[3])))

    def have(field, items, off, size):
        for (a, oa), (b, ob) in eqs + [(b, a) for a, b in eqs]:
            if a[0] == 'in' and (items is None or set(a[1]) == set(items)) and field in fields(b) and (b[0] == 'call' and b[1].endswith('::size')) == size and oa - ob == off:
                return True
        return False
    for f in ('SingleWindow.number', 'Cohort.global_number'):
        ctx.check(have(f, None, 0, False), 'trust', f, 'src/GrammarApplicator.cpp:1', 'compared, and the end if it differs: %s' % f, 'the reply is taken over without comparing %s' % f)
    n = 0
    for L in loops(rt):
        ms = {x.get('mc').rsplit('::', 1)[-1] + '.' + x.get('m') for x in T.body_of(L.node).walk() if x.k == 'MemberExpr' and x.get('m') in ('readings', 'cohorts') and x.get('mc')}
        for m in ms:
            n += 1
            ctx.check(have(m, L.items, 1 if m.endswith('cohorts') else 0, True), 'trust', 'count:' + m, L.where(), 'the count is compared with %s first' % m, '%s is indexed with a count from the reply that was not compared with its size' % m)
    ctx.check(n >= 2, 'trust', 'loops', 'src/GrammarApplicator.cpp:1', 'cohorts and readings', 'the replies for cohorts and readings are no longer recognised')


class Unmodified(ModelSpec):
    flag = None         # ids of variables
    bit = False
    force = False
    ids = frozenset()

    def fold(self, n, fn):
        m = strip(n)
        if m is None:
            return None
        if m.k == 'BinaryOperator' and m.get('op') == '&' and m.c[1].ev == MODIFIED and any(x.k == 'DeclRefExpr' and x.get('id') in self.flag for x in m.c[0].walk()):
            return self.bit
        if m.k == 'BinaryOperator' and m.get('op') in ('!=', '==') and m.c[1].ev == 0:
            v = self.fold(m.c[0], fn)
            return None if v is None else v == (m.get('op') == '!=')
        if m.k == 'DeclRefExpr' and m.get('id') in self.ids:
            return self.force
        if m.k == 'DeclRefExpr' and m.get('dk') == 'Var' and m.t.replace('const ', '') == 'bool':
            for x in fn.walk():
                if x.k == 'VarDecl' and x.get('id') == m.get('id') and x.c and x.c[0] is not None and 'const' in x.t:
                    return self.fold(x.c[0], fn)
        if m.k == 'UnaryOperator' and m.get('op') == '!':
            v = self.fold(m.c[0], fn)
            return None if v is None else not v
        return None


def untouched(ctx, P, R, cmp):
    f = P.fn('GrammarApplicator::pipeInReading')
    ctx.saw(f)
    rp = [p['id'] for p in f.params if 'Reading' in p['t']]
    fp = [p['id'] for p in f.params if p['t'] == 'bool']
    flagvar = {it.flag[1] for it in R.items if it.flag and it.flag[0] == 'v' and it.dests & {'Reading.noprint', 'Reading.deleted'}}
    flagvar |= {y.get('id') for x in f.walk() if x.k == 'VarDecl' and x.get('id') in flagvar and x.c and x.c[0] is not None for y in x.c[0].walk() if y.k == 'DeclRefExpr' and y.get('dk') == 'Var'}
    if len(rp) != 1 or len(fp) != 1 or not flagvar:
        raise Broken('pipeInReading: reading, flags or force not recognised')

    def sites(n, fn):
        l = None
        if n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('op', '').endswith('=') and n.get('op') not in ('==', '!=', '<=', '>='):
            l = strip(n.c[0])
        elif n.k == 'CXXOperatorCallExpr' and n.get('op') == '=':
            l = strip(args(n)[0])
        elif n.k == 'CXXMemberCallExpr' and recv(n) is not None and n.get('fs') in ('clear', 'push_back', 'insert', 'erase', 'assign', 'swap', 'emplace_back'):
            l = strip(recv(n))
        if l is not None and l.k == 'MemberExpr' and l.get('dk') == 'Field' and short(l.get('mc') or '') == 'Reading':
            yield l.get('m') + (':clear' if n.get('fs') == 'clear' else '')
        if n.k in CALLS and n.get('fs') == 'reflowReading':
            yield 'reflow'

    class Sp(Unmodified):
        flag = flagvar
        ids = frozenset(fp)
    g, _ = reached(P, Model(), f, sites, lambda t: t.q.rsplit('::', 1)[-1] == 'reflowReading', spec=Sp)
    ctx.check(not g, 'untouched', 'none', '%s:%d' % (f.file, f.line), 'a reading that is not marked stays as it is', 'a reading not marked as modified is changed: %s' % ', '.join(sorted(g)))
    want = {'noprint', 'deleted', 'baseform', 'tags_list', 'tags_list:clear', 'reflow'}
    for nm, b, fo in (('marked', True, False), ('new word form', False, True)):
        class Sp2(Sp):
            bit = b
            force = fo
        g, _ = reached(P, Model(), f, sites, lambda t: t.q.rsplit('::', 1)[-1] == 'reflowReading', spec=Sp2)
        for x in sorted(want):
            ctx.check(x in g, 'untouched', '%s:%s' % (nm, x), '%s:%d' % (f.file, f.line), '%s of a reading that is %s' % (x, nm), '%s of a reading that is %s is not taken over' % (x, nm))
    # nothing else decides
    cd = direct(f.cfg)
    for n in f.walk():
        for s in sites(n, f):
            if s not in ('noprint', 'deleted', 'tags_list:clear', 'reflow'):
                continue
            bl = block_of(f, n)
            bad = None
            seen, work = set(), [bl[0]] if bl else []
            while work:
                x = work.pop()
                for b, i in cd.get(x, ()):
                    if b in seen:
                        continue
                    seen.add(b)
                    work.append(b)
                    leaf, neg = leafcond(f.cfg.b[b])
                    if leaf is None:
                        continue
                    ids = {y.get('id') for y in leaf.walk() if y.k == 'DeclRefExpr'} | bools(f, leaf)
                    if not (ids & (flagvar | set(fp))):
                        bad = leaf
            ctx.check(bad is None, 'untouched', 'always:%s' % s, n.where(), '%s always' % s, '%s depends on something else than the mark (line %d)' % (s, bad.l if bad else 0))
    # force exactly where the word form changed
    c = P.fn('GrammarApplicator::pipeInCohort')
    calls = [n for n in c.walk() if n.k in CALLS and n.get('fs') == 'pipeInReading']
    for n in calls:
        a = strip(args(n)[2]) if len(args(n)) > 2 and args(n)[2] is not None else None
        ok = False
        if a is not None and a.k == 'DeclRefExpr':
            sets = [x for x in c.walk() if x.k == 'BinaryOperator' and x.get('op') == '=' and strip(x.c[0]).get('id') == a.get('id')]
            decl = [x for x in c.walk() if x.k == 'VarDecl' and x.get('id') == a.get('id')]
            wf = [x for x in c.walk() if x.k == 'BinaryOperator' and x.get('op') == '=' and strip(x.c[0]).k == 'MemberExpr' and strip(x.c[0]).get('m') == 'wordform']
            init = decl[0].c[0] if decl and decl[0].c else None
            if init is not None and init.ev == 0 and wf:
                ccd = direct(c.cfg)
                ok = len(sets) == 1 and sets[0].c[1].ev == 1 and all(ccd.get(block_of(c, x)[0]) == ccd.get(block_of(c, sets[0])[0]) for x in wf)
            elif init is not None and wf:
                cd2 = direct(c.cfg)
                ok = not sets and all(any(leafcond(c.cfg.b[b])[0] is not None and any(y.k == 'DeclRefExpr' and y.get('id') == a.get('id') for y in leafcond(c.cfg.b[b])[0].walk()) for b, i in cd2.get(block_of(c, x)[0], ())) for x in wf)
        ctx.check(ok, 'untouched', 'force', n.where(), 'all readings are taken over exactly where the word form changed', 'a new word form does not always mean that all readings are taken over')


def bools(f, leaf):
    out = set()
    ids = {y.get('id') for y in leaf.walk() if y.k == 'DeclRefExpr'}
    for x in f.walk():
        if x.k == 'VarDecl' and x.get('id') in ids and x.t.replace('const ', '') == 'bool' and x.c and x.c[0] is not None:
            out |= {y.get('id') for y in x.c[0].walk() if y.k == 'DeclRefExpr'}
    return out


def flow(ctx, P, w, r):
    host, rcb, ccb, run = callbacks(P)
    calls = {}
    for f in P.funcs.values():
        if f.body is None:
            continue
        for n in f.walk():
            if n.k in CALLS and n.get('fs') in ('pipeOutSingleWindow', 'pipeInSingleWindow'):
                calls.setdefault(n.get('fs'), []).append(n)
    o, i = calls.get('pipeOutSingleWindow', []), calls.get('pipeInSingleWindow', [])
    if not o or not i:
        raise Broken('no EXTERNAL call found')
    f = o[0].fn
    ctx.saw(f)
    ok = len(o) == 1 and len(i) == 1 and i[0].fn is f
    ctx.check(ok, 'flow', 'pair', o[0].where(), 'one place sends and takes in', 'sending and taking in are not paired')
    if ok:
        bo, bi = block_of(f, o[0]), block_of(f, i[0])
        cd = direct(f.cfg)
        same = bo and bi and (bo[0] == bi[0] and bo[1] < bi[1] or bo[0] != bi[0] and cd.get(bo[0]) == cd.get(bi[0]) and before(f, bo[0], bi[0]))
        ctx.check(bool(same), 'flow', 'order', i[0].where(), 'the reply is awaited after the window was sent, and always', 'the reply is not taken in exactly once after each window sent')

        def ident(a):
            return [x.get('id') or x.get('m') for x in a.walk() if x.k in ('DeclRefExpr', 'MemberExpr')]
        ctx.check([ident(a) for a in args(o[0])] == [ident(a) for a in args(i[0])], 'flow', 'same', i[0].where(), 'same window, same process', 'the reply is taken from another process or for another window')
    vals = {t: None for t in ('K_EXTERNAL_ONCE', 'K_EXTERNAL_ALWAYS')}

    def sites(n, fn):
        if n.k in CALLS and n.get('fs') in ('pipeOutSingleWindow', 'pipeInSingleWindow', 'indexSingleWindow', 'start'):
            yield n.get('fs')
        if n.k in CALLS and n.get('fs') == 'writeRaw' and any(x.k == 'DeclRefExpr' and x.get('d') == 'CG3_EXTERNAL_PROTOCOL' for x in n.walk()):
            yield 'version'
        if n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[1]) is not None and n.c[1].ev == 1 and strip(n.c[0]).k in ('MemberExpr', 'DeclRefExpr') and (strip(n.c[0]).get('m') or strip(n.c[0]).get('d')) == 'reset_cohorts_for_loop':
            yield 'reset'
        if n.k == 'CXXMemberCallExpr' and n.get('fs') == 'insert' and recv(n) is not None and any(x.k == 'MemberExpr' and x.get('m') == 'hit_external' for x in recv(n).walk()):
            yield 'once'
    for t in vals:
        g, _ = reached(P, Model(ktype=t), ccb, sites, lambda x: not x.is_lambda)
        for x in ('pipeOutSingleWindow', 'pipeInSingleWindow', 'indexSingleWindow', 'reset', 'version'):
            ctx.check(x in g, 'flow', '%s:%s' % (t, x), '%s:%d' % (ccb.file, ccb.line), '%s does %s' % (t, x), '%s never does %s' % (t, x))
        ctx.check(('once' in g) == (t == 'K_EXTERNAL_ONCE'), 'flow', '%s:once' % t, '%s:%d' % (ccb.file, ccb.line), 'once per window only for ONCE', '%s %s' % (t, 'is no longer limited to once per window' if t.endswith('ONCE') else 'is limited to once per window'))
    # version: with start, where the process is not known yet
    vs = [n for g in P.funcs.values() if g.body is not None for n in g.walk() if n.k in CALLS and n.get('fs') == 'writeRaw' and any(x.k == 'DeclRefExpr' and x.get('d') == 'CG3_EXTERNAL_PROTOCOL' for x in n.walk())]
    for n in vs:
        g = n.fn
        st = [x for x in g.walk() if x.k in CALLS and x.get('fs') == 'start' and any(t.q.startswith('Process::') or 'Process' in t.q for t in P.targets(x))]
        ok = len(vs) == 1 and len(st) == 1
        if ok:
            bs, bv = block_of(g, st[0]), block_of(g, n)
            cd = direct(g.cfg)
            ok = bs and bv and (bs[0] == bv[0] and bs[1] < bv[1] or bs[0] != bv[0] and before(g, bs[0], bv[0]))
        ctx.check(bool(ok), 'flow', 'version', n.where(), 'the version follows the start of the process', 'the version is not sent exactly once after the process was started')
        # under the condition that it is not among the running ones
        conds = [a for a in n.ancestors() if a.k == 'IfStmt']
        known = any('externals' in {x.get('m') for x in a.c[1].walk() if x.k == 'MemberExpr'} for a in conds)
        ctx.check(known, 'flow', 'started', n.where(), 'only a process that is not running is started', 'a running process is started again')
    # an empty reply: nothing more is waited for
    rd = [n for n in r.walk() if n.k in CALLS and n.get('fs') == 'readRaw']
    rd.sort(key=lambda n: (n.l, n.i))
    cdr = direct(r.cfg)
    v = {x.get('id') for x in rd[0].walk() if x.k == 'DeclRefExpr'} if rd else set()
    for n in rd[1:2]:
        bl = block_of(r, n)
        ok = False
        for b, i in cdr.get(bl[0], ()) if bl else ():
            leaf, neg = leafcond(r.cfg.b[b])
            if leaf is not None and v & {x.get('id') for x in leaf.walk() if x.k == 'DeclRefExpr' and x.get('dk') == 'Var'}:
                zero = leaf.k == 'DeclRefExpr' or leaf.k == 'BinaryOperator' and leaf.get('op') in ('==', '!=', '>') and leaf.c[1].ev == 0
                ok = ok or zero
        ctx.check(ok, 'flow', 'null', n.where(), 'after an empty reply nothing more is read', 'an empty reply is no longer taken as no change')
    # the packet leaves the buffer
    fl = [n for n in w.walk() if n.k == 'CXXMemberCallExpr' and n.get('fs') == 'flush']
    wr = [n for n in w.walk() if n.k == 'CXXMemberCallExpr' and n.get('fs') == 'write']
    cd = direct(w.cfg)
    ok = bool(fl) and any(all(before(w, block_of(w, x)[0], block_of(w, y)[0]) or block_of(w, x)[0] == block_of(w, y)[0] and block_of(w, x)[1] < block_of(w, y)[1] for x in wr) and not cd.get(block_of(w, y)[0]) for y in fl)
    ctx.check(ok, 'flow', 'flush', w.file + ':%d' % w.line, 'the window is flushed to the process', 'a window can stay in a buffer while its reply is awaited')


def before(f, a, b):
    """every path to block b goes through block a"""
    seen, work = {f.cfg.entry}, [f.cfg.entry]
    if a == b:
        return True
    while work:
        x = work.pop()
        if x == b:
            return False
        if x == a:
            continue
        for t in f.cfg.b[x].succ:
            if t >= 0 and t not in seen:
                seen.add(t)
                work.append(t)
    return True
