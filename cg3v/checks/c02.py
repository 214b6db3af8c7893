"""C02: the writer and the reader of the binary stream format agree, and nothing that is to be printed is left out."""
import re
from .. import serial as S, serialcmp as C, stream as T
from ..extract import Broken
from ..ir import CALLS, args, is_call, recv, strip
from ..flow import leafcond
from ..model import Model, reached, short

SEM = {'Cohort', 'Reading', 'SingleWindow', 'Tag', 'GrammarApplicator'}
# the reader keeps the numbers of the writer apart from those it gives out itself
ALIAS = {'Cohort.global_number': 'Cohort.dep_self', 'Cohort.relations': 'Cohort.relations_input'}

# what the writer may leave out: member the loop goes over -> {names looked at: value that skips (None: either)}
SKIP = {
    'all_cohorts': [({'local_number'}, 'the cohort >>> is made anew by the reader'), ({'type', 'CT_REMOVED'}, 'a removed cohort is not printed in any format')],
    'readings': [({'noprint'}, 'a reading not to be printed')],
    'tags_list': [({'wordform', 'hash'}, 'the word form stands with the cohort'), ({'baseform'}, 'the base form stands before the tags'), ({'type', 'T_DEPENDENCY', 'T_RELATION'}, 'dependencies and relations stand with the cohort'),
                  ({'unique_tags'}, '--unique-tags'), (set(), 'a tag already written, under --unique-tags')],
    'relations': [], 'variables_output': [], 'second': [],
}
NEEDED = {'all_cohorts': [{'local_number'}, {'type', 'CT_REMOVED'}], 'readings': [{'noprint'}]}
COMMANDS = {'BFC_FLUSH': 'STR_CMD_FLUSH', 'BFC_EXIT': 'STR_CMD_EXIT', 'BFC_IGNORE': 'STR_CMD_IGNORE', 'BFC_RESUME': 'STR_CMD_RESUME'}
PACKETS = {'BFP_WINDOW': ('readWindow', 'printSingleWindow'), 'BFP_COMMAND': ('readCommand', 'printStreamCommand'), 'BFP_TEXT': ('readText', 'printPlainTextLine')}
MODES = {
    'BFV_SETVAR': {'set value', 'rem.erase', 'out'},
    'BFV_SETVAR_ANY': {'set any', 'rem.erase', 'out'},
    'BFV_REMVAR': {'set.erase', 'rem.insert', 'out'},
}


def is_write(n):
    """puts something into a byte buffer or an output stream"""
    if n.k == 'CXXOperatorCallExpr' and n.get('op') == '+=' and S.STRING_T.match(args(n)[0].t):
        return args(n)[0]
    if n.k == 'CXXMemberCallExpr' and n.get('fs') in ('append', 'push_back') and recv(n) is not None and S.STRING_T.match(recv(n).t.replace(' *', '')):
        return recv(n)
    return None


class Buffers:
    def __init__(self, P):
        self.P = P
        self.memo = {}

    def passes(self, f, i, d=0):
        """does the function append to its i-th parameter?"""
        if (f.id, i) in self.memo:
            return self.memo[f.id, i]
        self.memo[f.id, i] = False
        if f.body is None or i >= len(f.params) or not S.STRING_T.match(f.params[i]['t']) or f.params[i]['t'].startswith('const') or d > 4:
            return False
        pid = f.params[i]['id']
        r = False
        for n in f.walk():
            w = self.writes(n, d + 1)
            if any(strip(x) is not None and strip(x).get('id') == pid for x in w):
                r = True
        self.memo[f.id, i] = r
        return r

    def writes(self, n, d=0):
        """expressions of the buffers this node appends to"""
        w = is_write(n)
        if w is not None:
            return [w]
        out = []
        if n.k in CALLS:
            a = args(n)
            if n.k == 'CXXOperatorCallExpr' and n.get('op') == '()':
                a = a[1:]
            for t in self.P.targets(n):
                for i in range(len(t.params)):
                    if i < len(a) and a[i] is not None and self.passes(t, i, d):
                        out.append(a[i])
        return out


def ranged(L):
    """member a loop goes over"""
    if L.k == 'CXXForRangeStmt':
        ri = L.fn.nodes[L.get('ri')]
        ms = [x.get('m') for x in ri.walk() if x.k == 'MemberExpr']
        return ms[0] if ms else None
    ms = [x.get('m') for c in L.c[:-1] if c is not None for x in c.walk() if x.k == 'MemberExpr']
    return ms[-1] if ms else None


def range_var(L):
    if L.k != 'CXXForRangeStmt':
        return None
    return next((x.get('id') for x in L.fn.nodes[L.get('ri')].walk() if x.k == 'DeclRefExpr'), None)


def each(ctx, P, W, fns, B, skip, needed, rule='each'):
    n = 0
    for f in fns:
        if f.cfg is None:
            continue
        decl = {x.get('id'): x for x in f.walk() if x.k == 'VarDecl'}
        for L in T.loops_of(f):
            body = T.body_of(L)

            def outer(e):
                """an element goes into a buffer that outlives the iteration"""
                r = []
                for b in B.writes(e):
                    b = strip(b)
                    d = decl.get(b.get('id')) if b is not None and b.k == 'DeclRefExpr' else None
                    if d is None or not T.inside(d, body):
                        r.append('w')
                return r[:1]
            m = ranged(L)
            own = any(outer(x) and T.loop_of(x) is L for x in body.walk())
            if not own and not (m in skip and any(outer(x) for x in body.walk())):
                continue
            n += 1
            ctx.saw(f)

            def ev(e):
                r = ['w'] if outer(e) else []
                t = strip(e.c[0]) if e.k == 'UnaryOperator' and e.get('op') == '++' else strip(e.c[0]) if e.k == 'CompoundAssignOperator' and e.get('op') == '+=' else None
                if t is not None and t.k == 'DeclRefExpr' and t.get('id') in decl and not T.inside(decl[t.get('id')], L) and T.loop_of(e) is L:
                    r.append('n:' + t.get('id'))
                return r
            ends = T.iteration(f, L, ev) if own else set()
            cnt = {k for s in ends for k, v in s if k.startswith('n:')}
            bad = None
            for s in ends:
                d = dict(s)
                for c in cnt:
                    if d.get(c, 0) != (1 if d.get('w') else 0):
                        bad = 'one element can be %s' % ('written without being counted' if d.get('w') and not d.get(c) else 'counted without being written' if not d.get('w') else 'counted twice')
            key = '%s:%s' % (f.q.rsplit('::', 1)[-1], m)
            if own:
                ctx.check(bad is None, rule, 'count:' + key, L.where(), 'what is counted is what is written, for each of %s' % m, '%s, so the reader gets out of step: each of %s' % (bad, m))
            # left out
            if m not in skip:
                continue
            seen = []
            for b, i in T.skip_edges(f, L, lambda e: bool(outer(e))):
                leaf, neg = leafcond(f.cfg.b[b])
                if leaf is None:
                    continue
                inner = T.loop_of(leaf)
                if f.cfg.b[b].term is not None and f.cfg.b[b].term is inner:
                    continue        # an empty inner list
                nm = T.names(P, leaf) - {'grammar', 'single_tags', 'tags_list', 'parent', 'readings', 'all_cohorts', 'cohorts'}
                seen.append(nm)
                ok = [why for a, why in skip[m] if nm == frozenset(a)]
                if not ok:      # several of them in one function
                    in_ = [(a, why) for a, why in skip[m] if a and frozenset(a) <= nm]
                    if in_ and frozenset().union(*[a for a, _ in in_]) == nm:
                        ok = [why for _, why in in_]
                ctx.check(bool(ok), rule, 'skip:%s:%s' % (key, ','.join(sorted(nm))), leaf.where(), 'each of %s: %s' % (m, ok[0] if ok else ''), 'one of %s is left out of the packet depending on %s' % (m, ', '.join(sorted(nm)) or 'a local condition'))
            for a in needed.get(m, []):
                ctx.check(any(frozenset(a) <= nm for nm in seen), rule, 'keep:%s:%s' % (key, ','.join(sorted(a))), L.where(), 'left out: %s' % ','.join(sorted(a)), 'what is not to be printed is written (%s is not looked at)' % ', '.join(sorted(a)))
    return n


def check(ctx):
    P = ctx.P
    ctx.rule('layout', 'every byte sequence written for a window is taken in by the reader in the same order with the same width', 25)
    ctx.rule('member', 'the member a value is taken from is the member the reader stores it in', 8)
    ctx.rule('count', 'every repetition is read as often as the count written for it says, and that count is the number of elements', 6)
    ctx.rule('flag', 'every flag bit is set under exactly the condition that the reader restores from it', 3)
    ctx.rule('each', 'an element is counted exactly when it is written, and left out only where it is not to be printed', 14)
    ctx.rule('number', 'a dependency is written with the number under which its head is written', 3)
    ctx.rule('gate', 'a part is written whenever there is one and read whatever it holds', 15)
    ctx.rule('wide', 'no number on its way is put into a smaller variable than it came in', 15)
    ctx.rule('place', 'everything read for a window is put in its place exactly once', 4)
    ctx.rule('mode', 'each kind of variable change is written with its code and read back as that change', 6)
    ctx.rule('command', 'each command and each kind of packet has one code for writer and reader', 10)
    ctx.rule('header', 'the header is written once, before anything else, and is the one the reader wants', 4)
    ctx.rule('fit', 'what is written in 16 bits has been found to fit', 1)
    w, r = P.fn('BinaryApplicator::printSingleWindow'), P.fn('BinaryApplicator::readWindow')
    W, R = T.PWalker(P, SEM, 'w'), T.PWalker(P, SEM, 'r')
    W.run(w)
    R.run(r)
    ctx.saw(*W.functions)
    ctx.saw(*R.functions)
    wk = [('v', p['id']) for p in w.params if ('v', p['id']) in W.root]
    rk = [k for k in R.root if k == ('f', 'GrammarApplicator.ux_stdin')]
    if len(wk) != 1 or len(rk) != 1:
        raise Broken('streams of the writer or the reader not recognised')
    wt, rt = S.normalise(W.root[wk[0]], W), S.normalise(R.root[rk[0]], R)

    def sink(kind, key, where, msg):
        ctx.check(not msg, kind, short_key(key), where, key, msg)
    # header, kind of packet, window, trailing command
    if len(wt) < 4 or not isinstance(wt[0], S.Gate) or not isinstance(wt[1], S.Raw):
        raise Broken('the window packet no longer begins with header and kind')
    end = len(wt)
    while end > 2 and isinstance(wt[end - 1], S.Gate) and 'SingleWindow.flush_after' in C.key_fields(wt[end - 1].key):
        end -= 1
    unwrap(wt[2:end])
    cmp = C.Cmp(W, R, SEM, sink, alias=ALIAS)
    cmp.seq(wt[2:end], rt)
    cmp.leftovers()
    # --- counts belong to their loops
    counts(ctx, P, W, R, cmp, w)
    flags(ctx, P, W, R, cmp)
    parents(ctx, W, R, cmp)
    # the body of a loop under one condition leaves out the others, which is what `each` looks at
    B = Buffers(P)
    each(ctx, P, W, [w], B, SKIP, NEEDED)
    place(ctx, P, r, {L.node.i for L in loops(rt) if L.node.fn is r})
    modes(ctx, P, W, r)
    commands(ctx, P)
    header(ctx, P, W)
    gates(ctx, P, R, r)
    write_gates(ctx, P, w, B, {'tags_list': [{'wread'}]})
    flush_cmd(ctx, P, w)
    wide(ctx, P, set(W.functions) | set(R.functions))
    fit(ctx, P, [f for f in W.functions] + [P.fn('BinaryApplicator::printPlainTextLine'), P.fn('BinaryApplicator::printStreamCommand')])


def short_key(k):
    return k if len(k) < 90 else k[:60] + '..' + str(sum(map(ord, k)) % 9973)


def unwrap(ts):
    for t in ts:
        if isinstance(t, S.Loop):
            while len(t.body) == 1 and isinstance(t.body[0], S.Gate) and bool(t.body[0].then) != bool(t.body[0].els):
                t.body = t.body[0].then + t.body[0].els
            unwrap(t.body)
        elif isinstance(t, S.Gate):
            unwrap(t.then + t.els)


def parents(ctx, W, R, cmp):
    """a parent is written as the number by which the reader knows the cohort"""
    n = 0
    for it in W.items:
        fs = {x for x in it.srcs if x.startswith('Cohort.')}
        if it.n is None or 'Cohort.dep_parent' not in fs and not fs & {'Cohort.global_number', 'Cohort.local_number'}:
            continue
        n += 1
        bad = 'Cohort.local_number' in fs or any('GrammarApplicator.gWindow' == x for x in it.srcs) and 'Cohort.global_number' not in fs
        ctx.check(not bad, 'number', ','.join(sorted(fs)), it.where(), 'the number of a cohort: %s' % ', '.join(sorted(fs)), 'a cohort is referred to by another number than the one it is written with (%s)' % ', '.join(sorted(fs)))


def counts(ctx, P, W, R, cmp, w):
    """the variable written as the count of a repetition is the one incremented in that repetition"""
    inc = {}
    for n in (n for f in W.functions for n in f.walk()):
        t = strip(n.c[0]) if n.k == 'UnaryOperator' and n.get('op') == '++' or n.k == 'CompoundAssignOperator' and n.get('op') == '+=' else None
        if t is not None and t.k == 'DeclRefExpr' and T.loop_of(n) is not None:
            inc.setdefault(t.get('id'), set()).add((n.fn.id, T.loop_of(n).i))

    go = loops
    top = [k for k in R.root if k == ('f', 'GrammarApplicator.ux_stdin')]
    wl = list(go(W.root[[('v', p['id']) for p in w.params if ('v', p['id']) in W.root][0]]))
    rl = list(go(S.normalise(R.root[top[0]], R)))
    for L in rl:
        for u in L.items:
            x = cmp.amap.get(u)
            if x is None:
                continue
            vs = {v for it in W.items if it.uid == x.uid for v in getattr(it, 'locs', ())}
            ls = {l for v in vs for l in inc.get(v, ())}
            sizes = {v[5:] for v in vs if v.startswith('size:')}
            # the writer's loop aligned to it contains the first thing read in it
            first = next((t for t in L.body if isinstance(t, S.Raw)), None)
            wr = cmp.amap.get(first.uid) if first is not None else None
            if wr is None:
                continue
            hit = [l for l in wl if contains(l.body, wr)]
            own = hit[-1] if hit else None
            ctx.check(own is not None and ((own.node.fn.id, own.node.i) in ls if ls else ranged(own.node) in sizes or range_var(own.node) in sizes), 'count', 'own:%s' % short_key(S and ','.join(sorted(cmp.fields(own.srcs))) if own is not None else str(u)), x.where(),
                      'the count is that of the repetition it stands before', 'the count written before a repetition is that of another one')


def loops(ts):
    for t in ts:
        if isinstance(t, S.Loop):
            yield t
            yield from loops(t.body)
        elif isinstance(t, S.Gate):
            yield from loops(t.then + t.els)


def contains(ts, x):
    for t in ts:
        if t is x or isinstance(t, S.Raw) and t.uid == x.uid:
            return True
        if isinstance(t, S.Loop) and contains(t.body, x):
            return True
        if isinstance(t, S.Gate) and contains(t.then + t.els, x):
            return True
    return False


def flags(ctx, P, W, R, cmp):
    rel = P.enum('CT_RELATED')['CT_RELATED']
    WANT = [
        (lambda k, p: k == ('t', ('f', 'GrammarApplicator.dep_has_spanned')) and p, {'GrammarApplicator.dep_has_spanned'}, 'dependencies span windows'),
        (lambda k, p: k[0] == 'mask' and k[1] == ('f', 'Cohort.type') and k[2] == rel and p, {'Cohort.type', 'GrammarApplicator.has_relations'}, 'the cohort has relations'),
        (lambda k, p: k[0] == 'cmp' and k[1] == '==' and not p and 'Reading' in repr(k), {'Reading.next'}, 'sub-reading'),
    ]
    used = set()
    for (k, mask), stacks in sorted(W.bitdefs.items(), key=repr):
        its = [it for it in W.items if k[1] in getattr(it, 'locs', ())]
        rs = {u for u, x in cmp.amap.items() for it in its if x.uid == it.uid}
        fs = set()
        for g, dst in R.gate_fields.items():
            for atom in conj(g):
                if atom[0] == 'bit' and atom[2] == mask and set(atom[1]) & rs:
                    fs |= dst
        conds = [st for st in stacks]
        hit = [(i, wnt) for i, wnt in enumerate(WANT) if len(conds) == 1 and len(conds[0]) >= 1 and wnt[0](*conds[0][-1]) and all(g[0] and g[0][0] in ('true',) for g in conds[0][:-1])]
        where = its[0].where() if its else ''
        if not hit:
            ctx.check(False, 'flag', 'bit:%s' % short_key(repr(sorted(map(repr, stacks)))), where, '', 'flag bit %#x is set under a condition the reader does not restore: %s' % (mask, sorted(map(repr, stacks))[0][:120]))
            continue
        i, (f, want, what) = hit[0]
        used.add(i)
        ctx.check(want <= fs, 'flag', what, where, 'flag bit %#x: %s' % (mask, what), 'the reader does not restore from flag bit %#x that %s (restores %s)' % (mask, what, ', '.join(sorted(fs))[:100] or 'nothing'))
    for i, wnt in enumerate(WANT):
        if i not in used:
            ctx.check(False, 'flag', wnt[2], '%s:1' % 'src/BinaryApplicator.cpp', '', 'no flag bit is written for: %s' % wnt[2])


def conj(k):
    if k and k[0] == 'and':
        for x in k[1:]:
            yield from conj(x)
    else:
        yield k


def place(ctx, P, r, reading):
    ctx.saw(r)

    def ev(e):
        if e.k == 'CXXMemberCallExpr':
            fs, R = e.get('fs'), recv(e)
            if fs == 'appendReading':
                return ['reading']
            if fs == 'appendCohort':
                return ['cohort']
            if fs == 'push_back' and R is not None and any(x.k == 'MemberExpr' and x.get('m') == 'deleted' for x in R.walk()):
                return ['reading']
            if fs == 'addTagToReading' or fs == 'push_back' and R is not None and 'TagList' in R.t or fs == 'push_back' and R is not None and 'Tag *' in R.t:
                return ['tag']
        if e.k == 'BinaryOperator' and e.get('op') == '=' and strip(e.c[0]).k == 'MemberExpr' and strip(e.c[0]).get('m') == 'next' and short(strip(e.c[0]).get('mc')) == 'Reading':
            return ['reading']
        if e.k in CALLS and e.get('fs') == 'addTagToReading':
            return ['tag']
        return []
    todo = {'cohort': None, 'reading': None}
    for L in T.loops_of(r):
        own = set()
        for x in T.body_of(L).walk():
            for k in ev(x):
                if T.loop_of(x) is L:
                    own.add(k)
        for k in ('cohort', 'reading', 'tag'):
            if L.i not in reading or k not in own or k == 'tag' and ('reading' in own or 'cohort' in own):
                continue
            todo[k] = L
            got = {dict(s).get(k, 0) for s in T.iteration(r, L, lambda e: [x for x in ev(e) if x == k and T.loop_of(e) is L])}
            nm = '%s:%s' % (k, 'x') if k == 'tag' else k
            ctx.check(got == {1}, 'place', '%s:%s' % (nm, 'wread' if k == 'tag' and any(y.k == 'MemberExpr' and y.get('m') == 'wread' for y in T.body_of(L).walk()) else ''), L.where(), 'each %s read is put in its place once' % k, 'a %s that is read can be put %s' % (k, 'nowhere' if 0 in got else 'in two places'))
    for k, L in todo.items():
        if L is None:
            raise Broken('no place where a %s read from a packet is stored' % k)
    # a chain of sub-readings goes on from the last one
    prev = [n for n in r.walk() if n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]).k == 'MemberExpr' and strip(n.c[0]).get('m') == 'next' and short(strip(n.c[0]).get('mc')) == 'Reading']
    for n in prev:
        b = strip(strip(n.c[0]).c[0])
        L = T.loop_of(n)
        new = strip(n.c[1])
        if b is None or b.k != 'DeclRefExpr' or new is None or new.k != 'DeclRefExpr':
            continue
        got = {dict(s).get('p', 0) for s in T.iteration(r, L, lambda e: ['p'] if e.k == 'BinaryOperator' and e.get('op') == '=' and strip(e.c[0]).get('id') == b.get('id') and strip(e.c[1]) is not None and strip(e.c[1]).get('id') == new.get('id') else [])}
        ctx.check(got == {1}, 'place', 'chain', n.where(), 'a sub-reading hangs on the reading before it', 'a sub-reading can be hung on another reading than the one before it')


def modes(ctx, P, W, r):
    # writer
    vals = {m: P.enum(m)[m] for m in MODES}
    got = {}
    for it in W.items:
        if it.n == 1 and it.const in vals.values() and any('variables_set' in repr(g) for g in it.gates):
            st = {}
            for g, p in it.gates:
                for x, q in atoms(g, p):
                    if 'tag_any' in repr(x) and x[0] == 'cmp':
                        st['any'] = q
                    elif 'variables_set' in repr(x):
                        st['found'] = (not q) if x[0] == 'cmp' and 'end' in repr(x) else q
            got[it.const] = (st, it)
    want = {'BFV_SETVAR': {'found': True, 'any': False}, 'BFV_SETVAR_ANY': {'found': True, 'any': True}, 'BFV_REMVAR': {'found': False}}
    for m, st in want.items():
        g = got.get(vals[m])
        ctx.check(g is not None and g[0] == st, 'mode', 'w:' + m, g[1].where() if g else 'src/BinaryApplicator.cpp:1', '%s is written where the variable %s' % (m, st), '%s is not written exactly where the variable is %s (but %s)' % (m, st, g[0] if g else 'never'))
    # reader
    spec = T.enum_spec(vals)
    for m in MODES:
        spec.now = m

        def sites(n, f):
            if n.k == 'CXXMemberCallExpr' and recv(n) is not None:
                ms = [x.get('m') for x in recv(n).walk() if x.k == 'MemberExpr']
                v = ms[0] if ms else None
                if v == 'variables_rem' and n.get('fs') in ('insert', 'erase'):
                    yield 'rem.' + n.get('fs')
                elif v == 'variables_set' and n.get('fs') == 'erase':
                    yield 'set.erase'
                elif v == 'variables_output' and n.get('fs') == 'insert':
                    yield 'out'
                elif v == 'variables_set' and n.get('fs') in ('insert', 'insert_or_assign', 'emplace'):
                    yield 'set any' if any(x.k == 'MemberExpr' and x.get('m') == 'tag_any' for x in n.walk()) else 'set value'
            l = n.c[0] if n.k == 'BinaryOperator' and n.get('op') == '=' else n.c[1] if n.k == 'CXXOperatorCallExpr' and n.get('op') == '=' else None
            if l is not None and any(x.k == 'MemberExpr' and x.get('m') == 'variables_set' for x in l.walk()):
                yield 'set any' if any(x.k == 'MemberExpr' and x.get('m') == 'tag_any' for x in n.walk()) else 'set value'
        g, _ = reached(P, Model(), r, sites, lambda t: True, spec=spec)
        ctx.check(set(g) == MODES[m], 'mode', 'r:' + m, '%s:%d' % (r.file, r.line), '%s does %s' % (m, ', '.join(sorted(MODES[m]))), 'on %s the reader does %s instead of %s' % (m, ', '.join(sorted(g)) or 'nothing', ', '.join(sorted(MODES[m]))))


def atoms(k, p):
    if k and k[0] == 'not':
        yield from atoms(k[1], not p)
    elif k and (k[0] == 'and' and p or k[0] == 'or' and not p):
        for x in k[1:]:
            yield from atoms(x, p)
    else:
        yield k, p


def commands(ctx, P):
    run, wr, rp = P.fn('BinaryApplicator::runGrammarOnText'), P.fn('BinaryApplicator::printStreamCommand'), P.fn('BinaryApplicator::readPacket')
    ctx.saw(run, wr, rp)
    vals = {c: P.enum(c)[c] for c in COMMANDS}
    spec = T.enum_spec(vals)

    def cmds(n, f):
        if n.k in CALLS and n.get('fs') == 'printStreamCommand':
            for x in n.walk():
                if x.k == 'DeclRefExpr' and (x.get('d') or '').startswith('STR_CMD_'):
                    yield x.get('d')
        if n.k in CALLS and n.k == 'CXXOperatorCallExpr' and n.get('op') == '()':
            a = args(n)
            if len(a) > 1 and a[1] is not None and a[1].ev == 1:
                yield 'flush'
    for c, s in COMMANDS.items():
        spec.now = c

        class B2(spec):
            now = c

            def fold(self, n, fn):
                m = strip(n)
                if m is not None and m.k == 'BinaryOperator' and m.get('op') in ('==', '!='):
                    for x in m.c:
                        if strip(x) is not None and strip(x).k == 'DeclRefExpr' and strip(x).get('d') in PACKETS:
                            return (strip(x).get('d') == 'BFP_COMMAND') == (m.get('op') == '==')
                return spec.fold(self, n, fn)
        g, _ = reached(P, Model(), run, cmds, lambda t: True, spec=B2)
        w = {x for x in g if x.startswith('STR_')}
        ctx.check(w == {s} and ((s == 'STR_CMD_FLUSH') == ('flush' in g)), 'command', 'r:' + c, '%s:%d' % (run.file, run.line), '%s is passed on as %s' % (c, s), '%s in the stream is passed on as %s, not %s' % (c, ', '.join(sorted(w)) or 'nothing', s))

    # writer of commands
    class W2(T.ModelSpec):
        now = None

        def fold(self, n, fn):
            m = strip(n)
            if m is not None and m.k == 'CXXRewrittenBinaryOperator' and m.c:
                m = strip(m.c[0])
            if m is not None and m.k in ('CXXOperatorCallExpr', 'BinaryOperator') and m.get('op') in ('==', '!='):
                nm = {x.get('d') for x in m.walk() if x.k == 'DeclRefExpr' and (x.get('d') or '').startswith('STR_CMD_')}
                if len(nm) == 1:
                    return (nm == {W2.now}) == (m.get('op') == '==')
            return None

    def bytes_(n, f):
        if n.k in CALLS and n.get('fs') in ('writeLE', 'writeRaw', 'put', 'write'):
            for x in n.walk():
                if x.k == 'DeclRefExpr' and x.get('d') in list(COMMANDS) + list(PACKETS):
                    yield x.get('d')
        if n.k in ('BinaryOperator', 'VarDecl', 'ReturnStmt'):
            src = n.c[-1] if n.c else None
            if src is not None and (n.k != 'BinaryOperator' or n.get('op') == '='):
                for x in src.walk():
                    if x.k == 'DeclRefExpr' and x.get('d') in COMMANDS:
                        yield x.get('d')
    for c, s in COMMANDS.items():
        W2.now = s
        g, _ = reached(P, Model(), wr, bytes_, lambda t: True, spec=W2)
        w = {x for x in g if x in COMMANDS}
        ctx.check(w == {c} and 'BFP_COMMAND' in g, 'command', 'w:' + s, '%s:%d' % (wr.file, wr.line), '%s is written as %s' % (s, c), '%s is written as %s, not as %s' % (s, ', '.join(sorted(w)) or 'nothing', c))
    # kinds of packets
    pv = {p: P.enum(p)[p] for p in PACKETS}
    sp = T.enum_spec(pv)
    for p, (rd, pr) in PACKETS.items():
        sp.now = p
        g, _ = reached(P, Model(), rp, lambda n, f: [n.get('fs')] if n.k in CALLS and n.get('fs') in {x[0] for x in PACKETS.values()} else [], lambda t: True, spec=sp)
        ctx.check(set(g) == {rd}, 'command', 'packet:' + p, '%s:%d' % (rp.file, rp.line), '%s is read by %s' % (p, rd), '%s is read by %s, not %s' % (p, ', '.join(sorted(g)) or 'nothing', rd))
        f = P.fn('BinaryApplicator::' + pr)
        ctx.saw(f)
        own = {x.get('d') for n in f.walk() if n.k in CALLS and n.get('fs') in ('writeLE', 'writeRaw', 'put', 'write') for x in n.walk() if x.k == 'DeclRefExpr' and x.get('d') in PACKETS}
        ctx.check(own == {p}, 'command', 'writes:' + p, '%s:%d' % (f.file, f.line), '%s writes %s' % (pr, p), '%s writes %s, not %s' % (pr, ', '.join(sorted(own)) or 'no kind', p))
    g, _ = reached(P, Model(), run, lambda n, f: ['text'] if n.k in CALLS and n.get('fs') == 'printPlainTextLine' else [], lambda t: True, spec=type('X', (sp,), {'now': 'BFP_TEXT'}))
    ctx.check('text' in g, 'command', 'text', '%s:%d' % (run.file, run.line), 'text is passed on', 'text in the stream is not passed on')


def flush_cmd(ctx, P, w):
    for v in (True, False):
        g, _ = reached(P, Model({('SingleWindow', 'flush_after'): v}), w, lambda n, f: ['FLUSH'] if n.k in CALLS and n.get('fs') == 'printStreamCommand' and any(x.k == 'DeclRefExpr' and x.get('d') == 'STR_CMD_FLUSH' for x in n.walk()) else [], lambda t: True)
        ctx.check(('FLUSH' in g) == v, 'command', 'flush:%s' % v, '%s:%d' % (w.file, w.line), 'flush_after %s' % v, 'the flush that a window asks for is %s' % ('not written after it' if v else 'written where none was asked for'))


def header(ctx, P, W0):
    ver = P.fn('BinaryApplicator::runGrammarOnText')
    for nm in ('printSingleWindow', 'printStreamCommand', 'printPlainTextLine'):
        f = P.fn('BinaryApplicator::' + nm)
        W = T.PWalker(P, SEM, 'w')
        W.known = {p['id']: False for p in f.params if p['t'] == 'bool'}       # not only shown for debugging
        W.run(f)
        k = [('v', p['id']) for p in f.params if ('v', p['id']) in W.root]
        t = S.normalise(W.root[k[0]], W)
        g = t[0] if t else None
        ok = isinstance(g, S.Gate) and g.key == ('t', ('f', 'BinaryApplicator.header_done')) and not g.then and len(g.els) == 2 and g.els[0].lit == 'CGBF' and g.els[1].n == 4
        # set where it is written, and nowhere else
        sets = [n for n in P.fn('BinaryApplicator::' + nm).walk() if n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]).k == 'MemberExpr' and strip(n.c[0]).get('m') == 'header_done']
        fns = [x for x in W.functions if any(n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]).k == 'MemberExpr' and strip(n.c[0]).get('m') == 'header_done' for n in x.walk())]
        bad = None
        if not ok:
            bad = 'does not begin with the header where it has not been written yet'
        else:
            for x in fns:
                c0, _ = reached(P, Model({('BinaryApplicator', 'header_done'): False}), x, set_true, lambda t: True)
                if 'set' not in c0:
                    bad = 'does not note that the header has been written'
            if not fns:
                bad = 'does not note that the header has been written'
        ctx.check(bad is None, 'header', nm, '%s:%d' % (f.file, f.line), '%s writes the header once' % nm, '%s %s' % (nm, bad))
        if ok:
            v = g.els[1].const
            rv = {x.ev for n in ver.walk() if n.k == 'BinaryOperator' and n.get('op') in ('==', '!=') for x in n.c if x.ev is not None and any(y.k == 'DeclRefExpr' and 'version' in (y.get('d') or '') or y.k == 'MemberExpr' and 'version' in (y.get('m') or '') for y in n.walk())}
            if nm == 'printSingleWindow':
                ctx.check(v in rv, 'header', 'version', g.where(), 'format version %s' % v, 'the version written (%s) is not the one the reader wants (%s)' % (v, rv))


def set_true(n, f):
    if n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]).k == 'MemberExpr' and strip(n.c[0]).get('m') == 'header_done' and strip(n.c[1]) is not None and strip(n.c[1]).ev == 1:
        yield 'set'


def fit(ctx, P, fns):
    """a wider value becomes 16 bits only where a comparison has shown that it fits"""
    seen = set()
    work = list(fns)
    done = set()
    fs = []
    while work:
        f = work.pop()
        if f.id in done or f.body is None:
            continue
        done.add(f.id)
        fs.append(f)
        for n in f.walk():
            if n.k in CALLS:
                work.extend(t for t in P.targets(n) if t.is_lambda and t.file == f.file or 'writeUTF8' in t.q)
            elif n.k == 'LambdaExpr' and n.get('lam') in P.funcs:
                work.append(P.funcs[n.get('lam')])
    for f in sorted(fs, key=lambda f: (f.file, f.line, f.id)):
        for n in f.walk():
            t = (n.t or '').replace('const ', '').strip()
            x = None
            if n.k in CALLS and n.get('fs') == 'UI16' and args(n):
                x = args(n)[0]
            elif n.k in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr') and t in ('unsigned short', 'uint16_t') and n.c:
                x = n.c[0]
            elif n.k == 'VarDecl' and t in ('unsigned short', 'uint16_t') and n.c and n.c[0] is not None:
                x = n.c[0]
            if n.k == 'UnaryOperator' and n.get('op') == '++' or n.k == 'CompoundAssignOperator':
                v = strip(n.c[0])
                if v is not None and (S.width(v.t) or 4) <= 2 and 'bool' not in v.t and T.loop_of(n) is not None and not bounded(n, v) and v.k == 'DeclRefExpr' and n.get('op') != '|=':
                    ctx.check(False, 'fit', 'wrap:%s:%s' % (f.q.rsplit('::', 1)[-1], v.get('d')), n.where(), '', 'a count of %d bits starts over' % (8 * S.width(v.t)))
                continue
            if x is None or constant(x):
                continue
            y = strip(x)
            if y is None or (S.width(y.t) or 0) <= 2 and y.k not in ('CallExpr',):
                continue
            if y.k in CALLS and (S.width(y.t) or 0) <= 2:
                continue
            ids = {z.get('id') for z in y.walk() if z.k == 'DeclRefExpr' and z.get('id')}
            key = '%s:%s' % (f.q.rsplit('::', 1)[-1], ','.join(sorted(z.get('d') or '' for z in y.walk() if z.k == 'DeclRefExpr')))
            if (key, f.id) in seen:
                continue
            seen.add((key, f.id))
            ok = guarded(f, n, ids)
            ctx.check(ok, 'fit', key, n.where(), 'has been found to fit', 'written in 16 bits without a test that it fits, so what follows it cannot be read back')


def bounded(n, v):
    """the step of a loop whose condition compares the counter with something no wider"""
    L = T.loop_of(n)
    if L is None or L.k != 'ForStmt':
        return False
    for c in L.c[:-1]:
        for x in (c.walk() if c is not None else ()):
            if x.k == 'BinaryOperator' and x.get('op') in ('<', '!=', '>') and any(strip(y) is not None and strip(y).get('id') == v.get('id') for y in x.c):
                o = [strip(y) for y in x.c if strip(y) is None or strip(y).get('id') != v.get('id')]
                return bool(o) and o[0] is not None and (o[0].ev is not None or (S.width(o[0].t) or 8) <= S.width(v.t))
    return False


INTS = re.compile(r'^(const )?(u?int(8|16|32|64)_t|size_t|unsigned( (char|short|int|long))?|(signed )?char|short|int|long)( &)?$')


def wide(ctx, P, fns):
    """no number is put into a smaller variable than it came in"""
    n = 0
    seen = set()
    for f in sorted(fns, key=lambda f: (f.file, f.line, f.id)):
        if f.body is None or not f.file.endswith(('BinaryApplicator.cpp', 'GrammarApplicator.cpp')):
            continue
        for x in f.walk():
            to = src = None
            if x.k == 'UnaryOperator' and x.get('op') == '++' and strip(x.c[0]) is not None and strip(x.c[0]).k == 'DeclRefExpr' and INTS.match(strip(x.c[0]).t or ''):
                v, L = strip(x.c[0]), T.loop_of(x)
                if L is not None and S.width(v.t) < 4 and L.k == 'ForStmt' and any(y.k == 'BinaryOperator' and any(strip(z) is not None and strip(z).get('id') == v.get('id') for z in y.c) for c in L.c[:-1] if c is not None for y in c.walk()):
                    n += 1
                    ctx.check(bounded(x, v), 'wide', 'loop:%s:%s:%d' % (f.q.rsplit('::', 1)[-1], v.get('d'), sum(1 for l in T.loops_of(f) if l.i < L.i)), L.where(), '%s reaches its bound' % v.get('d'), 'the counter %s has fewer bits than what it counts up to' % v.get('d'))
                continue
            if x.k == 'VarDecl' and x.c and x.c[0] is not None and x.get('id') not in seen:
                to, src, nm = x.t, x.c[0], x.get('d') or x.get('n')
            elif x.k == 'BinaryOperator' and x.get('op') == '=':
                l = strip(x.c[0])
                to, src, nm = l.t, x.c[1], l.get('d') or l.get('m')
            elif x.k in CALLS and x.k == 'CXXOperatorCallExpr' and x.get('op') == '()':
                for t in P.targets(x):
                    for p, a in zip(t.params, args(x)[1:]):
                        if a is not None and INTS.match(p['t']) and '&' not in p['t']:
                            n += one(ctx, f, x, p['t'], a, 'argument ' + (p.get('d') or ''))
                continue
            if to is None or not INTS.match(to or ''):
                continue
            n += one(ctx, f, x, to, src, nm)
    return n


def one(ctx, f, x, to, src, nm):
    y = strip(src)
    if y is None or constant(src) or not INTS.match(y.t or ''):
        return 0
    a, b = S.width(to.replace(' &', '')), S.width(y.t.replace(' &', ''))
    if a is None or b is None:
        return 0
    ids = {z.get('id') for z in y.walk() if z.k == 'DeclRefExpr' and z.get('id')}
    ok = a >= b or guarded(f, x, ids)
    ctx.check(ok, 'wide', '%s:%s' % (short(f.q) or f.q.rsplit('::', 1)[-1], nm), x.where(), '%s holds the number' % nm, '%s has %d bytes and the number put into it %d' % (nm, a, b))
    return 1


def reads(P, f, memo, R):
    """does the helper take anything in"""
    if f.id in memo:
        return memo[f.id]
    memo[f.id] = False
    r = False
    for n in f.walk():
        if n.k == 'CXXMemberCallExpr' and n.get('fs') in ('read', 'get', 'getline'):
            r = True
        if n.k == 'CompoundAssignOperator' and n.get('op') == '+=' and strip(n.c[0]) is not None and strip(n.c[0]).k == 'DeclRefExpr' and f.is_lambda:
            r = True
        if n.k in CALLS and any(t in R.functions and reads(P, t, memo, R) for t in P.targets(n)):
            r = True
    memo[f.id] = r
    return r


def gates(ctx, P, R, r, rule='gate'):
    """what is read depends on nothing but the counts"""
    memo = {}
    ctx.saw(r)
    for n in r.walk():
        if n.k in CALLS and any(t is not r and t in R.functions and reads(P, t, memo, R) for t in P.targets(n)):
            bad = None
            for a, child in anc(n):
                if a.k == 'IfStmt' and child is not a.c[1] and child is not a.c[0]:
                    v = polarity(a.c[1])[0]
                    if v is None or v.k != 'DeclRefExpr' or not INTS.match(v.t or '') or child is not branch(a):
                        bad = a
                elif a.k in ('ConditionalOperator', 'SwitchStmt') and child is not a.c[0]:
                    bad = a
            ctx.check(bad is None, rule, 'r:%s:%d' % (args(n)[0].get('d') if args(n) and args(n)[0] is not None else n.get('fs'), sum(1 for y in r.nodes[:n.i] if y.k == n.k)), n.where(), 'read for every packet', 'a part of the packet is read only under a condition (line %d) that does not say whether it was written' % (bad.l if bad else 0))


def anc(n):
    c = n
    a = n.p
    while a is not None:
        yield a, c
        c, a = a, a.p


def polarity(c):
    """(what is tested for being there, whether the test holds when it is there)"""
    c, pol = strip(c), True
    while c is not None:
        if c.k == 'UnaryOperator' and c.get('op') == '!':
            c, pol = strip(c.c[0]), not pol
        elif c.k == 'BinaryOperator' and c.get('op') in ('!=', '>', '==') and (c.c[1].ev == 0 or strip(c.c[1]).k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr')):
            c, pol = strip(c.c[0]), pol != (c.get('op') == '==')
        elif is_call(c, 'empty') and c.k == 'CXXMemberCallExpr':
            pol = not pol
            break
        else:
            break
    return c, pol


def branch(a):
    """the branch of an if that is taken when what it tests is there"""
    if polarity(a.c[1])[1]:
        return a.c[2]
    return a.c[3] if len(a.c) > 3 and a.c[3] is not None else False


def write_gates(ctx, P, f, B, allowed, rule='gate'):
    """a repetition is written whenever there is something to repeat"""
    for L in T.loops_of(f):
        m = ranged(L)
        if not any(B.writes(x) for x in T.body_of(L).walk()):
            continue
        for a, child in anc(L):
            if a in T.loops_of(f):
                break
            if a.k == 'IfStmt' and child is not a.c[0] and child is not a.c[1]:
                nm = T.names(P, a.c[1])
                ok = any(nm == frozenset(x) for x in allowed.get(m, [])) and child is branch(a)
                ctx.check(ok, rule, 'w:%s:%s' % (m, ','.join(sorted(nm))), a.where(), 'written where there is one: %s' % m, 'each of %s is written only depending on %s' % (m, ', '.join(sorted(nm)) or 'a local condition'))


def constant(x):
    x = strip(x)
    if x is None:
        return False
    if x.ev is not None:
        return True
    if x.k == 'ConditionalOperator':
        return constant(x.c[1]) and constant(x.c[2])
    if x.k == 'BinaryOperator' and x.get('op') == '|':
        return constant(x.c[0]) and constant(x.c[1])
    return x.k in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr') and bool(x.c) and constant(x.c[0])


def guarded(f, n, ids):
    """every path to n passes the edge of a comparison that bounds the value by 65535"""
    from ..flow import block_of
    goal = None
    for b, B in f.cfg.b.items():
        if any(not isinstance(e, tuple) and any(x is n for x in e.walk()) for e in B.els):
            goal = b if goal is None or block_of(f, n) is None else block_of(f, n)[0]
    if goal is None:
        return False

    def good(B, i):
        leaf, neg = leafcond(B)
        m = leaf
        if m is None or m.k != 'BinaryOperator' or m.get('op') not in ('>', '>=', '<', '<='):
            return False
        truth = (i == 0) != neg
        a, b = strip(m.c[0]), strip(m.c[1])
        op = m.get('op')
        if a is not None and (m.c[0].ev is not None or a.ev is not None):
            a, b, op = b, a, {'>': '<', '<': '>', '>=': '<=', '<=': '>='}[op]
            lim = m.c[0].ev if m.c[0].ev is not None else b.ev
        else:
            lim = m.c[1].ev if m.c[1].ev is not None else b.ev if b is not None else None
        if lim is None or a is None:
            return False
        if not ({z.get('id') for z in a.walk() if z.k == 'DeclRefExpr'} & ids):
            return False
        if op == '>' and not truth or op == '<=' and truth:
            return lim <= 0xFFFF
        if op == '>=' and not truth or op == '<' and truth:
            return lim <= 0x10000
        return False
    seen, work = {f.cfg.entry}, [f.cfg.entry]
    while work:
        b = work.pop()
        if b == goal:
            return False
        B = f.cfg.b[b]
        if B.nr:
            continue
        for i, t in enumerate(B.succ):
            if t >= 0 and t not in seen and not (len(B.succ) == 2 and good(B, i)):
                seen.add(t)
                work.append(t)
    return True
