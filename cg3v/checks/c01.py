"""C01: the binary grammar writer and reader describe the same byte format and lose nothing."""
from ..extract import Broken
from .. import serial as S, serialcmp as C
import re
from ..ir import CALLS, args, recv, strip

SEM = {'Tag', 'Set', 'Rule', 'ContextualTest', 'Grammar', 'trie_node_t'}

# conditions under which the writer may leave a member out although it is not at its default: each with its reason
GATE_OK = {
    'Tag.variable_hash': (('T_VARIABLE', 'T_LOCAL_VARIABLE'), 'the variable hash of a tag means something only for VAR:/LVAR: tags'),
    'Tag.context_ref_pos': (('T_CONTEXT',), 'the context position of a tag means something only for _C1_.._C9_ tags'),
    'Set.name': (('ST_STATIC',), 'only static sets are looked up by name while running; names of other sets appear in messages only'),
}

# members whose zero value the grammar parser refuses
NONZERO = {
    'Grammar.mapping_prefix': 'the parser refuses an empty mapping prefix',
}

# members matching code reads that are neither in the file nor rebuilt while loading
RUNTIME_OK = {
    'Grammar.ux_stderr': 'set by the host program',
    'Grammar.ux_stdout': 'set by the host program',
    'Grammar.verbosity_level': 'set by the host program',
    'Grammar.lines': 'only for messages of the grammar parser; counts lines of grammar text',
    'Set.ff_tags': 'Grammar::addSet splits every set that mixes fail-fast and other entries and then clears the list; a set of nothing but fail-fast entries never matches with or without it',
    'Tag.dep_parent': 'only read from tags of the input stream (dependency tags #x->y are parsed from the text when met)',
    'Tag.dep_self': 'only read from tags of the input stream (dependency tags #x->y are parsed from the text when met)',
    'Grammar.cmdargs': 'host program options',
    'Grammar.total_time': 'profiling output only',
}


def reach(P, roots):
    seen, st = set(), list(roots)
    while st:
        f = st.pop()
        if f.id in seen:
            continue
        seen.add(f.id)
        for n in f.walk():
            if n.k in CALLS:
                st.extend(P.targets(n))
            elif n.k == 'LambdaExpr' and n.get('lam') in P.funcs:
                st.append(P.funcs[n.get('lam')])
            elif n.k == 'DeclRefExpr' and n.get('fid') in P.funcs:
                st.append(P.funcs[n.get('fid')])
    return seen


def leaves(n):
    """does control always leave the enclosing block after this statement?"""
    if n is None:
        return False
    if n.k in ('ContinueStmt', 'BreakStmt', 'ReturnStmt', 'GotoStmt', 'CXXThrowExpr'):
        return True
    if n.k == 'CompoundStmt':
        return any(leaves(c) for c in n.c)
    if n.k == 'IfStmt':
        return leaves(n.c[2]) and leaves(n.c[3])
    return False


def truth(n, field):
    """value of a condition given that the boolean member is true: True/False/None"""
    if n is None:
        return None
    if n.k == 'MemberExpr' and n.get('m') == field:
        return True
    if n.k == 'UnaryOperator' and n.get('op') == '!':
        v = truth(n.c[0], field)
        return None if v is None else not v
    if n.k == 'BinaryOperator' and n.get('op') in ('&&', '||'):
        a, b = truth(n.c[0], field), truth(n.c[1], field)
        if n.get('op') == '&&':
            return False if a is False or b is False else (True if a and b else None)
        return True if a or b else (False if a is False and b is False else None)
    if n.k == 'BinaryOperator' and n.get('op') in ('==', '!=') and n.c[1].ev is not None:
        v = truth(n.c[0], field)
        if v is None:
            return None
        r = (v == bool(n.c[1].ev))
        return r if n.get('op') == '==' else not r
    return None


def live(n, field):
    """nodes that can execute when the boolean member is true"""
    if n is None:
        return
    yield n
    if n.k == 'IfStmt':
        v = truth(n.c[1], field)
        for i, c in enumerate(n.c):
            if (i == 2 and v is False) or (i == 3 and v is True):
                continue
            yield from live(c, field)
        return
    if n.k == 'ConditionalOperator':
        v = truth(n.c[0], field)
        yield from live(n.c[0], field)
        if v is not False:
            yield from live(n.c[1], field)
        if v is not True:
            yield from live(n.c[2], field)
        return
    if n.k == 'CompoundStmt':
        for c in n.c:
            yield from live(c, field)
            if c is not None and (leaves(c) or (c.k == 'IfStmt' and ((truth(c.c[1], field) is True and leaves(c.c[2])) or (truth(c.c[1], field) is False and leaves(c.c[3]))))):
                return
        return
    for c in n.c:
        yield from live(c, field)


def reach_live(P, roots, field):
    seen, st = set(), list(roots)
    while st:
        f = st.pop()
        if f.id in seen:
            continue
        seen.add(f.id)
        for n in live(f.body, field):
            if n.k in CALLS:
                st.extend(P.targets(n))
            elif n.k == 'LambdaExpr' and n.get('lam') in P.funcs:
                st.append(P.funcs[n.get('lam')])
    return seen


def base_field(n):
    while n is not None:
        if n.k == 'MemberExpr':
            if n.get('dk') == 'Field' and n.get('m') not in ('first', 'second'):
                return '%s.%s' % (n.get('mc'), n.get('m'))
            n = n.c[0] if n.c else None
        elif n.k in ('ArraySubscriptExpr', 'UnaryOperator', 'CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXStaticCastExpr') and n.c:
            n = n.c[0]
        elif n.k == 'CXXOperatorCallExpr' and n.get('op') in ('[]', '*', '->'):
            n = n.c[1]
        else:
            return None
    return None


MUT = ('insert', 'push_back', 'emplace', 'emplace_back', 'resize', 'assign', 'swap', 'reset', 'operator=', 'append', 'push_front')


def direct_writes(P, f, nodes=None):
    """members a function itself assigns or fills"""
    out = set()
    for n in (f.walk() if nodes is None else nodes):
        t = None
        if n.k == 'BinaryOperator' and n.get('op') == '=':
            t = base_field(n.c[0])
        elif n.k == 'CompoundAssignOperator':
            t = base_field(n.c[0])
        elif n.k == 'UnaryOperator' and n.get('op') in ('++', '--', '&'):
            t = base_field(n.c[0])
        elif n.k == 'CXXOperatorCallExpr' and n.get('op') in ('=', '|=', '+=', '&=', '<<'):
            t = base_field(n.c[1])
        elif n.k == 'CXXOperatorCallExpr' and n.get('op') == '[]':
            t = base_field(n.c[1])
        elif n.k == 'CXXMemberCallExpr' and n.get('fs') in MUT:
            t = base_field(recv(n))
        if t:
            out.add(t)
        # passed by non-const reference
        if n.k in CALLS and n.get('fid') in P.funcs:
            g = P.funcs[n.get('fid')]
            a = n.c[1:] if n.k != 'CXXConstructExpr' else n.c
            for p, x in zip(g.params, a):
                if x is not None and '&' in p['t'] and not p['t'].startswith('const '):
                    t = base_field(x)
                    if t:
                        out.add(t)
    return out


def rebuilt(P, roots):
    """members set by the loader on the object it has in hand: the functions themselves, and methods called on grammar
    objects, as far as those write to their own object"""
    out = set()
    seen = set()

    def this_writes(f, d):
        if f.id in seen or d > 4:
            return
        seen.add(f.id)
        for x in direct_writes(P, f):
            if f.cls and x.split('.')[0] == f.cls:
                out.add(x)
        for n in f.walk():
            if n.k == 'CXXMemberCallExpr' and n.get('fid') in P.funcs:
                r = recv(n)
                if r is not None and r.k == 'CXXThisExpr':
                    this_writes(P.funcs[n.get('fid')], d + 1)
    for f in roots:
        out |= direct_writes(P, f)
        for n in f.walk():
            if n.k == 'CXXMemberCallExpr' and n.get('fid') in P.funcs:
                g = P.funcs[n.get('fid')]
                if g.cls in SEM:
                    this_writes(g, 0)
    return out


def strip_not(k, p=True):
    return (k[1], not p) if k and k[0] == 'not' else (k, p)


def bounded(gates, field, n):
    """is a write of `field` into n bytes guarded by a comparison that says the value fits?"""
    lim = 1 << (8 * n)

    def atoms(k, p):
        k, p = strip_not(k, p)
        if k and k[0] == 'and' and p:
            for x in k[1:]:
                yield from atoms(x, True)
        elif k and k[0] == 'or' and not p:
            for x in k[1:]:
                yield from atoms(x, False)
        else:
            yield k, p
    for g in gates:
        for k, p in atoms(g[0], g[1]):
            if not k or k[0] != 'cmp' or k[1] not in ('>', '>='):
                continue
            op, a, b = k[1], k[2], k[3]
            if a == ('f', field) and b[0] == 'c' and not p:
                if (op == '>=' and b[1] <= lim) or (op == '>' and b[1] < lim):
                    return True
            if b == ('f', field) and a[0] == 'c' and p:
                if (op == '>=' and a[1] < lim) or (op == '>' and a[1] <= lim):
                    return True
    return False


def check(ctx):
    P = ctx.P
    ctx.rule('layout', 'every byte sequence the writer emits is consumed by the reader in the same order with the same width', 80)
    ctx.rule('flag', 'every presence bit is set under exactly the condition under which the data is written, and tested by the reader for exactly that data', 40)
    ctx.rule('member', 'the member a value is taken from is the member the reader stores it in', 40)
    ctx.rule('count', 'every repetition is read as often as the count written for it says', 10)
    ctx.rule('narrow', 'a value is written or read in fewer bytes than its member has only where a comparison shows that it fits', 3)
    ctx.rule('gate', 'a member is left out of the file only when it has the value a freshly loaded object has', 20)
    ctx.rule('exact', 'between a member and its bytes there is no arithmetic, and what was read is stored under no further condition', 60)
    ctx.rule('order', 'a list comes back from the file in the order it had', 5)
    ctx.rule('complete', 'every grammar member the disambiguation engine reads is in the file or rebuilt while loading', 50)
    w = [f for f in P.fns('BinaryGrammar::writeBinaryGrammar')][0]
    W = S.Walker(P, SEM, 'w')
    W.run(w)
    rs = [f for f in P.fns('BinaryGrammar::parse_grammar') if 'istream' in f.params[0]['t']]
    if len(rs) != 1 or len(W.items) < 100:
        raise Broken('writer or reader of the binary grammar not recognised')
    consts = [it.const for it in W.items[:2]]
    R = S.Walker(P, SEM, 'r', consts=consts)
    R.run(rs[0])
    ctx.saw(*W.functions)
    ctx.saw(*R.functions)
    wt = S.normalise(W.root[('v', w.params[0]['id'])], W)
    rt = S.normalise(R.root[('v', rs[0].params[0]['id'])], R)

    def sink(kind, key, where, msg):
        if msg:
            ctx.bad(kind, key, where, msg)
        else:
            ctx.ok(kind, where, key)
    alias = {'Grammar.num_tags': 'Grammar.single_tags_list'}
    cmp = C.Cmp(W, R, SEM, sink, alias=alias)
    cmp.seq(wt, rt)
    cmp.leftovers()

    # --- narrowing
    def fwidth(f):
        cls, m = f.split('.')
        if cls not in P.records:
            return None
        for x in P.fields(cls):
            if x['d'] == m:
                return S.width(x['t']) or (4 if 'KEYWORDS' in x['t'] else None)
        return None
    for it in W.items:
        if it.n and getattr(it, 'w', None) and it.w > 8 * it.n and not it.size and it.const is None:
            fs = [f for f in it.srcs if f.split('.')[0] in SEM and (fwidth(f) or 0) > it.n]
            if not fs or set(fs) <= {'Grammar.num_tags'}:
                continue
            for f in fs:
                ctx.check(bounded(it.gates, f, it.n), 'narrow', 'w:%s' % f, it.where(), '%s written in %d byte(s) under a fitting bound' % (f, it.n),
                          '%s (%d bytes) is written in %d byte(s) without a test that it fits' % (f, fwidth(f), it.n))
    for n, v, w, gates in W.narrowed:
        fs = sorted(f for f in v.srcs if f.split('.')[0] in SEM and (fwidth(f) or 0) > w)
        for f in fs:
            if f == 'Grammar.num_tags':
                continue
            ctx.check(bounded(gates, f, w), 'narrow', 'cast:%s' % f, n.where(), '%s converted to %d byte(s) under a fitting bound' % (f, w),
                      '%s (%d bytes) is converted to %d byte(s) before it is written, without a test that it fits' % (f, fwidth(f), w))
    part = {}
    for it in W.items:
        fs = [f for f in it.srcs if f.split('.')[0] in SEM and fwidth(f)]
        if len(fs) == 1 and isinstance(it.n, int) and not it.size and it.const is None and it.w and it.w < 8 * fwidth(fs[0]):
            part.setdefault(fs[0], []).append(it)
    for f, its in sorted(part.items()):
        if fwidth(f) == 1 or f == 'Tag.comparison_val' or any(it.n >= fwidth(f) for it in its):
            continue
        got = sum(it.n for it in its)
        ctx.check(got >= fwidth(f), 'narrow', 'parts:%s' % f, its[0].where(), '%s written in parts of %d bytes in all' % (f, got),
                  '%s (%d bytes) is written in parts of only %d byte(s)' % (f, fwidth(f), got))
    for it in R.items:
        for f, ws in it.rw.items():
            if isinstance(it.n, int) and f.split('@')[0].split('.')[0] in SEM:
                fw = fwidth(f.split('@')[0])
                if fw is None:
                    continue
                need = 8 * min(it.n, fw)
                ctx.check(min(ws) >= need, 'narrow', 'r:%s' % f, it.where(), '%s read through %d bits' % (f, min(ws)),
                          '%s is read from %d byte(s) but squeezed through %d bits' % (f, it.n, min(ws)))

    exact(ctx, W, R, cmp, alias)
    order(ctx, P, W, R)

    # --- gating conditions versus class defaults
    masks = {}
    for f, (ms, why) in GATE_OK.items():
        v = 0
        for m in ms:
            v |= P.enum(m)[m]
        masks[f] = v

    def deflt(f):
        cls, m = f.split('.')
        for x in P.fields(cls) if cls in P.records else ():
            if x['d'] == m:
                if 'iv' in x:
                    return x['iv']
                if x.get('union'):
                    return 0
                return 0 if not S.width(x['t']) else None     # containers and strings start out empty
        return None

    def okgate(k, p, f):
        """is `condition k has polarity p` implied for every non-default value of f?"""
        k, p = strip_not(k, p)
        if not k:
            return True
        if k[0] == 't' and p and k[1] and k[1][0] == 'f':
            return cmp.al.get(k[1][1], k[1][1]) == f
        if k[0] == 'or' and p:
            return any(okgate(x, True, f) for x in k[1:])
        return False
    done = set()
    for it in W.items:
        fs = {alias.get(f, f) for f in it.srcs if f.split('.')[0] in SEM}
        for f in fs:
            own = [(k, p) for k, p in it.gates if f in {alias.get(x, x) for x in C.key_fields(k)}]
            hit = [g for g in own if okgate(g[0], g[1], f)]
            for k0, p0 in own:
                for k, p in conj(k0, p0):
                    if f not in {alias.get(x, x) for x in C.key_fields(k)} or okgate(k, p, f) or ('own', f, k, p) in done:
                        continue
                    done.add(('own', f, k, p))
                    ctx.check(complement_written(W, it, {f}, k0, p0) or strip_not(k, p)[0][0] == 'mask', 'gate', 'own:' + f, it.where(), '%s written on both branches of a test of its value' % f,
                              '%s is written only under a test of its value that is not "has any value at all"' % f)
            if hit and (f, hit[0][0]) not in done:
                done.add((f, hit[0][0]))
                d = deflt(f)
                ctx.check(d == 0 or f in NONZERO, 'gate', 'default:' + f, it.where(), '%s omitted when zero/empty, and that is its initial value' % f if f not in NONZERO else NONZERO[f],
                          '%s is left out of the file when zero, but a new object starts with another value' % f)
    # a gate that mentions another member of the same class hides the member for some values
    for it in W.items:
        fs = {alias.get(f, f) for f in it.srcs if f.split('.')[0] in SEM}
        if not fs or it.size:
            continue
        cl = {f.split('.')[0] for f in fs}
        for k0, p0 in it.gates:
            for k, p in conj(k0, p0):
                kf = {alias.get(x, x) for x in C.key_fields(k)}
                kf = {x for x in kf if x.split('.')[0] in cl}
                if not kf or (kf & fs):
                    continue
                key = '%s?%s' % (','.join(sorted(fs)), ','.join(sorted(kf)))
                if (key, p) in done:
                    continue
                done.add((key, p))
                why = None
                kk, pp = strip_not(k, p)
                if kk[0] == 'mask':
                    bits = kk[2]
                    same = sorted(f for f in fs if f.split('.')[0] in {x.split('.')[0] for x in kf})
                    if pp and all(f in masks and bits & masks[f] == masks[f] for f in same):
                        why = '; '.join(GATE_OK[f][1] for f in same)
                if why is None and complement_written(W, it, fs, k0, p0):
                    why = 'the other branch writes it as well'
                if why is None and branch_const(kk):
                    why = 'format selection'
                ctx.check(why is not None, 'gate', key, it.where(), '%s written under a condition on %s: %s' % (','.join(sorted(fs)), ','.join(sorted(kf)), why),
                          '%s is written only under a condition on %s, so its value is lost otherwise' % (','.join(sorted(fs)), ','.join(sorted(kf))))

    # --- completeness
    roots = [f for f in P.funcs.values() if f.cls and f.cls.endswith('Applicator') and not f.ctor]
    if len(roots) < 50:
        raise Broken('disambiguation engine classes not found')
    app = reach(P, roots)
    reads = {}
    for fid in app:
        f = P.funcs[fid]
        for n in f.walk():
            if n.k == 'MemberExpr' and n.get('dk') == 'Field' and n.get('mc') in SEM:
                p = n.p
                if p is not None and ((p.k == 'BinaryOperator' and p.get('op') == '=' and p.c[0] is n) or (p.k == 'CXXOperatorCallExpr' and p.get('op') == '=' and p.c[1] is n)):
                    continue
                reads.setdefault('%s.%s' % (n.get('mc'), n.get('m')), []).append(n)
    ctx.saw(*[P.funcs[i] for i in app])
    ser = set()
    for raw in cmp.amap.values():
        ser |= {alias.get(x, x) for x in raw.srcs if x.split('.')[0] in SEM}
    for its, fs in R.bitdest.items():
        ser |= set(fs)
    wf = rebuilt(P, [f for f in R.functions if f.cls == 'BinaryGrammar' or not f.cls])
    ri = P.fn('Grammar::reindex')
    wfr = set()
    # only what happens for a grammar loaded from binary form counts
    for fid in reach_live(P, [ri], 'is_binary'):
        wfr |= direct_writes(P, P.funcs[fid], live(P.funcs[fid].body, 'is_binary'))
    ctx.selftest(len(list(live(ri.body, 'is_binary'))) < len(list(ri.body.walk())), 'branches for textual grammars are pruned')
    for m in sorted(reads):
        how = None
        if m in ser:
            how = 'in the file'
        elif m in wf:
            how = 'set by the loader'
        elif m in wfr:
            how = 'rebuilt by indexing'
        elif m in RUNTIME_OK:
            how = 'exempt: ' + RUNTIME_OK[m]
        ctx.check(how is not None, 'complete', m, reads[m][0].where(), '%s: %s' % (m, how),
                  '%s decides matching here, but a grammar loaded from binary form never gets it' % m)
    ctx.assumptions += ['the interpretation inlines every function that touches a stream and walks loops once',
                        'ICU converts text to UTF-8 and back without loss',
                        'the loader branch for format revisions older than the current one is not analysed']


# members whose bytes are an encoding of the value, with the operations either side may use for it
ENCODED = {
    'Tag.comparison_val': {'*', '/', 'frexp', 'ldexp', 'max', 'min'},      # a floating point number as mantissa and exponent
    'Rule.sub_reading': {'abs', 'neg', '~', '|', '&', '^'},                # sign bit and magnitude; the sign bit itself is checked by the rule flag
}


def exact(ctx, W, R, cmp, alias):
    """no arithmetic between a member and its bytes, no condition between the bytes and the member"""
    parts = {}
    for it in W.items:
        fs = [f for f in it.srcs if f.split('.')[0] in SEM]
        if len(fs) and isinstance(it.n, int):
            for f in fs:
                parts.setdefault(f, []).append(it)

    def plain(ops, n, shift, enc):
        for op, c in ops:
            if op == 'call':
                if c not in enc:
                    return 'passed through %s()' % c
            elif op == '&' and c is not None and n and (c & ((1 << (8 * n)) - 1)) == (1 << (8 * n)) - 1:
                continue
            elif op in ('<<', '>>') and c is not None and c in shift:
                continue
            elif op == '|' and c is None and shift:
                continue
            elif op == '+' and c is None and shift and any(o in ('<<', '>>') for o, x in ops):
                continue
            elif op in enc:
                continue
            else:
                return 'changed by %s%s' % (op, ' %d' % c if c is not None else '')
        return None
    for it in W.items:
        fs = sorted(f for f in it.srcs if f.split('.')[0] in SEM)
        if not fs or it.const is not None:
            continue
        enc = set().union(*[ENCODED.get(f, set()) for f in fs])
        sh = {8 * o.n for f in fs for o in parts.get(f, ()) if o is not it and f not in ('Grammar.contexts', 'Grammar.sets_list', 'Grammar.rule_by_number', 'Grammar.single_tags_list')} if isinstance(it.n, int) else set()
        bad = plain(getattr(it, 'ops', ()), it.n if isinstance(it.n, int) else None, sh, enc)
        ctx.check(bad is None, 'exact', 'w:' + ','.join(fs), it.where(), '%s written as it is' % ','.join(fs), '%s is %s before it is written' % (','.join(fs), bad))
    boolean = set()
    for (its, m), fs in R.bitdest.items():
        boolean |= set(fs)
    for f, ops, its, gates in R.destops:
        if f in boolean:
            continue
        n = max([R.items[i].n for i in its if isinstance(R.items[i].n, int)] or [0])
        sh = {8 * R.items[i].n for i in its if isinstance(R.items[i].n, int)}
        bad = plain(ops, n, sh, ENCODED.get(f, set()))
        ctx.check(bad is None, 'exact', 'r:' + f, R.items[max(its)].where(), '%s stored as it was read' % f, '%s is %s after it was read' % (f, bad))
        # conditions on storing that were not conditions on reading
        rd = set()
        for i in its:
            rd |= set(getattr(R.items[i], 'gates', ()))
        for k0, p0 in gates:
            if (k0, p0) in rd:
                continue
            for k, p in conj(k0, p0):
                ok = k[0] == 'bit' or k[0] == 't' and p and k[1] and k[1][0] == 'in'
                if k[0] == 'cmp':
                    vals = [x for x in k[2:] if isinstance(x, tuple)]
                    ok = any(x == ('c', 0) for x in vals) and any(x and x[0] == 'in' for x in vals) and p == (k[1] != '==') or any('size' in repr(x) for x in vals)
                if not ok:
                    b2, q2 = strip_not(k0, p0)
                    ok = any(strip_not(k2, p2)[0] == b2 and strip_not(k2, p2)[1] != q2 for f2, o2, i2, g2 in R.destops if f2 == f for k2, p2 in g2)
                ctx.check(ok, 'exact', 'stored:' + f, R.items[max(its)].where(), '%s stored whenever it was read' % f,
                          '%s is read but then stored only under a further condition' % f)
        if f.endswith(('_reverse@first', '_reverse@second')):
            c = f.split('@')[1]
            other = 'pair.second' if c == 'first' else 'pair.first'
            srcs = set()
            for i in its:
                w = cmp.amap.get(i)
                srcs |= set(w.srcs) if w is not None else set()
            if srcs:
                ctx.check(other in srcs, 'exact', 'rev:' + f, R.items[max(its)].where(), 'the reverse map is the map turned round', '%s of the reverse map is not the %s component of what was written' % (f, other[5:]))


def order(ctx, P, W, R):
    """a list comes back in the order it had: what the reader inserts at the front the writer must have turned round"""
    def fieldarg(n):
        return '%s.%s' % (n.get('mc'), n.get('m')) if n is not None and n.k == 'MemberExpr' and n.get('dk') == 'Field' and n.get('mc') in SEM else None

    def uses(fns, names):
        out = {}
        # which members the parameters of functions and lambdas stand for
        pm = {}
        ch = True
        while ch:
            ch = False
            for f in fns:
                for n in f.walk():
                    if n.k not in CALLS:
                        continue
                    for t in P.targets(n):
                        a_ = args(n)
                        if n.k == 'CXXOperatorCallExpr' and n.get('op') == '()' and len(a_) == len(t.params) + 1:
                            a_ = a_[1:]
                        for p, a in zip(t.params, a_):
                            a = strip(a) if a is not None else None
                            if a is None or '&' not in p['t']:
                                continue
                            new = {fieldarg(a)} if fieldarg(a) else pm.get(a.get('id'), set()) if a.k == 'DeclRefExpr' else set()
                            if new - pm.get(p['id'], set()):
                                pm.setdefault(p['id'], set()).update(new)
                                ch = True
        for f in fns:
            for n in f.walk():
                if n.k not in CALLS:
                    continue
                if n.get('fs') in names:
                    x = fieldarg(strip(recv(n))) if recv(n) is not None else None
                    if x:
                        out.setdefault(x, []).append(n)
                    continue
                for t in P.targets(n):
                    if t.body is None or t in fns or len(t.nodes) > 120:
                        continue
                    for m in t.walk():
                        if m.k in CALLS and m.get('fs') in names and recv(m) is not None:
                            r = strip(recv(m))
                            if fieldarg(r):
                                out.setdefault(fieldarg(r), []).append(n)
                            elif r is not None and r.k == 'DeclRefExpr':
                                for x in pm.get(r.get('id'), ()):
                                    out.setdefault(x, []).append(n)
        return out
    front = uses(R.functions, ('push_front', 'emplace_front'))
    turned = uses(W.functions, ('reverse',))
    back = uses(W.functions, ('rbegin', 'crbegin'))
    seq = set()
    for it in W.items:
        for f in it.srcs:
            cls, m = f.split('.') if '.' in f else (None, None)
            if cls in SEM and cls in P.records:
                for x in P.fields(cls):
                    if x['d'] == m and re.search(r'ContextList|std::(__cxx11::)?(list|vector|deque)|Vector', x['t']):
                        seq.add(f)
    for f in sorted(seq):
        k = (1 if front.get(f) else 0) + len(turned.get(f, ())) + (1 if back.get(f) else 0)
        at = (turned.get(f) or front.get(f) or back.get(f) or [None])[0]
        ctx.check(k % 2 == 0, 'order', f, at.where() if at is not None else '', '%s comes back in the order it had' % f,
                  '%s comes back from the file in the opposite order' % f)


def conj(k, p):
    k, p = strip_not(k, p)
    if k and k[0] == 'and' and p:
        for x in k[1:]:
            yield from conj(x, True)
    elif k and k[0] == 'or' and not p:
        for x in k[1:]:
            yield from conj(x, False)
    else:
        yield k, p


def complement_written(W, it, fs, k, p):
    base, pol = strip_not(k, p)
    for o in W.items:
        if o is it or not (fs & o.srcs):
            continue
        for k2, p2 in o.gates:
            b2, q2 = strip_not(k2, p2)
            if b2 == base and q2 != pol:
                return True
    return False


def branch_const(k):
    return k[0] == 'c'
