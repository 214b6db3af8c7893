"""C24: what a grammar refers to is followed everywhere: when it is marked as used, numbered, indexed and ordered."""
from ..extract import Broken
from ..ir import CALLS, args, recv, strip
from ..model import short
from ..slices import Slicer
from ..flow import contains

# conditions that may decide whether a reference is followed, besides the reference itself
FLAGS = {('Grammar', 'is_binary'), ('ContextualTest', 'is_used'), ('Set', 'type')}

# (starting function, sink, members that reach the sink)
MARK = ('markUsed',)
FOLLOW = (
    ('Grammar::reindex', 'Set::markUsed', (('Grammar', 'static_sets'), ('Grammar', 'delimiters'), ('Grammar', 'soft_delimiters'), ('Grammar', 'text_delimiters'),
                                           ('Tag', 'vs_sets'), ('Rule', 'target'), ('Rule', 'childset1'), ('Rule', 'childset2'), ('Rule', 'maplist'), ('Rule', 'sublist')), 'used'),
    ('Grammar::reindex', 'ContextualTest::markUsed', (('Rule', 'dep_target'), ('Rule', 'tests'), ('Rule', 'dep_tests')), 'used'),
    ('Grammar::reindex', 'Tag::markUsed', (('Grammar', 'parentheses'), ('Grammar', 'preferred_targets')), 'used'),
    ('ContextualTest::markUsed', 'Set::markUsed', (('ContextualTest', 'target'), ('ContextualTest', 'barrier'), ('ContextualTest', 'cbarrier')), 'used'),
    ('ContextualTest::markUsed', 'ContextualTest::markUsed', (('ContextualTest', 'tmpl'), ('ContextualTest', 'ors'), ('ContextualTest', 'linked')), 'used'),
    ('Set::markUsed', 'Tag::markUsed', (('Set', 'trie'), ('Set', 'trie_special'), ('Set', 'ff_tags')), 'used'),
    ('Set::markUsed', 'Set::markUsed', (('Set', 'sets'),), 'used'),
    ('Grammar::reindex', 'Grammar::contextAdjustTarget', (('Rule', 'dep_target'), ('Rule', 'tests'), ('Rule', 'dep_tests')), 'numbered'),
    ('Grammar::contextAdjustTarget', 'Grammar::contextAdjustTarget', (('ContextualTest', 'tmpl'), ('ContextualTest', 'ors'), ('ContextualTest', 'linked')), 'numbered'),
    ('Grammar::reindex', 'Grammar::setAdjustSets', (('Grammar', 'sets_list'),), 'numbered'),
    ('Grammar::setAdjustSets', 'Grammar::setAdjustSets', (('Set', 'sets'),), 'numbered'),
    ('Grammar::reindex', 'Grammar::indexSets', (('Grammar', 'sets_list'),), 'indexed'),
    ('Grammar::reindex', 'Grammar::indexSetToRule', (('Rule', 'target'),), 'indexed'),
    ('Grammar::indexSetToRule', 'Grammar::indexTagToRule', (('Set', 'trie'), ('Set', 'trie_special')), 'indexed'),
    ('Grammar::indexSetToRule', 'Grammar::indexSetToRule', (('Set', 'sets'),), 'indexed'),
    ('Grammar::indexSets', 'Grammar::indexTagToSet', (('Set', 'trie'), ('Set', 'trie_special')), 'indexed'),
    ('Grammar::indexSets', 'Grammar::indexSets', (('Set', 'sets'),), 'indexed'),
    ('Grammar::reindex', 'Set::reindex', (('Grammar', 'sets_list'),), 'kinds'),
    ('Set::reindex', 'Set::reindex', (('Set', 'sets'),), 'kinds'),
)
# (starting function, member that gets the number of the set it names)
NUMBERED = (
    ('Grammar::contextAdjustTarget', (('ContextualTest', 'target'), ('ContextualTest', 'barrier'), ('ContextualTest', 'cbarrier'))),
    ('Grammar::reindex', (('Rule', 'target'), ('Rule', 'childset1'), ('Rule', 'childset2'))),
    ('Grammar::setAdjustSets', (('Set', 'sets'),)),
)


def check(ctx):
    P = ctx.P
    ctx.rule('used', 'whatever a used rule, test or set refers to is marked as used', 15)
    ctx.rule('numbered', 'every reference to a set by its hash is replaced by its number', 8)
    ctx.rule('indexed', 'every tag of a set, and of the sets it is made of, is indexed', 5)
    ctx.rule('kinds', 'a set is special, unifying or mapping when a tag or a set in it is', 6)
    ctx.rule('order', 'tests of rules that use unification or varstrings anywhere keep their order', 10)
    ctx.rule('entries', 'a walk over the tags of a set goes down into every entry', 8)
    ctx.rule('replaced', 'a test that is replaced by another is replaced wherever it is referred to', 6)
    ctx.rule('path', 'the tags collected on the way down are those of the entry: what is put on is taken off again', 3)
    ctx.saw(*{P.fn(x[0]) for x in FOLLOW})
    S = Slicer(P, lambda f: f.file.startswith(('src/', 'include/')) and f.q != 'Grammar::getSet')
    for root, sink, members, rule in FOLLOW:
        follow(ctx, P, S, root, sink, members, rule)
    marks(ctx, P, S)
    for root, members in NUMBERED:
        numbered(ctx, P, S, root, members)
    anytag(ctx, P, S)
    kinds(ctx, P, S)
    order(ctx, P, S)
    tries(ctx, P, S)
    replaced(ctx, P, S)


def fields(at):
    return {(a[1], a[2]) for a in at if a[0] == 'f'}


def name(m):
    return '%s::%s' % m


def used_nodes(n):
    """the parts of a call that say what it is about"""
    r = recv(n)
    return ([r] if r is not None else []) + [a for a in args(n) if a is not None]


def sink_sites(S, root, sink):
    want = lambda n: n.k in CALLS and (n.get('fn') or '') == sink
    return S.sites(root, want, stop=lambda t: t.q == sink)


def about(S, n, f, ch, skip=()):
    at = set()
    for x in used_nodes(n):
        at |= S.atoms(x, f, ch)
    return at


def selective(S, n, f, ch, own, rule='used'):
    """conditions that keep n from being executed, other than on what it is about"""
    res = []
    for l, v, g, c in S.all_conds(n, f, ch):
        at = S.atoms(l, g, c)
        fl = fields(at)
        extra = {x for x in fl if x not in own and x not in FLAGS and x[0] not in ('pair', 'iterator_range')}
        if ('Set', 'type') in fl and rule != 'indexed' and (rule == 'kinds' or mask(l) & ~sum(S.P.enum('ST_USED', 'ST_STATIC').get(x, 0) for x in ('ST_USED', 'ST_STATIC'))):
            extra.add(('Set', 'type'))
        if extra:
            res.append((l, g, 'depends on %s' % ', '.join(sorted(name(x) for x in extra))))
            continue
        if not fl & FLAGS:
            odd = sorted(a[1] for a in at if a[0] == 'lit' and a[1] not in (0, None, '0', False, 'false', True, 'true'))
            if odd:
                res.append((l, g, 'compares with %s' % odd[0]))
                continue
        if any(a[0] in ('p', 'g', 'v') for a in at) and not fl:
            res.append((l, g, 'depends on %s' % ', '.join(sorted(str(a[1]) for a in at if a[0] in ('p', 'g', 'v')))))
    return res


def loop_ends(S, n, f, ch):
    """a loop around n that never comes round again"""
    for x, g in [(n, f)] + [(c, h) for c, h in ch]:
        m = x
        for a in x.ancestors():
            if a.k in ('CXXForRangeStmt', 'ForStmt', 'WhileStmt', 'DoStmt') and a.c and contains([c for c in a.c if c is not None][-1 if a.k != 'DoStmt' else 0], x):
                p = S.at(g, x)
                if p is None:
                    continue
                seen, work = set(), [p[0]]
                while work:
                    b = work.pop()
                    if g.cfg.b[b].nr:
                        continue
                    for s in g.cfg.b[b].succ:
                        if s >= 0 and s not in seen:
                            seen.add(s)
                            work.append(s)
                if p[0] not in seen:
                    return a
    return None


def judge(ctx, S, rule, key, sites, what, good, f):
    """one of the sites must be reached for every reference"""
    why = None
    for n, g, ch, own in sites:
        bad = selective(S, n, g, ch, own, rule)
        end = loop_ends(S, n, g, ch)
        if not bad and end is None:
            ctx.check(True, rule, key, n.where(), good, '')
            return
        if why is None:
            why = (n, '%s, but whether it is %s' % (what, bad[0][2] + ' (' + bad[0][0].where() + ')') if bad else '%s, but only for the first one (%s)' % (what, end.where()))
    if why is None:
        ctx.check(False, rule, key, '%s:%d' % (f.file, f.line), '', '%s: not done in %s' % (what, f.q))
    else:
        ctx.check(False, rule, key, why[0].where(), '', why[1])


def follow(ctx, P, S, root, sink, members, rule):
    f = P.fn(root)
    P.fn(sink)
    ss = []
    for n, g, ch in sink_sites(S, f, sink):
        ss.append((n, g, ch, about(S, n, g, ch)))
    if not ss:
        raise Broken('%s does not get to %s' % (root, sink))
    for m in members:
        sites = [(n, g, ch, fields(at)) for n, g, ch, at in ss if m in fields(at)]
        judge(ctx, S, rule, '%s/%s' % (root, name(m)), sites, '%s has to reach %s' % (name(m), sink), '%s reaches %s' % (name(m), sink), f)
    if ('Grammar', 'parentheses') in members:
        for part in ('first', 'second'):
            sites = [(n, g, ch, fields(at)) for n, g, ch, at in ss if ('Grammar', 'parentheses') in fields(at) and half(n, part)]
            judge(ctx, S, rule, '%s/Grammar::parentheses.%s' % (root, part), sites, 'the %s tags of PARENTHESES have to reach %s' % ('left' if part == 'first' else 'right', sink), 'reach %s' % sink, f)


def half(n, part):
    r = recv(n)
    ms = [m.get('m') for m in r.walk() if m.k == 'MemberExpr' and m.get('dk') == 'Field' and short(m.get('mc')) == 'pair'] if r is not None else []
    return not ms or part in ms


def marks(ctx, P, S):
    """the functions that mark really do"""
    for q, m, bits in (('Tag::markUsed', 'type', 'T_USED'), ('Set::markUsed', 'type', 'ST_USED'), ('ContextualTest::markUsed', 'is_used', None)):
        f = P.fn(q)
        cls = q.split('::')[0]
        v = P.enum(bits)[bits] if bits else 1
        ok = None
        for n in f.walk():
            if n.k in ('CompoundAssignOperator', 'BinaryOperator') and n.get('op') in ('=', '|='):
                t = strip(n.c[0])
                if t is not None and t.k == 'MemberExpr' and t.get('m') == m:
                    r = strip(n.c[1])
                    ev = r.ev
                    if r.k == 'CXXBoolLiteralExpr':
                        ev = 1 if str(r.get('v')) in ('1', 'True', 'true') or r.ev == 1 else 0
                    if ev is None:
                        ev = max([x.ev for x in r.walk() if x.ev is not None] or [0])
                    if ev & v:
                        bad = selective(S, n, f, (), {(cls, m)})
                        ok = ok or not bad
        ctx.check(bool(ok), 'used', q + '/mark', '%s:%d' % (f.file, f.line), 'sets %s' % m, '%s does not always set %s%s' % (q, m, ' to ' + bits if bits else ''))


def assigns(S, f, pred):
    """assignments in f and its helpers"""
    want = lambda n: (n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('op') in ('=', '|=') or n.k == 'CXXOperatorCallExpr' and n.get('fs') == 'operator=') and pred(n)
    return S.sites(f, want, depth=3)


def lhs(n):
    return strip(n.c[1] if n.k == 'CXXOperatorCallExpr' else n.c[0])


def rhs(n):
    return n.c[2] if n.k == 'CXXOperatorCallExpr' else n.c[1]


def numbered(ctx, P, S, root, members):
    f = P.fn(root)
    for m in members:
        sites = []
        for n, g, ch in assigns(S, f, lambda n: n.get('op') != '|='):
            l = lhs(n)
            lf = fields(S.atoms(l, g, ch))
            direct = l.k == 'MemberExpr' and (short(l.get('mc')), l.get('m')) == m
            if not direct and not (l.k == 'DeclRefExpr' and m in lf and by_reference(S, l, g)):
                continue
            rf = fields(S.atoms(rhs(n), g, ch))
            if ('Set', 'number') in rf and m in rf:
                sites.append((n, g, ch, lf | rf))
        judge(ctx, S, 'numbered', '%s/%s' % (root, name(m)), sites, '%s has to become the number of the set it names' % name(m), '%s becomes the number of the set' % name(m), f)


def by_reference(S, l, g):
    o = S.owner(l.get('id')) or g
    for n in o.walk():
        if n.k == 'VarDecl' and n.get('id') == l.get('id'):
            return (n.t or '').strip().endswith('&')
    for p in o.params:
        if p['id'] == l.get('id'):
            return p['t'].strip().endswith('&')
    return False


def mask(l):
    """constant bits that a leaf condition asks for"""
    l = strip(l)
    while l is not None and l.k == 'BinaryOperator' and l.get('op') in ('!=', '=='):
        l = strip(l.c[0])
    if l is not None and l.k == 'BinaryOperator' and l.get('op') == '&':
        for x in l.c:
            x = strip(x)
            if x.ev is not None:
                return x.ev
            vs = [y.ev for y in x.walk() if y.ev is not None]
            if x.k != 'MemberExpr' and vs:
                return max(vs)
    return 0


def anytag(ctx, P, S):
    """sets that cannot be indexed by their tags are indexed under the tag that matches anything"""
    st = P.enum('ST_SPECIAL', 'ST_TAG_UNIFY')
    need = st['ST_SPECIAL'] | st['ST_TAG_UNIFY']
    for root, sink in (('Grammar::indexSetToRule', 'Grammar::indexTagToRule'), ('Grammar::indexSets', 'Grammar::indexTagToSet')):
        f = P.fn(root)
        ok, w = 0, None
        for n, g, ch in sink_sites(S, f, sink):
            if ('Grammar', 'tag_any') not in fields(about(S, n, g, ch)):
                continue
            w = w or n
            cs = S.all_conds(n, g, ch)
            if not cs:
                ok = need
            for l, v, h, c in cs:
                if ('Set', 'type') in fields(S.atoms(l, h, c)) and v:
                    ok |= mask(l)
            if any(('Set', 'type') not in fields(S.atoms(l, h, c)) for l, v, h, c in cs):
                ok = 0
        ctx.check(ok & need == need, 'indexed', root + '/any', (w or f.body).where(), 'special and unifying sets count for any tag', '%s does not index every special or unifying set for any tag' % root)
        # leaving the tags of a set out is right only when it counts for any tag
        for n, g, ch in sink_sites(S, f, sink):
            for l, v, h, c in S.all_conds(n, g, ch):
                if ('Set', 'type') in fields(S.atoms(l, h, c)) and ('Grammar', 'tag_any') not in fields(about(S, n, g, ch)):
                    ctx.check(not v and not mask(l) & ~need, 'indexed', '%s/left-out' % root, l.where(), 'only tags of sets that count for any tag are left out',
                              'the tags of other sets than special and unifying ones are left out of the index')


# ---------------------------------------------------------------- kinds of sets
def kinds(ctx, P, S):
    f = P.fn('Set::reindex')
    st = P.enum('ST_SPECIAL', 'ST_TAG_UNIFY', 'ST_SET_UNIFY', 'ST_CHILD_UNIFY', 'ST_MAPPING')
    uni = st['ST_TAG_UNIFY'] | st['ST_SET_UNIFY'] | st['ST_CHILD_UNIFY']
    typed = assigns(S, f, lambda n: lhs(n) is not None and lhs(n).k == 'MemberExpr' and lhs(n).get('m') == 'type' and n.get('op') == '|=')
    for m in (('Set', 'trie'), ('Set', 'trie_special')):
        sites = []
        for n, g, ch in typed:
            at = S.atoms(rhs(n), g, ch)
            if m in fields(at) and any(a[0] == 'call' for a in at):
                sites.append((n, g, ch, fields(at)))
        judge(ctx, S, 'kinds', 'Set::reindex/' + name(m), sites, 'the kinds of %s have to become those of the set' % name(m), 'kinds of %s are those of the set' % name(m), f)
    for bits, give, what in ((st['ST_SPECIAL'], st['ST_SPECIAL'], 'special'), (uni, st['ST_CHILD_UNIFY'], 'unifying'), (st['ST_MAPPING'], st['ST_MAPPING'], 'mapping')):
        got, w, reset = 0, None, None
        for n, g, ch in typed:
            r = strip(rhs(n))
            ev = r.ev if r.ev is not None else max([x.ev for x in r.walk() if x.ev is not None] or [0])
            direct = ('Set', 'sets') in fields(S.atoms(rhs(n), g, ch)) and ('Set', 'type') in fields(S.atoms(rhs(n), g, ch))
            if direct:
                got |= bits & (ev or bits)
            if not ev & give:
                continue
            cs = S.all_conds(n, g, ch)
            hit, bad = 0, False
            for l, v, h, c in cs:
                fl = fields(S.atoms(l, h, c))
                if ('Set', 'type') in fl:
                    if v and ('Set', 'sets') in fl:
                        hit |= mask(l)
                    else:
                        bad = True
                elif fl - {('Set', 'sets'), ('Grammar', 'sets_by_contents'), ('Grammar', 'sets_list')}:
                    bad = True
            if hit and not bad:
                got |= hit & bits
                w = n
        ctx.check(got & bits == bits, 'kinds', 'Set::reindex/sets/' + what, (w or f.body).where(), 'a set with a %s set in it is' % what,
                  'a set that is made of a %s set does not become %s' % (what, what))
    # a unifying set is special
    got = 0
    for n, g, ch in typed:
        r = strip(rhs(n))
        ev = r.ev if r.ev is not None else max([x.ev for x in r.walk() if x.ev is not None] or [0])
        if ev & st['ST_SPECIAL']:
            cs = S.all_conds(n, g, ch)
            hit = 0
            for l, v, h, c in cs:
                fl = fields(S.atoms(l, h, c))
                if fl == {('Set', 'type')} and v:
                    hit |= mask(l)
                else:
                    hit = 0
                    break
            got |= hit
    ctx.check(got & uni == uni, 'kinds', 'Set::reindex/unify-special', '%s:%d' % (f.file, f.line), 'unifying sets are special', 'a unifying set is not always made special')
    # what a tag gives its set
    tt = P.enum('T_SPECIAL', 'T_MAPPING')
    g = next((h for h in P.funcs.values() if h.q.split('::')[-1] == 'trie_reindex' and h.body is not None), None)
    if g is None:
        return
    for tb, sb in (('T_SPECIAL', 'ST_SPECIAL'), ('T_MAPPING', 'ST_MAPPING')):
        ok = False
        for n in g.walk():
            if n.k == 'CompoundAssignOperator' and n.get('op') == '|=':
                ev = strip(n.c[1]).ev
                ev = ev if ev is not None else max([x.ev for x in n.c[1].walk() if x.ev is not None] or [0])
                if not ev & st[sb]:
                    continue
                cs = [(l, v, fields(S.atoms(l, h, c))) for l, v, h, c in S.all_conds(n, g, ())]
                t = [x for x in cs if ('Tag', 'type') in x[2]]
                if t and all(v and mask(l) & tt[tb] == tt[tb] for l, v, fl in t) and not [x for x in cs if x[2] - {('Tag', 'type')} - {y for y in x[2] if y[0] in ('pair',)}]:
                    ok = True
        ctx.check(ok, 'kinds', 'tag/' + sb, '%s:%d' % (g.file, g.line), '%s tags make the set %s' % (tb, sb), 'a tag that is %s does not always make its set %s' % (tb, sb))


# ---------------------------------------------------------------- order of tests
def expand(S, n, f, ch, seen=None):
    """leaf conditions that lead to n, with those of the assignments that make local flags true: [(leaf, value, fn, chain)]"""
    res = []
    seen = set() if seen is None else seen
    for l, v, g, c in S.all_conds(n, f, ch):
        res.append((l, v, g, c))
        m = strip(l)
        if m is None or m.k != 'DeclRefExpr' or m.get('g') or 'bool' not in (m.t or '') or m.get('id') in seen or any(x.k in ('WhileStmt', 'DoStmt', 'ForStmt') and not contains([y for y in x.c if y is not None][-1 if x.k != 'DoStmt' else 0], m) for x in m.ancestors()):
            continue
        seen.add(m.get('id'))
        for a in g.walk():
            if a.k == 'BinaryOperator' and a.get('op') == '=' or a.k == 'CompoundAssignOperator':
                t = strip(a.c[0])
                if t is not None and t.k == 'DeclRefExpr' and t.get('id') == m.get('id'):
                    res.append((a.c[1], True, g, c))
                    res += expand(S, a, g, c, seen)
            elif a.k == 'VarDecl' and a.get('id') == m.get('id') and a.c and a.c[0] is not None:
                res += [(x, True, g, c) for x in disjuncts(a.c[0])]
    return res


def disjuncts(n):
    n = strip(n)
    if n is not None and n.k == 'BinaryOperator' and n.get('op') == '||':
        return disjuncts(n.c[0]) + disjuncts(n.c[1])
    return [n]


def order(ctx, P, S):
    f = P.fn('Grammar::reindex')
    keep = P.enum('RF_KEEPORDER')['RF_KEEPORDER']
    unify = P.enum('ST_TAG_UNIFY', 'ST_SET_UNIFY')

    def act_rule(n):
        if n.k != 'CompoundAssignOperator' or n.get('op') != '|=':
            return False
        t = strip(n.c[0])
        if t is None or t.k != 'MemberExpr' or (short(t.get('mc')), t.get('m')) != ('Rule', 'flags'):
            return False
        r = strip(n.c[1])
        ev = r.ev if r.ev is not None else max([x.ev for x in r.walk() if x.ev is not None] or [0])
        return bool(ev & keep)

    def local(n):
        r = strip(recv(n)) if recv(n) is not None else None
        return r is not None and r.k == 'DeclRefExpr'

    def act_test(n):
        return n.k in CALLS and n.get('fs') in ('insert', 'emplace') and local(n) and 'flat_set' in (strip(recv(n)).t or '') and 'ContextualTest' in (strip(recv(n)).t or '')

    def act_set(n):
        return n.k in CALLS and n.get('fs') == 'set' and local(n) and 'dynamic_bitset' in (strip(recv(n)).t or '')
    R, T, V = S.sites(f, act_rule, depth=3), S.sites(f, act_test, depth=3), S.sites(f, act_set, depth=3)
    if not R or not T or not V:
        raise Broken('where the need to keep the order of tests is worked out was not found')
    for m in ('sublist', 'maplist', 'dep_target', 'tests', 'dep_tests'):
        one(ctx, S, 'rule/' + m, R, ('Rule', m), lambda l, at: any(a[0] == 'call' and a[1] in ('count', 'test', 'find', 'contains', 'operator[]') for a in at), f, 'a rule whose %s needs it keeps the order of its tests' % m)
    q_in = lambda l, at: any(a[0] == 'call' and a[1] in ('count', 'find', 'contains') for a in at)
    for m in ('tmpl', 'linked', 'ors'):
        one(ctx, S, 'test/' + m, T, ('ContextualTest', m), q_in, f, 'a test whose %s needs it makes its rule keep the order' % m)
    for m in ('target', 'barrier', 'cbarrier'):
        one(ctx, S, 'test/%s/unify' % m, T, ('ContextualTest', m), lambda l, at: ('Set', 'type') in fields(at) and mask(l) & unify['ST_TAG_UNIFY'] and mask(l) & unify['ST_SET_UNIFY'], f, 'a test whose %s unifies makes its rule keep the order' % m)
        one(ctx, S, 'test/%s/vstr' % m, T, ('ContextualTest', m), lambda l, at: any(a[0] == 'call' and a[1] in ('test', 'operator[]') for a in at) and ('Set', 'type') not in fields(at), f, 'a test whose %s has varstrings makes its rule keep the order' % m)
    for m in ('sets', 'trie', 'trie_special'):
        one(ctx, S, 'set/' + m, V, ('Set', m), lambda l, at: any(a[0] == 'call' for a in at) and (m == 'sets' or any(a == ('e', 'T_VARSTRING') for a in at)), f, 'a set whose %s has varstrings has them' % m)


def one(ctx, S, key, acts, member, query, f, text):
    why = None
    every = [(n, g, ch, expand(S, n, g, ch)) for n, g, ch in acts]
    ids = {l.i: (v, h) for e in every for l, v, h, c in e[3] if l is not None}
    for n, g, ch, leaves in every:
        leaves = list({(l.i, h.id, v): (l, v, h, c) for l, v, h, c in leaves if l is not None}.values())
        for l, v, h, c in leaves:
            if l is None or v is False:
                continue
            at = S.atoms(l, h, c)
            if member not in fields(at) or not query(l, at):
                continue
            own = fields(at) | {('Grammar', x) for x in ('rule_by_number', 'contexts', 'sets_list')}
            bad = None
            cs = S.all_conds(l, h, c)
            edges = {(x[0].i, x[2].id, x[1]) for x in cs}
            for l2, v2, h2, c2 in cs:
                if l2 is l or (l2.i, h2.id, not v2) in edges:
                    continue
                fl = fields(S.atoms(l2, h2, c2))
                if v2 is False and (l2.i in ids and h2.id == ids[l2.i][1].id or already(l2)):
                    continue            # the other way leads to the same, or has been there
                if fl - own - FLAGS - {('Rule', 'flags')}:
                    bad = (l2, fl - own - FLAGS - {('Rule', 'flags')})
            if bad is None:
                ctx.check(True, 'order', key, l.where(), text, '')
                return
            why = why or (l, 'only when %s (%s) allows it' % (', '.join(sorted(name(x) for x in bad[1])), bad[0].where()))
    ctx.check(False, 'order', key, (why[0] if why else f.body).where(), '', text + ': ' + (why[1] if why else 'not asked for'))


def already(l):
    return any(x.k in CALLS and x.get('fs') in ('count', 'test', 'contains', 'find') for x in l.walk())


# ---------------------------------------------------------------- walks over tries
def is_trie(t):
    t = (t or '').replace('const ', '').replace('&', '').replace('*', '').strip()
    return t.endswith('trie_t') or ('flat_map<' in t and 'trie_node_t' in t)


def tries(ctx, P, S):
    count = 0
    for f in sorted(P.funcs.values(), key=lambda x: (x.file, x.line)):
        if f.body is None or f.is_lambda or not f.file.startswith('src/'):
            continue
        if not any(is_trie(p['t']) for p in f.params):
            continue
        for lp in f.walk():
            if lp.k not in ('CXXForRangeStmt', 'ForStmt', 'WhileStmt'):
                continue
            if not over_trie(f, lp):
                continue
            count += 1
            ctx.saw(f)
            walk_one(ctx, P, S, f, lp)
    if not count:
        raise Broken('no walk over the tags of a set found')


def over_trie(f, lp):
    ps = {p['id'] for p in f.params if is_trie(p['t'])}
    if lp.k == 'CXXForRangeStmt':
        for v in lp.walk():
            if v.k == 'VarDecl' and (v.get('d') or '').startswith('__range'):
                return any(x.k == 'DeclRefExpr' and x.get('id') in ps for x in v.walk())
        return False
    body = [c for c in lp.c if c is not None][-1]
    for c in lp.c:
        if c is not None and c is not body:
            for x in c.walk():
                if x.k == 'DeclRefExpr' and x.get('id') in ps:
                    return True
    return False


NESTED = ('trie_node_t', 'trie')


def walk_one(ctx, P, S, f, lp):
    key = '%s(%s)' % (f.q.split('::')[-1], ','.join(short(p['t'].replace('&', '').replace('const ', '').strip()) for p in f.params))
    down, why = None, None
    for n in lp.walk():
        if n.k in CALLS:
            hit = [a for a in args(n) if a is not None and NESTED in fields(S.atoms(a, f)) and (is_trie(strip(a).t) or is_trie(a.t) or 'trie' in (a.t or ''))]
            ts = [t for t in P.targets(n) if t.body is not None and any(is_trie(p['t']) for p in t.params)]
            if not hit or not ts:
                continue
            bad = None
            cs = S.all_conds(n, f, ())
            edges = {(x[0].i, x[1]) for x in cs}
            for l, v, g, c in cs:
                if (l.i, not v) in edges and v:
                    continue
                at = S.atoms(l, g, c)
                fl = {x for x in fields(at) if x[0] not in ('pair',)}
                if fl <= {NESTED} or not fl and not contains(lp, l):
                    continue
                if contains(lp, l) and leaves_done(S, f, lp, l, v, n):
                    continue
                bad = (l, fl)
                break
            end = loop_ends(S, n, f, ())
            if bad is None and end is None:
                down = n
            else:
                why = (bad[0] if bad else end, n)
    if down is not None:
        left = lost(S, f, down)
        ctx.check(not left, 'entries', key, down.where(), 'goes down', '%s goes down without %s, which it was given for its own entries' % (f.q, ', '.join(left)))
    else:
        ctx.check(False, 'entries', key, (why[1] if why else lp).where(), '', '%s does not go down into %s entries of the set' % (f.q, 'all' if why else 'the') + (' (%s)' % why[0].where() if why else ''))
    balanced(ctx, P, S, f, lp, key, down)


def lost(S, f, down):
    """parameters of a walk that the walk further down does not get"""
    got = set()
    for x in [recv(down)] + list(args(down)):
        if x is None:
            continue
        got |= {y.get('id') for y in x.walk() if y.k == 'DeclRefExpr'} | {a[1] for a in S.atoms(x, f) if a[0] == 'p'}
    return [p.get('n') or p.get('d') or '?' for p in f.params if not is_trie(p['t']) and p['id'] not in got and (p.get('n') or p.get('d')) not in got and
            any(y.k == 'DeclRefExpr' and y.get('id') == p['id'] for y in f.walk())]


def leaves_done(S, f, lp, l, v, n):
    """a condition under which a walk may pass an entry by: the entry ends here, the search is over, or its tag cannot be had"""
    fl = {x for x in fields(S.atoms(l, f)) if x[0] not in ('pair',)}
    if ('trie_node_t', 'terminal') in fl and fl <= {('trie_node_t', 'terminal'), NESTED}:
        return v is False            # entries that end have nothing below them
    # the tag does not match, or a search has been successful: only functions that answer yes or no
    if not any(x.k == 'ReturnStmt' and x.c and x.c[0] is not None and strip(x.c[0]).k == 'CXXBoolLiteralExpr' for x in f.walk()):
        return False
    if v is False and success(l, n):
        return True
    if mask(l):
        return mask(l) == S.P.enum('T_FAILFAST')['T_FAILFAST'] or any(y.k == 'DeclRefExpr' and y.get('id') in [p['id'] for p in f.params] for y in l.walk())
    return any(a[0] == 'call' and a[1] not in ('begin', 'end', 'operator*', 'operator==') for a in S.atoms(l, f))


def success(l, n):
    """the condition under which a search says yes, other than on what n finds"""
    for a in l.ancestors():
        if a.k in ('BinaryOperator', 'UnaryOperator') and contains(a, n):
            return False
        if a.k == 'IfStmt':
            t = [c for c in a.c if c is not None]
            body = t[1] if len(t) > 1 else None
            while body is not None and body.k == 'CompoundStmt' and len(body.c) == 1:
                body = body.c[0]
            return body is not None and body.k == 'ReturnStmt' and str(strip(body.c[0]).get('v', strip(body.c[0]).ev)) in ('1', 'True', 'true')
        if a.k in ('CompoundStmt', 'CXXForRangeStmt'):
            return False
    return False


def balanced(ctx, P, S, f, lp, key, down):
    """what is pushed on a collection the walk was handed, and hands on, is off again when the loop comes round"""
    ps = {p['id']: p for p in f.params if p['t'].strip().endswith('&') and 'const' not in p['t'].split('<')[0]}
    for pid, p in ps.items():
        push = [n for n in lp.walk() if n.k in CALLS and n.get('fs') in ('push_back', 'emplace_back') and is_param(recv(n), pid)]
        pop = [n for n in lp.walk() if n.k in CALLS and n.get('fs') in ('pop_back', 'resize', 'erase') and is_param(recv(n), pid)]
        kept = [n for n in lp.walk() if n.k in CALLS and n.get('fs') in ('insert', 'emplace', 'push_back', 'emplace_back') and not is_param(recv(n), pid) and uses_whole(n, pid)]
        if not push or not (pop or kept or any(x.k == 'ReturnStmt' for x in lp.walk())):
            continue
        bad = round_trip(S, f, lp, push, pop)
        ctx.check(bad is None, 'path', key, push[0].where(), 'on and off again', '%s: what is put on here is still there for the next entry (on a way through %s)' % (f.q, bad.where() if bad is not None else ''))
        for n in lp.walk():
            if n.k in CALLS and n.get('fs') in ('sort', 'stable_sort', 'reverse', 'unique') and any(x.k == 'DeclRefExpr' and x.get('id') == pid for a in args(n) if a is not None for x in a.walk()):
                ctx.check(False, 'path', key + '/sorted', n.where(), '', '%s: the tags on the way down are reordered, so that another than the last one is taken off' % f.q)


def is_param(n, pid):
    n = strip(n) if n is not None else None
    return n is not None and n.k == 'DeclRefExpr' and n.get('id') == pid


def uses_whole(n, pid):
    return any(a is not None and any(is_param(x, pid) for x in [strip(a)] + [strip(y) for y in (strip(a).c if strip(a) is not None else ()) if y is not None]) for a in args(n))


def round_trip(S, f, lp, push, pop):
    pushes, pops = {n.i for n in push}, {n.i for n in pop}
    start = S.at(f, push[0])
    if start is None:
        return None
    # depth along paths from the first push to itself
    seen, work = set(), [(start[0], start[1] + 1, 1, push[0])]
    while work:
        b, i, d, last = work.pop()
        B = f.cfg.b[b]
        stop = False
        for j in range(i, len(B.els)):
            e = B.els[j]
            if not hasattr(e, 'i'):
                continue
            if e.i == push[0].i:
                if d != 0:
                    return last
                stop = True
                break
            if e.i in pushes:
                d += 1
            elif e.i in pops:
                d -= 1
            if e.l:
                last = e if contains(lp, e) and e.k != 'DeclRefExpr' and e.l != lp.l else last
        if stop or B.nr or abs(d) > 3:
            continue
        for s in B.succ:
            if s >= 0 and (s, d) not in seen:
                seen.add((s, d))
                work.append((s, 0, d, last))
    return None


# ---------------------------------------------------------------- replacing tests
def replaced(ctx, P, S):
    need = [(c, x['d']) for c in ('Rule', 'ContextualTest', 'Grammar') for x in P.fields(c) if 'ContextualTest *' in x['t'] and (c, x['d']) != ('Grammar', 'contexts')]
    for m in P.fields('Grammar'):
        if m['d'] == 'templates' and ('Grammar', 'templates') not in need:
            need.append(('Grammar', 'templates'))
    for m in P.fields('Rule'):
        if m['d'] in ('tests', 'dep_tests') and ('Rule', m['d']) not in need:
            need.append(('Rule', m['d']))
    got, host = {}, None
    for g in P.funcs.values():
        if g.body is None or g.q != 'TextualParser::parse_grammar':
            continue
        mine = {}
        for n, h, ch in S.sites(g, lambda n: n.k in ('BinaryOperator', 'CallExpr') and (n.get('op') == '=' or n.get('fs') == 'replace'), depth=2):
            for m in replaces(S, n, h, ch):
                mine.setdefault(m, n)
        if len(set(mine) & set(need)) > len(got):
            got, host = mine, g
    if host is None:
        raise Broken('where tests are replaced in rules was not found')
    ctx.saw(host)
    for m in need:
        ctx.check(m in got, 'replaced', '%s/%s' % (host.q, name(m)), got[m].where() if m in got else '%s:%d' % (host.file, host.line), 'replaced in %s' % name(m),
                  'tests that are replaced in the tests of rules stay in %s' % name(m))


def replaces(S, n, f, ch):
    """members in which n replaces one test by another"""
    if n.k in CALLS and n.get('fs') == 'replace' and len(args(n)) == 4:
        return fields(S.atoms(args(n)[0], f, ch))
    if n.k == 'BinaryOperator' and n.get('op') == '=':
        l, r = strip(n.c[0]), strip(n.c[1])
        if l is None or r is None or 'ContextualTest *' not in (l.t or '') or r.k != 'DeclRefExpr':
            return set()
        lf = fields(S.atoms(l, f, ch)) if l.k != 'DeclRefExpr' or by_reference(S, l, f) else set()
        for x, v, g, c in S.all_conds(n, f, ch):
            x = strip(x)
            if x.k == 'BinaryOperator' and x.get('op') in ('==', '!='):
                xf = fields(S.atoms(x, g, c))
                if lf & xf and v is (x.get('op') == '=='):
                    return lf & xf
    return set()
