"""C06: what is derived from the tags of a reading (the index of plain, textual, numeric tags, its hashes) follows its list of tags."""
from ..ir import CALLS, args, recv, strip, is_call, canon
from ..extract import Broken
from ..paths import Analysis, Spec, atoms, cmp_parts
from ..engine import callbacks, rule_types, RuleSpec
from ..model import Model, ModelSpec, Bits, NZ

FIVE = ('tags_list', 'tags', 'tags_plain', 'tags_textual', 'tags_numerical')
BLOOM = ('tags_bloom', 'tags_plain_bloom', 'tags_textual_bloom')
EXEMPT = {
    'alloc_reading': 'makes a full copy of a reading, hashes included (all members are compared in C05)',
    'GrammarApplicator::reflowTextuals_Reading': 'adds to the textual index the tags that only now became textual, over all readings there are',
    'GrammarApplicator::mergeReadings': 'makes readings that are only printed: they are joined right before printing, after which no rule runs on the cohort',
}


def short(c):
    return (c or '').split('<')[0].split('::')[-1]


def decl_of(fn, vid, P):
    """declaration of a local of fn or of the functions a lambda stands in; with the function it was found in"""
    f = fn
    while f is not None:
        if not hasattr(f, '_c06'):
            f._c06 = {d.get('id'): d for d in f.walk() if d.k == 'VarDecl'}
        if vid in f._c06:
            return f._c06[vid], f
        f = P.funcs.get(f.d.get('parent')) if f.is_lambda else None
    return None, None


class Own:
    """names the reading an expression stands for"""

    def __init__(self, P):
        self.P = P

    def reassigned(self, f, vid):
        if not hasattr(f, '_c06a'):
            f._c06a = set()
            for n in f.walk():
                t = None
                if n.k in ('BinaryOperator', 'CompoundAssignOperator') and (n.get('op') or '').endswith('=') and n.get('op') not in ('==', '!=', '<=', '>='):
                    t = strip(n.c[0])
                elif n.k == 'UnaryOperator' and n.get('op') in ('++', '--'):
                    t = strip(n.c[0])
                elif n.k == 'CXXOperatorCallExpr' and n.get('fs') in ('operator++', 'operator--', 'operator=', 'operator+='):
                    t = strip(n.c[1])
                if t is not None and t.k == 'DeclRefExpr':
                    f._c06a.add(t.get('id'))
        return vid in f._c06a

    def __call__(self, n, fn, depth=0):
        n = strip(n)
        if n is None:
            return 'THIS'
        if depth > 12:
            return canon(n)
        if n.k == 'CXXThisExpr':
            return 'THIS'
        if n.k == 'UnaryOperator' and n.get('op') in ('*', '&'):
            return self(n.c[0], fn, depth + 1)
        if n.k == 'MemberExpr' and n.get('m') == 'bag_of_tags':
            return 'BAG'
        if n.k == 'DeclRefExpr':
            vid = n.get('id')
            for i, p in enumerate(fn.params):
                if p['id'] == vid:
                    return ('P', i)
            d, df = decl_of(fn, vid, self.P)
            if d is not None:
                t = (d.t or '').strip()
                if d.c and d.c[0] is not None and (t.endswith('&') or t.replace('const', '').strip().endswith('*') and not self.reassigned(df, vid)):
                    i = strip(d.c[0])
                    if not (i.k in CALLS and t.endswith('*') and i.get('fs') not in ('front', 'back', 'get', 'operator*', 'operator->')):
                        return self(i, df, depth + 1)
                return 'L:%s' % vid
            g = fn
            while g is not None and g.is_lambda:
                g = self.P.funcs.get(g.d.get('parent'))
                if g is None:
                    break
                for i, p in enumerate(g.params):
                    if p['id'] == vid:
                        return 'L:%s' % vid
            return 'O:%s' % (vid or n.get('q'))
        if n.k == 'CXXOperatorCallExpr' and n.get('fs') in ('operator*', 'operator->') and len(n.c) > 1:
            return self(n.c[1], fn, depth + 1)
        return canon(n)


class Prim:
    def __init__(self, P):
        self.add = [f for f in P.fns('GrammarApplicator::addTagToReading')]
        self.core = [f for f in self.add if 'Tag' in f.params[1]['t']]
        self.dele = P.fns('GrammarApplicator::delTagFromReading')
        self.dcore = [f for f in self.dele if 'Tag' not in f.params[1]['t']]
        self.reflow = P.fn('GrammarApplicator::reflowReading')
        if len(self.core) != 1 or len(self.dcore) != 1:
            raise Broken('overloads of addTagToReading or delTagFromReading changed')
        self.core, self.dcore = self.core[0], self.dcore[0]


def mk(P, base=Spec, cargs=(), prim=None, reader=None):
    own = Own(P)
    am = amalgam(P)
    addids = {f.id for f in prim.add}
    delids = {f.id for f in prim.dele}

    class S(base):
        def __init__(self):
            if cargs:
                super().__init__(*cargs)

        def mut(self, root, op, node, fn):
            if root.kind == 'field' and short(root.cls) == 'Reading' and root.field in FIVE + BLOOM:
                o = own(root.base, fn)
                if root.field in BLOOM:
                    return ()
                return [('+', ('ED', root.field, o)), ('+', ('STALE', o))]
            return ()

        def call(self, n, fn):
            if n.get('fid') in addids or n.get('fid') in delids or n.get('fid') == prim.reflow.id:
                return []
            return None

        def node(self, n, fn):
            if n.k not in CALLS:
                return ()
            fid = n.get('fid')
            if fid in addids:
                a = args(n)
                o = own(a[0], fn)
                r = strip(a[2]) if len(a) > 2 else None
                ev = None if r is None else (r.get('v') if r.get('v') is not None else r.ev)
                if r is not None and str(ev) in ('0', 'False', 'false'):
                    return [('+', ('STALE', o)), ('+', ('ADD', o))]
                return [('-', ('STALE', o)), ('+', ('ADD', o))]
            if fid in delids:
                return [('-', ('STALE', own(args(n)[0], fn)))]
            if fid == prim.reflow.id:
                o = own(args(n)[0], fn)
                return [('-', ('STALE', o))] + [('-', ('ED', x, o)) for x in FIVE] + [('+', ('ADD', o))]
            if n.get('fs') == 'rehash' and short(n.get('cls')) == 'Reading':
                return [('-', ('STALE', own(recv(n), fn)))]
            return ()

        def env_node(self, n, env, fn, A):
            if n.k == 'BinaryOperator' and n.get('op') == '=':
                l = strip(n.c[0])
                if l is not None and l.k == 'MemberExpr' and short(l.get('mc')) == 'Reading' and l.get('m') == 'mapping':
                    o = own(l.c[0] if l.c else None, fn)
                    if env.get(('a', ('ADD', o))) != '+':
                        return [('+', ('MAP', o, n.l))]
            return ()

        def bind(self, atom, call, target, fn, A):
            if not isinstance(atom, tuple):
                return atom
            i = {'ED': 2}.get(atom[0], 1)
            o = atom[i]
            if isinstance(o, tuple):
                a = args(call)
                if call.k == 'CXXOperatorCallExpr' and call.get('cls'):
                    a = a[1:]
                if o[1] >= len(a):
                    return None
                return atom[:i] + (own(a[o[1]], fn),) + atom[i + 1:]
            if o == 'THIS' and recv(call) is not None:
                return atom[:i] + (own(recv(call), fn),) + atom[i + 1:]
            return atom

        def skip(self, t):
            return t.q in SKIP or t.q in EXEMPT or short(t.cls) == 'Reading' or t.id == am.id
    return S()


SKIP = {'GrammarApplicator::runSingleRule', 'GrammarApplicator::runContextualTest', 'GrammarApplicator::doesSetMatchReading', 'GrammarApplicator::doesSetMatchCohortNormal',
        'GrammarApplicator::doesSetMatchCohortCareful', 'GrammarApplicator::profileRuleContext', 'GrammarApplicator::addTag', 'free_reading', 'free_cohort', 'free_swindow', 'alloc_cohort', 'alloc_reading',
        'GrammarApplicator::getTagList', 'GrammarApplicator::getTagsMatching', 'GrammarApplicator::generateVarstringTag', 'GrammarApplicator::doesTagMatchReading'}


def amalgam(P):
    """the function that makes one reading out of a reading and its subreadings"""
    return P.fn('GrammarApplicator::get_sub_reading')


def check(ctx):
    P = ctx.P
    prim = Prim(P)
    ctx.rule('add', 'adding a tag of any kind files it in every index it belongs to, of the reading and of the bag of tags of its window', 30)
    ctx.rule('del', 'taking a tag from a reading takes it from the list and from every index, resets mapping and base form if it was that, and computes the hashes anew', 8)
    ctx.rule('hash', 'the hashes of a reading are made of its tags, the mapping tag and the subreadings, that of the line of tags of the line', 8)
    ctx.rule('reflow', 'indexing a reading anew starts from nothing, takes every tag of the list in order, and ends with new hashes', 12)
    ctx.rule('direct', 'whatever edits the list of tags or an index by hand has the reading indexed anew, or edits list and indexes alike and computes the hashes anew, on every path', 5)
    ctx.rule('bag', 'matching against the bag of tags, which belongs to no cohort, never looks at the cohort of the reading without having seen that there is one', 8)
    ctx.rule('lost', 'the result of matching is never overwritten before anything looked at it', 20)
    add(ctx, P, prim)
    filters(ctx, P, prim)
    hashes(ctx, P)
    dele(ctx, P, prim)
    reflow(ctx, P, prim)
    direct(ctx, P, prim)
    bag(ctx, P)
    lost(ctx, P)


# ---------------------------------------------------------------- the three primitives
class MutSpec(ModelSpec):
    """every mutation of a member of a reading, with the reading"""

    def __init__(self, P, m, own, fold_eq=False, first=()):
        super().__init__(P, m, None, lambda t: t.q in SKIP)
        self.own, self.fold_eq, self.first = own, fold_eq, first

    def mut(self, root, op, node, fn):
        if root.kind == 'field' and short(root.cls) == 'Reading':
            o = self.own(root.base, fn)
            kind = 'put' if op in ('push_back', 'insert', 'emplace', 'emplace_back', 'operator[]', 'insert_or_assign', 'try_emplace', '+=', 'operator+=', 'append') else 'clr' if op in ('clear', 'swap', 'operator=') else 'del' if op in ('erase', 'remove') else op
            if op in ('=', 'operator='):
                src = strip(node.c[-1]) if node.c else None
                while src is not None and src.k == 'ConditionalOperator':
                    t = self.fold(src.c[0], fn)
                    if t is None:
                        break
                    src = strip(src.c[1] if t else src.c[2])
                if src is not None and canon(src) == canon(node.c[0]):
                    return ()
                z = src is not None and (src.k == 'CXXNullPtrLiteralExpr' or src.ev is not None and str(src.ev) == '0')
                kind = 'clr' if z else 'put'
            return [('+', (kind, root.field, o))]
        return ()

    def node(self, n, fn):
        if n.k in CALLS and n.get('fs') == 'rehash' and short(n.get('cls')) == 'Reading':
            return [('+', ('rehash', '', self.own(recv(n), fn)))]
        return ()

    def param_type(self, t):
        return True

    def fold(self, n, fn):
        if self.fold_eq:
            op, a, b = cmp_parts(n)
            if op in ('==', '!='):
                for x, y in ((a, b), (b, a)):
                    if x is not None and x.k == 'MemberExpr' and (short(x.get('mc')), x.get('m')) in (('Tag', 'hash'), ('Reading', 'baseform')) and y is not None and (y.k == 'DeclRefExpr' or y.k == 'MemberExpr' and y.get('m') == 'hash'):
                        return op == '=='
        return None

    def bind(self, atom, call, target, fn, A):
        if isinstance(atom, tuple) and len(atom) == 3:
            o = atom[2]
            if isinstance(o, tuple):
                a = args(call)
                if call.k == 'CXXOperatorCallExpr' and call.get('cls'):
                    a = a[1:]
                return None if o[1] >= len(a) else atom[:2] + (self.own(a[o[1]], fn),)
            if o == 'THIS' and recv(call) is not None:
                return atom[:2] + (self.own(recv(call), fn),)
        return atom


def tbits(P):
    t = P.enum('T_MAPPING', 'T_TEXTUAL', 'T_NUMERICAL', 'T_SPECIAL', 'T_VARSTRING')
    spec = 0
    m = (1 << 64) - 1
    # T_SPECIAL is a mask of several kinds
    return t, t['T_SPECIAL'] & m


def musts(P, m, f, fold_eq=False):
    A = Analysis(P, MutSpec(P, m, Own(P), fold_eq))
    S = A.summary(f)
    if not S:
        raise Broken('no path through %s' % f.q)
    ss = [set(atoms(s)) for s in S]
    return set.intersection(*ss), set.union(*ss), ss


def add(ctx, P, prim):
    f = prim.core
    ctx.saw(f)
    t, special = tbits(P)
    full = (1 << 32) - 1
    cases = [
        ('plain', 0, {'tags_plain': 1, 'tags_plain_bloom': 1}),
        ('textual', t['T_TEXTUAL'], {'tags_textual': 1, 'tags_textual_bloom': 1, 'tags_plain': 1, 'tags_plain_bloom': 1}),
        ('wordform', t['T_TEXTUAL'] | t['T_WORDFORM'], {'tags_textual': 1, 'tags_textual_bloom': 1, 'tags_plain': 1, 'tags_plain_bloom': 1}),
        ('baseform', t['T_TEXTUAL'] | t['T_BASEFORM'], {'tags_textual': 1, 'tags_textual_bloom': 1, 'baseform': 1, 'tags_plain': 1, 'tags_plain_bloom': 1}),
        ('wordform only', t['T_WORDFORM'], {'tags_textual': 1, 'tags_textual_bloom': 1}),
        ('baseform only', t['T_BASEFORM'], {'tags_textual': 1, 'tags_textual_bloom': 1, 'baseform': 1}),
        ('numeric', t['T_NUMERICAL'], {'tags_numerical': 1}),
        ('mapping', t['T_MAPPING'], {'mapping': 2, 'tags_plain': 1, 'tags_plain_bloom': 1}),
    ]
    for name, bits, req in cases:
        req = dict({'tags': 1, 'tags_list': 1, 'tags_bloom': 1}, **req)
        m = Model({('Tag', 'type'): Bits(full, bits), ('Grammar', 'has_bag_of_tags'): 1, ('GrammarApplicator', 'ordered'): 1, ('Reading', 'baseform'): 0, ('Reading', 'mapping'): 0})
        must, may, _ = musts(P, m, f)
        for fld, lvl in sorted(req.items()):
            for who, o in (('the reading', ('P', 0)), ('the bag of tags', 'BAG')):
                if lvl == 2 and o == 'BAG':
                    continue
                ctx.check(('put', fld, o) in must, 'add', '%s/%s/%s' % (name, fld, 'bag' if o == 'BAG' else 'reading'), '%s:%d' % (f.file, f.line), 'a %s tag goes into %s of %s' % (name, fld, who),
                          'a %s tag that is added to a reading is not filed in %s of %s on every path' % (name, fld, who))
        ctx.check(('put', 'tags_string', ('P', 0)) in must, 'add', '%s/tags_string' % name, '%s:%d' % (f.file, f.line), 'appended to the line of tags', 'the line of tags of an ordered grammar misses a %s tag' % name)
        if name == 'plain':
            ctx.check(not {x for x in may if x[0] in ('put',) and x[1] in ('tags_textual', 'tags_numerical', 'baseform')}, 'add', 'plain/only', '%s:%d' % (f.file, f.line), 'a plain tag goes into no other index', 'a plain tag is filed as a textual or numeric one')
        hs = [x for x in may if x[0] == 'rehash']
        ctx.check(bool({x for x in hs if x[2] == ('P', 0)}), 'add', name + '/rehash', '%s:%d' % (f.file, f.line), 'hashes are computed anew unless told otherwise', 'hashes are not computed anew')
    # special tags are not plain
    low = special & -special
    m = Model({('Tag', 'type'): Bits(special | t['T_VARSTRING'], special & ~t['T_VARSTRING'] if special & ~t['T_VARSTRING'] == special else low), ('Grammar', 'has_bag_of_tags'): 1})
    must, may, _ = musts(P, m, f)
    ctx.check(not any(x[0] == 'put' and x[1] in ('tags_plain', 'tags_plain_bloom') for x in may), 'add', 'special', '%s:%d' % (f.file, f.line), 'special tags are not plain', 'a special tag is filed as a plain one')
    # the hash rather than anything else is filed, unless rehash is off it is computed
    p = next((x for x in f.params if x['t'] == 'bool'), None)
    if p is None:
        raise Broken('addTagToReading no longer has the flag that leaves the hashes alone')

    class On(MutSpec):
        def fold_env(self, n, env, fn, A):
            n2 = strip(n)
            if n2 is not None and n2.k == 'DeclRefExpr' and n2.get('id') == p['id']:
                return True
            return super().fold_env(n, env, fn, A)
    m = Model({('Tag', 'type'): Bits(full, 0), ('Grammar', 'has_bag_of_tags'): 1})
    A = Analysis(P, On(P, m, Own(P)))
    S = [set(atoms(s)) for s in A.summary(f)]
    for who, o in (('reading', ('P', 0)), ('bag', 'BAG')):
        ctx.check(all(('rehash', '', o) in s for s in S), 'add', 'hash/' + who, '%s:%d' % (f.file, f.line), 'hashes of the %s are computed anew' % who, 'a tag is added and the hashes of the %s stay as they were' % who)
    own = Own(P)
    for n in f.walk():
        if n.k in CALLS and n.get('fs') in ('push_back', 'insert') and recv(n) is not None:
            A = Analysis(P, Spec())
            r = A.root(recv(n), f)
            if r.kind == 'field' and short(r.cls) == 'Reading' and r.field in FIVE + BLOOM:
                a = value(args(n)[0], f, P)
                ctx.check(a is not None and a.k == 'MemberExpr' and (short(a.get('mc')), a.get('m')) == ('Tag', 'hash'), 'add', 'value/%s' % r.field, n.where(), 'files the hash of the tag', 'files something other than the hash of the tag in %s' % r.field)


def value(n, f, P):
    n = strip(n)
    if n is not None and n.k == 'DeclRefExpr':
        d, df = decl_of(f, n.get('id'), P)
        if d is not None and d.c and d.c[0] is not None and not Own(P).reassigned(df, n.get('id')):
            return value(d.c[0], df, P)
    return n


def dele(ctx, P, prim):
    f = prim.dcore
    ctx.saw(f)
    m = Model({('Reading', 'mapping'): NZ, ('GrammarApplicator', 'ordered'): 1, ('Reading', 'baseform'): NZ})
    must, may, _ = musts(P, m, f, True)
    for x in FIVE:
        ctx.check(('del', x, ('P', 0)) in must, 'del', x, '%s:%d' % (f.file, f.line), 'erased from ' + x, 'a tag taken from a reading stays in %s' % x)
    for x, w in (('mapping', 'the mapping tag'), ('baseform', 'the base form')):
        ctx.check(('clr', x, ('P', 0)) in must, 'del', x, '%s:%d' % (f.file, f.line), '%s is forgotten' % w, 'a reading keeps %s after it was taken from it' % w)
    ctx.check(any(a[1] == 'tags_string' and a[2] == ('P', 0) for a in must), 'del', 'tags_string', '%s:%d' % (f.file, f.line), 'the line of tags is made anew', 'the line of tags of an ordered grammar keeps a tag that was taken from the reading')
    ctx.check(('rehash', '', ('P', 0)) in must, 'del', 'rehash', '%s:%d' % (f.file, f.line), 'hashes are computed anew', 'a tag is taken from a reading and its hashes stay as they were')
    # not reset when the tag is another one
    class Ne(MutSpec):
        def fold(self, n, fn):
            v = super().fold(n, fn)
            return None if v is None else not v
    A = Analysis(P, Ne(P, m, Own(P), True))
    S = [set(atoms(s)) for s in A.summary(f)]
    ctx.check(not any(a[0] in ('clr', 'put') and a[1] in ('mapping', 'baseform') for s in S for a in s), 'del', 'other', '%s:%d' % (f.file, f.line), 'another tag leaves mapping and base form alone', 'taking some other tag away makes the reading forget its mapping tag or base form')


def reflow(ctx, P, prim):
    f = prim.reflow
    ctx.saw(f)
    own = Own(P)
    m = Model({('GrammarApplicator', 'ordered'): 1})
    need = ('tags', 'tags_plain', 'tags_textual', 'tags_numerical', 'tags_bloom', 'tags_plain_bloom', 'tags_textual_bloom', 'mapping', 'tags_string', 'tags_list')
    addids = {g.id for g in prim.add}

    class R(MutSpec):
        def env_node(self, n, env, fn, A):
            if n.k in CALLS and n.get('fid') in addids:
                o = own(args(n)[0], fn)
                r = [('+', ('ADDED', '', o))]
                r += [('+', ('EARLY', x, o)) for x in need if env.get(('a', ('clr', x, o))) != '+']
                return r
            return ()

        def skip(self, t):
            return t.id in addids or super().skip(t)
    A = Analysis(P, R(P, m, own))
    ss = [set(atoms(s)) for s in A.summary(f)]
    o = ('P', 0)
    if not any(('ADDED', '', o) in s for s in ss):
        raise Broken('reflowReading no longer adds tags through addTagToReading')
    for x in need:
        ctx.check(not any(('EARLY', x, o) in s for s in ss) and all(('clr', x, o) in s for s in ss), 'reflow', x, '%s:%d' % (f.file, f.line), '%s is emptied first' % x, 'a reading is indexed anew on top of its old %s' % x)
    # hashes after the last tag
    bad = False
    S = mk(P, prim=prim)
    B = Analysis(P, S)
    for s in B.summary(f):
        if ('STALE', o) in atoms(s):
            bad = True
    ctx.check(not bad, 'reflow', 'rehash', '%s:%d' % (f.file, f.line), 'hashes are computed anew after the last tag', 'a reading is indexed anew and its hashes are left as they were')
    loops = [l for l in f.walk() if l.k in ('CXXForRangeStmt', 'ForStmt', 'WhileStmt') and any(x.k in CALLS and x.get('fid') in addids for x in l.walk())]
    ctx.check(loops and not any(x.k in ('BreakStmt', 'ReturnStmt', 'ContinueStmt', 'IfStmt') for l in loops for x in l.walk()), 'reflow', 'all', '%s:%d' % (f.file, f.line), 'every tag of the list is taken', 'not every tag of the list is taken when a reading is indexed anew')


# ---------------------------------------------------------------- how the hashes come about
class Hash:
    """what goes into the hashes of a reading, for a given mapping tag, subreading and tag looked at"""

    def __init__(self, f, mapping, nxt, same):
        self.f, self.mapping, self.nxt, self.same = f, mapping, nxt, same
        self.init = {}
        for n in list(f.walk()) + [v for B in f.cfg.b.values() for e in B.els if not isinstance(e, tuple) and e.k == 'DeclStmt' for v in e.c if v is not None]:
            if n.k == 'VarDecl' and n.c and n.c[0] is not None:
                self.init[n.get('id')] = n.c[0]

    def field(self, n):
        n = strip(n)
        if n is not None and n.k == 'MemberExpr' and short(n.get('mc')) == 'Reading' and (not n.c or strip(n.c[0]) is None or strip(n.c[0]).k == 'CXXThisExpr'):
            return n.get('m')
        if n is not None and n.k == 'DeclRefExpr' and n.get('id') in self.init:
            i = strip(self.init[n.get('id')])
            if i is not None and i.k == 'MemberExpr' and (n.t or '').rstrip().endswith('*'):
                return self.field(i)
        return None

    def tok(self, n, env):
        n = strip(n)
        if n is None:
            return '?'
        if n.k == 'MemberExpr' and n.get('m') == 'hash' and n.c:
            b = self.field(n.c[0])
            if b == 'mapping':
                return 'M'
            if b == 'next':
                return 'N' if ('next',) in env else 'old N'
        if n.k in CALLS and n.get('fs') == 'rehash' and recv(n) is not None and self.field(recv(n)) == 'next':
            return 'N'
        if n.k == 'DeclRefExpr' and n.get('id') in env and env[n.get('id')] is not None:
            return '?'
        if n.k == 'ConditionalOperator':
            v = self.truth(n.c[0])
            return '?' if v is None else self.tok(n.c[1] if v else n.c[2], env)
        if n.ev is not None:
            return 'const %s' % n.ev
        if n.k == 'DeclRefExpr' and n.get('id') in self.init:
            i = strip(self.init[n.get('id')])
            if i is not None and (i.k == 'ConditionalOperator' or i.k == 'MemberExpr' and i.get('m') == 'hash'):
                return self.tok(i, env)
        for a in n.ancestors():
            if a.k in ('CXXForRangeStmt', 'ForStmt', 'WhileStmt', 'DoStmt'):
                ms = {m.get('m') for m in a.walk() if m.k == 'MemberExpr' and short(m.get('mc')) == 'Reading'}
                if 'tags' in ms and not ms & {'tags_list', 'tags_plain', 'tags_textual', 'tags_numerical'}:
                    return 'T'
        return '?'

    def val(self, n, env):
        n = strip(n)
        if n is None:
            return frozenset('?')
        if n.ev is not None or n.k == 'IntegerLiteral':
            return frozenset() if n.ev == 0 else frozenset(['const %s' % n.ev])
        fld = self.field(n)
        if fld in ('hash', 'hash_plain'):
            return env[fld]
        if n.k == 'DeclRefExpr' and env.get(n.get('id')) is not None:
            return env[n.get('id')]
        if n.k in CALLS and args(n):
            a = [x for x in args(n) if x is not None and x.k != 'CXXDefaultArgExpr']
            base = frozenset()
            if len(a) > 1:
                base = self.val(a[1], env)
            return base | {self.tok(a[0], env)}
        return frozenset('?')

    def truth(self, n, d=0):
        n = strip(n)
        while n is not None and n.k in ('DeclStmt', 'VarDecl') and n.c:
            n = strip(n.c[0])
        if n is None or d > 8:
            return None
        if n.k == 'UnaryOperator' and n.get('op') == '!':
            v = self.truth(n.c[0], d + 1)
            return None if v is None else not v
        if n.k == 'BinaryOperator' and n.get('op') in ('&&', '||'):
            a, b = self.truth(n.c[0], d + 1), self.truth(n.c[1], d + 1)
            z = n.get('op') == '||'
            return z if z in (a, b) else (not z if a is not None and b is not None else None)
        if n.k == 'CXXRewrittenBinaryOperator':
            return self.truth(n.c[0], d + 1)
        if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.get('op') in ('==', '!='):
            p = [x for x in n.c if x is not None][-2:]
            fs = [self.field(x) for x in p]
            for x, y in ((0, 1), (1, 0)):
                if fs[x] in ('mapping', 'next') and strip(p[y]).k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr', 'IntegerLiteral'):
                    return (self.mapping if fs[x] == 'mapping' else self.nxt) == (n.get('op') == '!=')
                if self.tok(p[x], {}) == 'M' and self.tok(p[y], {}) == 'T':
                    return self.same == (n.get('op') == '==')
            return None
        f = self.field(n)
        if f in ('mapping', 'next'):
            return self.mapping if f == 'mapping' else self.nxt
        if n.k == 'DeclRefExpr' and n.get('id') in self.init and 'bool' in (n.t or ''):
            return self.truth(self.init[n.get('id')], d + 1)
        return None

    def known(self, n, d=0):
        """made of nothing but comparisons of the mapping tag with a tag of the reading"""
        n = strip(n)
        if n is None or d > 8:
            return False
        if n.k in ('UnaryOperator', 'CXXRewrittenBinaryOperator'):
            return self.known(n.c[0], d + 1)
        if n.k == 'BinaryOperator' and n.get('op') in ('&&', '||'):
            return all(self.truth(x) is not None or self.known(x, d + 1) for x in n.c)
        if n.k == 'DeclRefExpr' and n.get('id') in self.init:
            return self.known(self.init[n.get('id')], d + 1)
        return n.k == 'BinaryOperator' and {self.tok(x, {}) for x in n.c} == {'M', 'T'}

    def run(self):
        f = self.f
        start = frozenset({'hash': frozenset(['old']), 'hash_plain': frozenset(['old'])}.items())
        seen, work, ends = set(), [(f.cfg.entry, start)], set()
        while work:
            b, s = work.pop()
            if (b, s) in seen or len(seen) > 20000:
                continue
            seen.add((b, s))
            if b == f.cfg.exit:
                ends.add(s)
                continue
            env = dict(s)
            B = f.cfg.b[b]
            for e in B.els:
                if isinstance(e, tuple):
                    continue
                if e.k in CALLS and e.get('fs') == 'rehash' and recv(e) is not None and self.field(recv(e)) == 'next':
                    env[('next',)] = True
                elif e.k == 'BinaryOperator' and e.get('op') == '=':
                    l = self.field(e.c[0])
                    if l in ('hash', 'hash_plain'):
                        env[l] = self.val(e.c[1], env)
                    elif strip(e.c[0]).k == 'DeclRefExpr' and strip(e.c[0]).get('id') in env:
                        env[strip(e.c[0]).get('id')] = self.val(e.c[1], env)
                elif e.k in CALLS:
                    for a, t in zip(args(e), e.get('pt') or []):
                        l = self.field(a) if a is not None else None
                        if t.rstrip().endswith('&') and 'const' not in t:
                            if l in ('hash', 'hash_plain'):
                                env[l] = frozenset('?')
                            elif a is not None and strip(a).k == 'DeclRefExpr' and strip(a).get('id') in env:
                                env[strip(a).get('id')] = frozenset('?')
                elif e.k == 'CompoundAssignOperator':
                    l = self.field(e.c[0])
                    if l in ('hash', 'hash_plain'):
                        env[l] = frozenset('?')
                elif e.k == 'DeclStmt':
                    for v in e.c:
                        if v is not None and v.k == 'VarDecl' and v.c and v.c[0] is not None and (v.t or '').replace('const ', '').strip() in ('uint32_t', 'unsigned int', 'unsigned'):
                            i = strip(v.c[0])
                            if i.ev is not None or self.field(i) in ('hash', 'hash_plain') or i.k in CALLS and i.get('fs') == 'hash_value':
                                env[v.get('id')] = self.val(i, env)
            succ = B.succ
            if len(succ) == 2 and B.cond is not None:
                cn = strip(B.cond)
                if B.term is not None and B.term.k == 'BinaryOperator' and B.term.get('op') in ('&&', '||') and cn is B.term:
                    cn = strip(cn.c[0])
                v = self.truth(cn)
                loop = B.term is not None and B.term.k in ('CXXForRangeStmt', 'ForStmt', 'WhileStmt')
                if v is None and not loop and not self.known(cn):
                    env[('unknown',)] = True
                for i, t in enumerate(succ):
                    if t < 0 or v is not None and v != (i == 0):
                        continue
                    e2 = dict(env)
                    if loop and i == 0:
                        e2[('loop', b)] = True
                    elif loop and ('loop', b) not in e2:
                        continue
                    work.append((t, frozenset(e2.items())))
            else:
                for t in succ:
                    if t >= 0:
                        work.append((t, frozenset(env.items())))
        return [dict(s) for s in ends]


def hashes(ctx, P):
    f = P.fn('Reading::rehash')
    ctx.saw(f)
    where = '%s:%d' % (f.file, f.line)
    for mp, nx, same in ((False, False, False), (True, False, False), (True, False, True), (False, True, False), (True, True, False)):
        ends = Hash(f, mp, nx, same).run()
        if not ends:
            raise Broken('no path through Reading::rehash')
        tags = set() if same else {'T'}
        want = {'hash': tags | ({'M'} if mp else set()) | ({'N'} if nx else set()), 'hash_plain': tags}
        what = '%s mapping tag, %s subreading%s' % ('with' if mp else 'without', 'with' if nx else 'without', ', for the mapping tag itself' if same else '')
        for h in ('hash', 'hash_plain'):
            got = {e[h] for e in ends if ('unknown',) not in e}
            bad = [g for g in got if '?' not in g and set(g) != want[h]]
            ctx.check(not bad, 'hash', '%s/%d%d%d' % (h, mp, nx, same), where, '%s is made of its parts (%s)' % (h, what),
                      '%s of a reading (%s) is made of %s and not of %s (T: its tags, M: the mapping tag, N: the new hash of the subreading)' % (h, what, ' '.join(sorted(bad[0])) if bad and bad[0] else 'nothing', ' '.join(sorted(want[h])) or 'nothing'))

    class L(Spec):
        def mut(self, root, op, node, fn):
            if root.kind == 'field' and short(root.cls) == 'Reading' and root.field == 'tags_string':
                if op in ('clear',):
                    return (('+', 'CLR'), ('+', 'STALE'))
                # a line made elsewhere, whose hash is taken from there
                names = {m.get('id') for m in node.walk() if m.k == 'DeclRefExpr' and m.get('dk') == 'Var'}
                if op in ('swap', '=', 'assign', 'operator=') and any(x.k == 'BinaryOperator' and x.get('op') == '=' and strip(x.c[0]).k == 'MemberExpr' and strip(x.c[0]).get('m') == 'tags_string_hash'
                                                     and any(m.k == 'DeclRefExpr' and m.get('id') in names for m in x.c[1].walk()) for x in fn.walk()):
                    return (('-', 'STALE'),)
                return (('-', 'CLR'), ('+', 'STALE'))
            return ()

        def env_node(self, n, env, fn, A):
            if n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]).k == 'MemberExpr' and strip(n.c[0]).get('m') == 'tags_string_hash':
                r = from_local(strip(n.c[1]), fn, P)
                if r.ev == 0:
                    return (('-', 'STALE'),) if env.get(('a', 'CLR')) == '+' else ()
                if r.k in CALLS and r.get('fs') == 'hash_value' and any(m.k == 'MemberExpr' and m.get('m') == 'tags_string' or m.k == 'DeclRefExpr' and m.get('dk') == 'Var' and 'basic_string' in (m.t or '') and 'Tag' not in (m.t or '') for m in r.walk()) \
                        or r.k == 'MemberExpr' and r.get('m') == 'tags_string_hash':
                    return (('-', 'STALE'),)
            return ()
        def skip(self, t):
            return t.id not in touch
    k = 0
    touch = {f.id: f for f in P.funcs.values() if f.body is not None and any(n.k == 'MemberExpr' and n.get('m') == 'tags_string' and short(n.get('mc')) == 'Reading' for n in f.walk())}
    for f in touch.values():
        A = Analysis(P, L())
        S = A.run(f).get(f.cfg.exit, set())
        if not any(('a', 'STALE') in {x[0] for x in s} for s in S):
            continue
        k += 1
        ctx.saw(f)
        ctx.check(not any('STALE' in atoms(s) for s in S), 'hash', 'line/' + f.q, '%s:%d' % (f.file, f.line), 'the hash of the line of tags is computed after the line was changed',
                  'the line of tags of an ordered grammar can be changed without its hash being computed from it afterwards')
    if not k:
        raise Broken('nothing writes the line of tags any more')


def from_local(n, f, P, d=0):
    if n is not None and n.k == 'DeclRefExpr' and d < 4:
        x, df = decl_of(f, n.get('id'), P)
        if x is not None and x.c and x.c[0] is not None and not Own(P).reassigned(df, n.get('id')):
            return from_local(strip(x.c[0]), df, P, d + 1)
    return n


def filters(ctx, P, prim):
    """the sets a tag may be in are noted on the cohort"""
    f = prim.core

    class F(Spec):
        def infeasible(self, n, val, env, fn):
            n = from_local(strip(n), fn, P)
            while n is not None and (n.k == 'CXXRewrittenBinaryOperator' or n.k == 'UnaryOperator' and n.get('op') == '!'):
                if n.k == 'UnaryOperator':
                    val = not val
                n = strip(n.c[0])
            op = (n.get('op') or (n.get('fs') or '').replace('operator', '')) if n is not None else None
            if op in ('==', '!=') and any(m.k == 'DeclRefExpr' and m.get('id') in its or m.k == 'MemberExpr' and m.get('m') == 'sets_by_tag' for m in n.walk()):
                return val == (op == '==')
            return False

        def node(self, n, fn):
            if n.k in ('CompoundAssignOperator', 'CXXOperatorCallExpr') and n.get('op') == '|=' or n.k in CALLS and n.get('fs') in ('operator|=', 'insert_if_exists', 'insert'):
                if any(m.k == 'MemberExpr' and m.get('m') == 'possible_sets' or m.k == 'DeclRefExpr' and m.get('id') in named for m in n.walk()):
                    return (('+', 'NOTED'),)
            return ()
        def skip(self, t):
            return not any(m.k == 'MemberExpr' and m.get('m') == 'possible_sets' for m in t.walk())
    named = {v.get('id') for v in f.walk() if v.k == 'VarDecl' and v.c and v.c[0] is not None and (v.t or '').rstrip().endswith(('&', '*'))
             and any(m.k == 'MemberExpr' and m.get('m') == 'possible_sets' for m in v.c[0].walk())}
    its = {v.get('id') for v in f.walk() if v.k == 'VarDecl' and v.c and v.c[0] is not None and any(m.k == 'MemberExpr' and m.get('m') == 'sets_by_tag' for m in v.c[0].walk())}
    if not any(m.k == 'MemberExpr' and m.get('m') == 'sets_by_tag' for m in f.walk()):
        raise Broken('addTagToReading no longer looks at sets_by_tag')
    S = Analysis(P, F()).run(f).get(f.cfg.exit, set())
    ctx.check(bool(S) and all('NOTED' in atoms(s) for s in S), 'add', 'sets', '%s:%d' % (f.file, f.line), 'the sets the tag is in are noted as possible for the cohort',
              'a tag is added to a reading and the sets it is in are not noted as possible for its cohort')


# ---------------------------------------------------------------- editing by hand
def direct(ctx, P, prim):
    host, rc, cc, rs = callbacks(P)
    kinds = rule_types(P)
    touch = {}
    prims = {prim.core.id, prim.dcore.id, prim.reflow.id} | {f.id for f in prim.add} | {f.id for f in prim.dele}
    am = amalgam(P)
    inner = {f.id for f in P.funcs.values() if f.is_lambda and f.d.get('parent') in (host.id, rc.id, cc.id)} | {rc.id, cc.id, host.id}
    seen = set()

    def report(f, S, where, tag):
        bad, had = set(), set()
        for s in S:
            eds = {}
            at = set(atoms(s))
            allk = {k[1] for k, v in s if k[0] == 'a' and isinstance(k[1], tuple)}
            for a in at:
                if a[0] == 'ED':
                    eds.setdefault(a[2], set()).add(a[1])
                if a[0] == 'MAP':
                    if not isinstance(a[1], tuple):
                        bad.add('sets the mapping tag of a reading it did not add that tag to')
            for a in allk:
                if isinstance(a, tuple) and a[0] in ('ED', 'STALE'):
                    had.add(a[1] if a[0] == 'STALE' else a[2])
            for o, fs in eds.items():
                if isinstance(o, tuple) or o in ('THIS', 'BAG'):
                    continue
                if fs != set(FIVE):
                    bad.add('edits %s of a reading and leaves %s as it was' % (', '.join(sorted(fs)), ', '.join(sorted(set(FIVE) - fs))))
                elif ('STALE', o) in at:
                    bad.add('edits the tags of a reading and leaves its hashes as they were')
            for a in at:
                if a[0] == 'STALE' and not isinstance(a[1], tuple) and a[1] not in ('THIS', 'BAG') and a[1] not in eds:
                    bad.add('changes the tags of a reading and leaves its hashes as they were')
        if had or bad:
            ctx.check(not bad, 'direct', tag, where, '%s indexes readings anew after editing them' % tag, '%s %s' % (tag, '; '.join(sorted(bad))))
        return had

    for k in sorted(kinds):
        for name, f in (('reading', rc), ('cohort', cc)):
            S = mk(P, RuleSpec, (P, k), prim)
            A = Analysis(P, S)
            ss = A.summary(f)
            ctx.saw(f)
            ctx.saw(*A.visited)
            report(f, ss, '%s:%d' % (f.file, f.line), '%s/%s' % (k, name))
    callers = {}
    for f in P.funcs.values():
        if f.body is not None:
            for n in f.walk():
                if n.k in CALLS:
                    for t in P.targets(n):
                        callers.setdefault(t.id, {})[f.id] = f
    work, done, leaky = sorted(P.funcs.values(), key=lambda f: (f.file, f.line)), set(), set()
    ext = set()
    while work:
        f = work.pop(0)
        if f.id in done or f.body is None or f.cfg is None or f.id in inner or f.q in EXEMPT or f.q in SKIP or f.id in prims or f.id == am.id or short(f.cls) == 'Reading':
            continue
        if f.id not in ext and not any(x.k == 'MemberExpr' and short(x.get('mc')) == 'Reading' and x.get('m') in FIVE + ('mapping',) for x in f.walk()) \
                and not any(x.k in CALLS and x.get('fid') in {g.id for g in prim.add} and len(args(x)) > 2 for x in f.walk()):
            continue
        S = mk(P, prim=prim)
        A = Analysis(P, S)
        own = f.id in ext or any(x[0] == 'A' and x[1] == '+' and x[2][0] in ('ED', 'STALE') for n in f.walk() for x in A.raw(n, f)) or any(x.k == 'BinaryOperator' and x.get('op') == '=' and strip(x.c[0]).k == 'MemberExpr' and strip(x.c[0]).get('m') == 'mapping' for x in f.walk())
        if not own:
            continue
        ctx.saw(f)
        done.add(f.id)
        ss = A.summary(f)
        report(f, ss, '%s:%d' % (f.file, f.line), f.q)
        if any(isinstance(o, tuple) for s in ss for a in atoms(s) if a[0] in ('ED', 'STALE') for o in (a[2] if a[0] == 'ED' else a[1],)):
            # left to the callers
            cs = [g for g in callers.get(f.id, {}).values()]
            ctx.check(bool(cs) or f.is_lambda, 'direct', 'leaves:' + f.q, '%s:%d' % (f.file, f.line), 'what it leaves undone is looked at in its callers', '%s edits the tags of a reading it is handed, does not index it anew, and nothing calls it that could' % f.q)
            for g in cs:
                if g.id not in done:
                    ext.add(g.id)
                    work.insert(0, g)
    # a reading made from a reading and its subreadings
    A = Analysis(P, Spec())
    got = set()
    for n in am.walk():
        if n.k in CALLS and recv(n) is not None and n.get('fs') in ('insert', 'push_back', 'emplace', 'operator[]'):
            r = A.root(recv(n), am)
            if r.kind == 'field' and short(r.cls) == 'Reading':
                got.add(r.field)
    ctx.saw(am)
    miss = [x for x in FIVE + BLOOM if x not in got]
    ctx.check(not miss, 'direct', 'amalgam', '%s:%d' % (am.file, am.line), 'the reading made from all subreadings has all their indexes', 'the reading made from all subreadings lacks their %s' % ', '.join(miss))
    ins = Analysis(P, mk(P, prim=prim))
    bad = any(a[0] == 'STALE' for s in ins.summary(am) for a in atoms(s))
    ctx.check(not bad, 'direct', 'amalgam-hash', '%s:%d' % (am.file, am.line), 'its hashes are computed', 'the reading made from all subreadings has the hashes of the first')


# ---------------------------------------------------------------- the bag of tags has no cohort
def bag(ctx, P):
    own = Own(P)
    # functions a bag can be handed to
    start = []
    for f in P.funcs.values():
        if f.body is None:
            continue
        for n in f.walk():
            if n.k in CALLS and short(n.get('cls')) != 'Reading':
                for i, a in enumerate(args(n)):
                    if own(a, f) == 'BAG':
                        for t in P.targets(n):
                            if i < len(t.params) and 'Reading' in t.params[i]['t']:
                                start.append((t, i))
    if not start:
        raise Broken('nothing is matched against the bag of tags')
    work, todo = list(start), {}
    while work:
        t, i = work.pop()
        if (t.id, i) in todo or t.body is None:
            continue
        todo[(t.id, i)] = t
        subs = [t] + [g for g in P.funcs.values() if g.is_lambda and g.d.get('parent') == t.id]
        for g in subs:
            for n in g.walk():
                if n.k in CALLS:
                    for j, a in enumerate(args(n)):
                        o = own(a, g)
                        if o == ('P', i) and g is t or g is not t and o == 'L:%s' % t.params[i]['id']:
                            for u in P.targets(n):
                                if j < len(u.params) and 'Reading' in u.params[j]['t']:
                                    work.append((u, j))
    for (fid, i), f in sorted(todo.items(), key=lambda x: (x[1].file, x[1].line, x[0][1])):
        subs = [(f, ('P', i))] + [(g, 'L:%s' % f.params[i]['id']) for g in P.funcs.values() if g.is_lambda and g.d.get('parent') == fid]
        for g, o in subs:
            if g.cfg is None:
                continue
            sites = [n for n in g.walk() if n.k == 'MemberExpr' and n.get('m') == 'parent' and short(n.get('mc')) == 'Reading' and own(n.c[0] if n.c else None, g) == o]
            sites = [n for n in sites if deref(n)]
            al = aliases(g, o, own)
            if not sites and not al:
                continue
            ctx.saw(g)

            class NN(Spec):
                def assume(self, n, val, fn):
                    n2 = strip(n)
                    if n2 is None:
                        return ()
                    if is_par(n2):
                        return [('+' if val else '-', 'NN')]
                    op, a, b = cmp_parts(n2)
                    if op in ('==', '!='):
                        for x, y in ((a, b), (b, a)):
                            if x is not None and is_par(x) and y is not None and (y.k == 'CXXNullPtrLiteralExpr' or str(y.ev) == '0'):
                                return [('+' if (op == '!=') == val else '-', 'NN')]
                    return ()

                def env_node(self, n, env, fn, A):
                    if n.k == 'MemberExpr' and n.c and is_par(strip(n.c[0])) and env.get(('a', 'NN')) != '+' and fn.id == g.id:
                        return [('+', ('BAD', n.l))]
                    return ()

                def call(self, n, fn):
                    return []

            def is_par(x):
                if x is None:
                    return False
                if x.k == 'MemberExpr':
                    return x.get('m') == 'parent' and short(x.get('mc')) == 'Reading' and own(x.c[0] if x.c else None, g) == o
                return x.k == 'DeclRefExpr' and x.get('id') in al
            A = Analysis(P, NN())
            A.reach = {g.id: True}
            ins = A.run(g)
            bad = set()
            for b, ss in ins.items():
                for s in ss:
                    cur = [s]
                    for e in g.cfg.b[b].els:
                        cur = [t for c in cur for t in A.step(c, e, g)]
                    for c in cur:
                        bad |= {a[1] for a in atoms(c) if a[0] == 'BAD'}
            ls = sorted({n.l for n in g.walk() if n.k == 'MemberExpr' and n.c and is_par(strip(n.c[0]))})
            for l in ls:
                ctx.check(l not in bad, 'bag', '%s/%d' % (g.q, ls.index(l)), '%s:%d' % (g.file, l), 'the reading is known to belong to a cohort', '%s looks at the cohort of a reading that may be the bag of tags, which has none' % g.q)


def deref(n):
    p = n.p
    while p is not None and p.k in ('ImplicitCastExpr', 'ParenExpr'):
        p = p.p
    return p is not None and (p.k == 'MemberExpr' or p.k == 'UnaryOperator' and p.get('op') == '*')


def aliases(g, o, own):
    al = set()
    for d in g.walk():
        if d.k == 'VarDecl' and d.c and d.c[0] is not None:
            i = strip(d.c[0])
            if i is not None and i.k == 'MemberExpr' and i.get('m') == 'parent' and short(i.get('mc')) == 'Reading' and own(i.c[0] if i.c else None, g) == o:
                al.add(d.get('id'))
    return al


# ---------------------------------------------------------------- results nobody looks at
MATCH = ('doesSetMatchReading', 'doesSetMatchReading_tags', 'doesSetMatchReading_trie', 'doesSetMatchCohortNormal', 'doesSetMatchCohortCareful', 'doesSetMatchCohort_helper', 'doesSetMatchCohort_testLinked',
         'doesTagMatchReading', 'doesTagMatchSet', 'doesTagMatchRegexp', 'doesTagMatchIcase', 'doesRegexpMatchReading', 'doesRegexpMatchLine', 'doesTagMatchValue', 'doesWordformsMatch',
         'runContextualTest', 'runContextualTest_tmpl', 'runSingleTest', 'runDependencyTest', 'runParenthesisTest', 'runRelationTest', 'runTmplTest', 'test_tag_numerical')


def lost(ctx, P):
    nstores = 0
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or f.cfg is None:
            continue
        stores = {}
        for n in f.walk():
            src = var = None
            if n.k == 'VarDecl' and n.c and n.c[0] is not None and not (n.t or '').strip().endswith('&'):
                src, var = n.c[0], n.get('id')
            elif n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]) is not None and strip(n.c[0]).k == 'DeclRefExpr':
                src, var = n.c[1], strip(n.c[0]).get('id')
            if src is not None and is_ptr(n if n.k == 'VarDecl' else strip(n.c[0])):
                continue          # found cohorts come with a flag of their own
            if src is not None and any(x.k in CALLS and x.get('fs') in MATCH for x in src.walk()):
                stores.setdefault(var, []).append(n)
        for var, ss in stores.items():
            d, df = decl_of(f, var, P)
            if d is None or df is not f:
                continue        # captured or a member: other functions may look at it
            if any(g.is_lambda and g.d.get('parent') == f.id and any(x.k == 'DeclRefExpr' and x.get('id') == var for x in g.walk()) for g in P.funcs.values()):
                continue
            for n in ss:
                nstores += 1
                w = overwritten(f, n, var)
                ctx.check(w is None, 'lost', '%s/%s' % (f.q, ss.index(n)), n.where(), 'the result is looked at before it is replaced', '%s: the result of matching is overwritten at line %s before anything looked at it' % (f.q, w.l if w is not None else '?'))
                ctx.saw(f)


def is_ptr(n):
    return (n.t or '').strip().endswith('*')


def kind_of(e, var):
    """'w' element overwrites var, 'r' reads it, None"""
    if isinstance(e, tuple):
        return None
    if e.k == 'BinaryOperator' and e.get('op') == '=' and strip(e.c[0]) is not None and strip(e.c[0]).k == 'DeclRefExpr' and strip(e.c[0]).get('id') == var:
        # a constant put in its place is a decision, not an accident
        return 'w' if any(x.k in CALLS for x in e.c[1].walk()) else 'd'
    if e.k == 'DeclStmt':
        if any(d is not None and d.k == 'VarDecl' and d.get('id') == var for d in e.c):
            return 'd'
        return None
    if e.k == 'DeclRefExpr' and e.get('id') == var:
        p = e.p
        q = e
        while p is not None and p.k == 'ParenExpr':
            q, p = p, p.p
        if p is not None and p.k == 'BinaryOperator' and p.get('op') == '=' and p.c[0] is q:
            return None
        return 'r'
    return None


def overwritten(f, n, var):
    el = n if n.k != 'VarDecl' else n.p
    start = None
    for B in f.cfg.b.values():
        for j, e in enumerate(B.els):
            if e is el or (not isinstance(e, tuple) and e.k == 'DeclStmt' and n in e.c):
                start = (B, j)
    if start is None:
        return None
    seen = set()
    work = [(start[0].id, start[1] + 1)]
    while work:
        b, j = work.pop()
        B = f.cfg.b[b]
        stop = False
        for e in B.els[j:]:
            k = kind_of(e, var)
            if k == 'r' or k == 'd':
                stop = True
                break
            if k == 'w':
                return e
        if stop or B.nr:
            continue
        for t in B.succ:
            if t >= 0 and t not in seen:
                seen.add(t)
                work.append((t, 0))
    return None
