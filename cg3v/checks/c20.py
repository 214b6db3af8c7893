"""C20: keyword / flag identity.  Tables aligned with their enums, flag fields only masked with flags of their own family,
every rule type the parser can create has its own branch in the rule runner."""
import re
from collections import Counter, defaultdict
from ..extract import Broken

# one spelling per keyword; where the enumerator and the spelling differ on purpose
KEYWORD_SPELLING = {
    'K_IGNORE': None,          # dummy type, must not be a word a user can write
}
TABLE_MIN = 30


def enum_list(P, const):
    for e in P.enums.values():
        if any(c[0] == const for c in e['cs']):
            return [(c[0], int(c[1])) for c in e['cs']], e
    raise Broken('enum with %s vanished' % const)


def table(P, name):
    """list of string literals of a global constant array of strings"""
    for g in P.globals.values():
        if g['q'] == name and g['nodes']:
            root = g['nodes'][g['init']] if isinstance(g.get('init'), int) else None
            ns = g['nodes']

            def lits(i):
                n = ns[i]
                if n['k'] == 'StringLiteral':
                    return [n.get('v')]
                r = []
                for c in n.get('c', ()):
                    if c >= 0:
                        r += lits(c)
                return r
            out = []
            il = root
            while il is not None and il['k'] != 'InitListExpr':
                cs = [c for c in il.get('c', ()) if c >= 0]
                il = ns[cs[0]] if cs else None
            if il is None:
                raise Broken('table %s has no initialiser list' % name)
            for c in il['c']:
                l = lits(c) if c >= 0 else []
                out.append(l[0] if l else None)
            return out, '%s:%d' % (g['file'], g['line'])
    raise Broken('table %s vanished' % name)


def consts(n):
    return [m for m in n.walk() if m.k == 'DeclRefExpr' and m.get('dk') == 'EnumConstant']


def strip(n):
    while n is not None and n.k in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr'):
        n = n.c[0]
    return n


def fieldof(n):
    n = strip(n)
    if n.k == 'MemberExpr' and n.get('dk') == 'Field':
        return '%s.%s' % (n.get('mc'), n.get('m'))
    if n.k == 'BinaryOperator' and n.get('op') in ('&', '|', '^'):
        return fieldof(n.c[0]) or fieldof(n.c[1])
    return None


# which family of constants each flag word holds (read off the declarations; the confirmed instances are frozen)
FAMILIES = {
    'Rule.flags': 'RF_NEAREST',
    'flags_t.flags': 'RF_NEAREST',
    'Tag.type': 'T_NUMERICAL',
    'Set.type': 'ST_TAG_UNIFY',
    'ContextualTest.pos': 'POS_CAREFUL',
    'dSMC_Context.options': 'POS_CAREFUL',
    'Cohort.type': 'CT_ENCLOSED',
}


def mask_sites(f):
    """(field, enumerator node) pairs where a flag word meets a constant in a bit operation or a direct assignment"""
    for n in f.walk():
        if n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('op') in ('&', '|', '^', '&=', '|=', '^='):
            a, b = n.c
            for x, y in ((a, b), (b, a)):
                fd = fieldof(x)
                if fd:
                    for c in consts(y):
                        # shifted constants are positions, not masks
                        p, shifted = c.p, False
                        m = c
                        while p is not None and m is not y:
                            if p.k == 'BinaryOperator' and p.get('op') == '<<' and p.c[1] is m:
                                shifted = True
                            if p.k in ('CXXMemberCallExpr', 'CallExpr', 'ArraySubscriptExpr', 'CXXOperatorCallExpr', 'MemberExpr'):
                                shifted = True
                            m, p = p, p.p
                        yield n, fd, c, shifted
        elif n.k == 'BinaryOperator' and n.get('op') == '=':
            fd = fieldof(n.c[0]) if strip(n.c[0]).k == 'MemberExpr' else None
            r = strip(n.c[1])
            if fd and r.k in ('DeclRefExpr', 'BinaryOperator') and r.ev is not None:
                for c in consts(r):
                    yield n, fd, c, False


NARROW = ('int', 'unsigned int', 'uint32_t', 'int32_t', 'unsigned', 'short', 'unsigned short', 'char', 'unsigned char')
WIDE = ('unsigned long', 'long', 'unsigned long long', 'long long', 'uint64_t', 'size_t', 'rule_flags_t')


def bare(t):
    return re.sub(r'\b(const|CG3::|std::)\b\s*|&', '', t or '').replace('CG3::', '').replace('std::', '').strip()


def narrow_bit(n, depth=0):
    """the shift of a 32-bit one by an amount that is not constant, below ~ and parentheses and behind locals; None if there is none"""
    from ..ir import strip as full
    n = n if n is None else (n.c[0] if n.k == 'ParenExpr' else n)
    if n is None or depth > 5:
        return None
    if n.k in ('ImplicitCastExpr', 'ParenExpr') or n.k == 'UnaryOperator' and n.get('op') == '~':
        return narrow_bit(n.c[0], depth + 1)
    if n.k == 'BinaryOperator' and n.get('op') == '<<':
        one = full(n.c[0])
        if one.ev is not None and int(one.ev) == 1 and full(n.c[1]).ev is None and bare(n.t) in NARROW:
            return n
        return None
    if n.k in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr'):
        return narrow_bit(n.c[-1], depth + 1)
    if n.k == 'DeclRefExpr' and n.get('dk') == 'Var' and not n.get('g'):
        d = [x for x in n.fn.walk() if x.k == 'VarDecl' and x.get('id') == n.get('id')]
        if len(d) == 1 and d[0].c and d[0].c[0] is not None:
            return narrow_bit(d[0].c[0], depth + 1)
    if n.k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
        for t in n.fn.P.targets(n):
            for r in t.walk():
                if r.k == 'ReturnStmt' and r.c and r.c[0] is not None:
                    x = narrow_bit(r.c[0], depth + 1)
                    if x is not None:
                        return x
    return None


def shifted(n, depth=0):
    if n is None or depth > 5:
        return False
    if n.k == 'BinaryOperator' and n.get('op') == '<<':
        return strip(n.c[1]).ev is None
    if n.k == 'DeclRefExpr' and n.get('dk') == 'Var' and not n.get('g'):
        d = [x for x in n.fn.walk() if x.k == 'VarDecl' and x.get('id') == n.get('id')]
        return len(d) == 1 and bool(d[0].c) and shifted(d[0].c[0], depth + 1)
    if n.k in ('ParenExpr', 'ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr') or n.k == 'UnaryOperator' and n.get('op') == '~':
        return shifted(n.c[-1], depth + 1)
    return False


def wide(ctx, P):
    for f in P.funcs.values():
        for n in f.walk():
            if n.k not in ('BinaryOperator', 'CompoundAssignOperator') or n.get('op') not in ('&', '|', '^', '&=', '|=', '^=', '='):
                continue
            for x, y in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                fd = fieldof(x)
                if fd not in ('Rule.flags', 'flags_t.flags') and not (bare(x.t) == 'rule_flags_t' or x.k == 'DeclRefExpr' and x.get('d') == 'excl'):
                    continue
                nb = narrow_bit(y)
                if nb is not None:
                    ctx.bad('wide', '%s:%s' % (f.q, n.get('op')), nb.where(), 'a flag of a rule is computed as a bit of %s, which has no room for all flags (in %s)' % (nb.t, f.q))
                elif shifted(y):
                    ctx.saw(f)
                    ctx.ok('wide', n.where(), '%s: %s bit of %s' % (f.q, n.get('op'), fd))


def threshold(n):
    """smallest count for which a comparison with a constant holds; None when it is no such comparison"""
    a, b = n.c
    op = n.get('op')
    if strip(a).ev is not None:
        a, b = b, a
        op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
    if strip(b).ev is None:
        return None
    v = int(strip(b).ev)
    return {'>': ('ge', v + 1), '>=': ('ge', v), '<': ('lt', v), '<=': ('lt', v + 1), '==': ('eq', v), '!=': ('ne', v)}.get(op)


def together(ctx, P):
    for f in P.funcs.values():
        refs = [n for n in f.walk() if n.k == 'DeclRefExpr' and n.get('g') and (n.get('q') or '').split('::')[-1] == 'flag_excls']
        if refs:
            for n in f.walk():
                if n.k == 'BinaryOperator' and n.get('op') in ('<', '>', '<=', '>=', '==', '!='):
                    if any(c.k in ('CXXMemberCallExpr', 'CallExpr') and c.get('fs') in ('count', '__builtin_popcount', '__builtin_popcountll', '__builtin_popcountl', 'popcount')
                           for c in n.walk()):
                        t = threshold(n)
                        if t is None:
                            continue
                        ctx.saw(f)
                        ctx.check(t in (('ge', 2), ('lt', 2)), 'together', f.q, n.where(), 'two flags of one family are told from one in %s' % f.q,
                                  'flags of one family are counted against %d in %s: two of them exclude each other' % (t[1], f.q))
        # section flags passed on to rules
        for n in f.walk():
            if n.k == 'CompoundAssignOperator' and n.get('op') == '|=' and fieldof(n.c[0]) == 'Rule.flags':
                loop = None
                for a in n.ancestors():
                    if a.k in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt'):
                        loop = a
                        break
                if loop is None or not any(m.k == 'MemberExpr' and m.get('m') == 'section_flags' for m in loop.walk()):
                    continue
                ctx.saw(f)
                good = any(names_excl(P, m) for m in loop.walk())
                ctx.check(good, 'together', 'section:' + f.q, n.where(), 'section flags give way to flags of the rule',
                          'a section flag is put into a rule without a look at the flags that exclude it (_flags_excls)')


def names_excl(P, m, depth=0):
    if m.k == 'DeclRefExpr' and m.get('g') and (m.get('q') or '').split('::')[-1] in ('_flags_excls', 'flag_excls'):
        return True
    if depth < 2 and m.k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
        return any(names_excl(P, x, depth + 1) for t in P.targets(m) for x in t.walk())
    return False


# flags that contradict each other (Rule.hpp, manual)
EXCL = [('NEAREST', 'ALLOWLOOP'), ('DELAYED', 'IMMEDIATE', 'IGNORED'), ('UNSAFE', 'SAFE'), ('REMEMBERX', 'RESETX'), ('KEEPORDER', 'VARYORDER'),
        ('ENCL_INNER', 'ENCL_OUTER', 'ENCL_FINAL', 'ENCL_ANY'), ('WITHCHILD', 'NOCHILD'), ('ITERATE', 'NOITERATE'), ('BEFORE', 'AFTER')]


def check(ctx):
    P = ctx.P
    ctx.rule('flagpos', 'every rule flag mask is exactly the bit at the position its table entry has', 30)
    ctx.rule('flagname', 'the word at a flag position is the name of that flag', 30)
    ctx.rule('keyword', 'the word at a keyword position is the name of that keyword', 60)
    ctx.rule('unique', 'no word names two flags or two keywords', 2)
    ctx.rule('excl', 'mutually exclusive flag groups consist of single flags and are disjoint', 8)
    ctx.rule('bits', 'no two constants of a bit family share a bit', 80)
    ctx.rule('wide', 'a flag computed from its position is as wide as the flag word it is put into or tested against', 3)
    ctx.rule('together', 'flags of a rule that exclude each other are rejected from two on, and a section flag is only passed on where none of its family is set', 1)
    ctx.rule('handled', 'every rule type the grammar parser can create is acted on by the rule runner', 30)
    ctx.rule('family', 'a flag word is only combined with constants of its own family', 300)

    fl, fe = enum_list(P, 'FL_NEAREST')
    rf, re_ = enum_list(P, 'RF_NEAREST')
    flmap = {n[3:]: v for n, v in fl if n.startswith('FL_')}
    rfmap = {n[3:]: v for n, v in rf}
    where = '%s:%d' % (re_['file'], re_['line'])
    for n, v in rfmap.items():
        if n not in flmap:
            ctx.bad('flagpos', n, where, 'flag mask RF_%s has no position FL_%s' % (n, n))
            continue
        ctx.check(v == 1 << flmap[n], 'flagpos', n, where, 'RF_%s == 1<<FL_%s' % (n, n),
                  'RF_%s is %#x but its position FL_%s is %d' % (n, v, n, flmap[n]))
    for n in flmap:
        if n not in rfmap:
            ctx.bad('flagpos', n, '%s:%d' % (fe['file'], fe['line']), 'flag position FL_%s has no mask' % n)
    tab, w = table(P, 'g_flags')
    cnt = dict(fl).get('FLAGS_COUNT')
    ctx.check(len([t for t in tab if t]) == cnt, 'flagname', 'count', w, 'table has FLAGS_COUNT=%s entries' % cnt,
              'flag table has %d words for %s flags' % (len([t for t in tab if t]), cnt))
    for n, v in flmap.items():
        got = tab[v] if v < len(tab) else None
        ctx.check(got == n, 'flagname', n, w, 'position %d is %r' % (v, got), 'position FL_%s holds the word %r' % (n, got))
    ktab, kw = table(P, 'keywords')
    kl, ke = enum_list(P, 'K_IGNORE')
    kcount = dict(kl)['KEYWORD_COUNT']
    for n, v in kl:
        if not n.startswith('K_'):
            continue
        got = ktab[v] if v < len(ktab) else None
        if n in KEYWORD_SPELLING:
            ctx.check(bool(got) and not re.match(r'^[A-Z-]+$', got), 'keyword', n, kw, '%s is the dummy %r' % (n, got))
            continue
        want = n[2:]
        ctx.check(got is not None and got.replace('-', '_') == want, 'keyword', n, kw, 'keywords[%s] is %r' % (n, got),
                  'position %s holds the word %r' % (n, got))
    ctx.check(len(ktab) == kcount, 'keyword', 'count', kw, 'keyword table has KEYWORD_COUNT entries')
    for nm, t, ww in (('flags', tab, w), ('keywords', ktab, kw)):
        d = [x for x, c in Counter(t).items() if c > 1]
        ctx.check(not d, 'unique', nm, ww, 'all %d words distinct' % len(t), 'duplicated words %r' % d)

    # exclusion groups
    g = [x for x in P.globals.values() if x['q'] == 'flag_excls']
    if not g:
        raise Broken('flag_excls vanished')
    ns = g[0]['nodes']
    il = ns[g[0]['init']]
    while il['k'] != 'InitListExpr':
        il = ns[[c for c in il['c'] if c >= 0][0]]
    used = 0
    groups = set()
    allbits = 0
    for v in rfmap.values():
        allbits |= v
    for i, c in enumerate(il['c']):
        v = ns[c].get('ev')
        ww = '%s:%d' % (g[0]['file'], ns[c].get('l', g[0]['line']))
        if v is None:
            raise Broken('exclusion group %d is not constant' % i)
        v = int(v)
        if v == 0:
            continue
        ctx.check(bin(v).count('1') >= 2 and not v & used and not v & ~allbits, 'excl', 'group%d' % i, ww,
                  'group %#x' % v, 'exclusion group %#x overlaps an earlier group or is no set of flags' % v)
        used |= v
        groups.add(v)
    for g0 in EXCL:
        want = 0
        for n in g0:
            if n not in rfmap:
                raise Broken('flag RF_%s vanished' % n)
            want |= rfmap[n]
        ctx.check(any(want & ~v == 0 for v in groups), 'excl', '/'.join(g0), '%s:%d' % (g[0]['file'], g[0]['line']), 'mutually exclusive: ' + ' '.join(g0),
                  'no exclusion group contains all of ' + ' '.join(g0))

    wide(ctx, P)
    together(ctx, P)
    # families
    fam = {}
    for fd, c0 in FAMILIES.items():
        l, e = enum_list(P, c0)
        fam[fd] = {n for n, v in l}
        cls, m = fd.split('.')
        if m not in [x['d'] for x in P.fields(cls)]:
            raise Broken('flag word %s vanished' % fd)
    for f in P.funcs.values():
        hit = False
        for n, fd, c, shifted in mask_sites(f):
            if fd not in fam:
                continue
            hit = True
            name = (c.get('q') or c.get('d')).split('::')[-1]
            if shifted:
                continue
            ctx.check(name in fam[fd], 'family', '%s:%s:%s' % (f.q, fd, name), n.where(), '%s with %s in %s' % (fd, name, f.q),
                      '%s is masked with %s, which is not one of its flags (in %s)' % (fd, name, f.q))
        if hit:
            ctx.saw(f)
    # bit families: single-bit constants are pairwise disjoint
    for c0 in sorted(set(FAMILIES.values()) | {'BINF_DEP', 'BFW_DEP_SPAN'}):
        l, e = enum_list(P, c0)
        seen = {}
        for n, v in l:
            v &= (1 << 64) - 1
            if n.startswith('MASK_') or bin(v).count('1') != 1:
                if not n.startswith('MASK_') and n.split('_')[0] == c0.split('_')[0]:
                    ctx.bad('bits', n, '%s:%d' % (e['file'], e['line']), '%s is %#x: not a single bit' % (n, v))
                continue
            # BFW_/BFC_/BFR_ words are separate
            k = (n.split('_')[0] if c0 == 'BFW_DEP_SPAN' else '', v)
            ctx.check(k not in seen, 'bits', n, '%s:%d' % (e['file'], e['line']), '%s is %#x' % (n, v), '%s and %s are the same bit %#x' % (n, seen.get(k), v))
            seen.setdefault(k, n)

    # rule types
    pr = P.fn('TextualParser::parseRule')
    made = {}
    for f in P.funcs.values():
        for n in f.walk():
            if n.k in ('CXXMemberCallExpr', 'CallExpr') and n.get('fid') == pr.id:
                for c in consts(n):
                    made.setdefault(c.get('q').split('::')[-1], n)
            if f.cls == 'TextualParser' and n.k == 'BinaryOperator' and n.get('op') == '=' and fieldof(n.c[0]) == 'Rule.type':
                for c in consts(n.c[1]):
                    made.setdefault(c.get('q').split('::')[-1], n)
    # types that are always replaced by a more specific one before the rule is added
    # K_EXECUTE: a documented draft only (manual/drafts.xml), no action is defined for it
    replaced = {'K_EXTERNAL', 'K_ADDCOHORT', 'K_MOVE', 'K_EXECUTE'}
    acted = defaultdict(list)
    for f in P.funcs.values():
        if not f.q.startswith('GrammarApplicator::'):
            continue
        for n in f.walk():
            if n.k == 'BinaryOperator' and n.get('op') == '==' and fieldof(n.c[0]) == 'Rule.type':
                for c in consts(n.c[1]):
                    acted[c.get('q').split('::')[-1]].append(n)
            if n.k == 'SwitchStmt' and fieldof(n.c[1]) == 'Rule.type':
                for cs in n.find('CaseStmt'):
                    for c in consts(cs.c[0]):
                        acted[c.get('q').split('::')[-1]].append(cs)
    for k, n in sorted(made.items()):
        if k in replaced:
            continue
        ctx.check(k in acted, 'handled', k, n.where(), '%s is acted on at %s' % (k, acted[k][0].where() if acted.get(k) else ''),
                  'the parser creates rules of type %s, which the rule runner never looks for' % k)

    # the matcher must be able to fail
    bad = [1 for f in P.funcs.values() for n, fd, c, s in mask_sites(f) if fd == 'Rule.flags' and not s and c.get('q') in fam['Rule.flags']]
    ctx.selftest(len(bad) > 20, 'Rule.flags mask sites are recognised')
    ctx.selftest('FL_NEAREST' not in fam['Rule.flags'], 'flag positions are no members of the mask family')
    ctx.assumptions.append('constants stored in flag words through plain integer variables are not tracked')
