"""C32: the letters of a test position set the documented bits, and the grammar writer writes the letters of the bits that are set."""
from itertools import product
from ..extract import Broken
from ..ir import CALLS, args, canon, is_call, strip
from .c29 import bound_args, resolve

# letters of a contextual position (manual, contexts.xml; ContextualTest.hpp): (characters, bit it sets, bit that must be set already, bits it clears)
LETTERS = [
    ('**', 'SCANALL', None, ()), ('*', 'SCANFIRST', None, ()), ('C', 'CAREFUL', None, ()), ('c', 'DEP_CHILD', None, ()),
    ('c', 'DEP_GLOB', 'DEP_CHILD', ('DEP_CHILD',)), ('p', 'DEP_PARENT', None, ()), ('p', 'DEP_GLOB', 'DEP_PARENT', ()), ('s', 'DEP_SIBLING', None, ()),
    ('S', 'SELF', None, ()), ('N', 'NO_BARRIER', None, ()), ('<', 'SPAN_LEFT', None, ()), ('>', 'SPAN_RIGHT', None, ()), ('W', 'SPAN_BOTH', None, ()),
    ('@', 'ABSOLUTE', None, ()), ('O', 'NO_PASS_ORIGIN', None, ()), ('o', 'PASS_ORIGIN', None, ()), ('L', 'LEFT_PAR', None, ()), ('R', 'RIGHT_PAR', None, ()),
    ('X', 'MARK_SET', None, ()), ('x', 'JUMP', None, ()), ('D', 'LOOK_DELETED', None, ()), ('d', 'LOOK_DELAYED', None, ()), ('I', 'LOOK_IGNORED', None, ()),
    ('A', 'ATTACH_TO', None, ()), ('w', 'WITH', None, ()), ('?', 'UNKNOWN', None, ()), ('f', 'NUMERIC_BRANCH', None, ()), ('T', 'ACTIVE', None, ()),
    ('t', 'INACTIVE', None, ()), ('B', 'BAG_OF_TAGS', None, ()), ('r:', 'RELATION', None, ()), ('r', 'RIGHT', None, ()), ('r', 'RIGHTMOST', 'RIGHT', ('RIGHT',)),
    ('l', 'LEFT', None, ()), ('l', 'LEFTMOST', 'LEFT', ('LEFT',)), ('jM', 'JUMP', None, ()), ('jA', 'JUMP', None, ()), ('jT', 'JUMP', None, ()), ('jC', 'JUMP', None, ()),
]
# where a jump goes
JUMPS = {'jA': 'JUMP_ATTACH', 'jT': 'JUMP_TARGET'}

# what the writer writes: text, bits one of which must be set, all of which must be set, bits that may have been found unset before
WRITES = [
    ('NEGATE', ('NEGATE',), ()), ('ALL', ('ALL',), ()), ('NONE', ('NONE',), ()), ('NOT', ('NOT',), ()), ('@', ('ABSOLUTE',), ()),
    ('**', ('SCANALL',), ()), ('*', ('SCANFIRST', 'DEP_DEEP'), ('SCANALL',)), ('ll', ('LEFTMOST',), ()), ('l', ('LEFT',), ('LEFTMOST',)),
    ('rr', ('RIGHTMOST',), ()), ('r', ('RIGHT',), ('RIGHTMOST',)), ('c', ('DEP_CHILD',), ()), ('p', ('DEP_PARENT',), ()),
    ('cc', ('DEP_GLOB',), ('DEP_PARENT',)), ('s', ('DEP_SIBLING',), ()), ('S', ('SELF',), ()), ('N', ('NO_BARRIER',), ()), ('?', ('UNKNOWN',), ()),
    ('C', ('CAREFUL',), ()), ('W', ('SPAN_BOTH',), ()), ('<', ('SPAN_LEFT',), ()), ('>', ('SPAN_RIGHT',), ()), ('o', ('PASS_ORIGIN',), ()),
    ('O', ('NO_PASS_ORIGIN',), ()), ('L', ('LEFT_PAR',), ()), ('R', ('RIGHT_PAR',), ()), ('X', ('MARK_SET',), ()), ('x', ('JUMP',), ()), ('jA', ('JUMP',), ()),
    ('jT', ('JUMP',), ()), ('jC%d', ('JUMP',), ()), ('D', ('LOOK_DELETED',), ()), ('d', ('LOOK_DELAYED',), ()), ('T', ('ACTIVE',), ()), ('t', ('INACTIVE',), ()),
    ('I', ('LOOK_IGNORED',), ()), ('A', ('ATTACH_TO',), ()), ('w', ('WITH',), ()), ('B', ('BAG_OF_TAGS',), ()), ('r:', ('RELATION',), ()),
]
# positions that cannot have an offset
NO_OFFSET = {'DEP_CHILD', 'DEP_SIBLING', 'DEP_PARENT', 'DEP_GLOB', 'LEFT_PAR', 'RIGHT_PAR', 'RELATION', 'BAG_OF_TAGS'}
# set while parsing, never left in a finished test: tests with 'f' are split into a careful and a plain one
GONE = {'NUMERIC_BRANCH': 'split into two tests when the grammar is read'}


def posmask(n):
    """names of the POS_ constants in an expression (through ~ and casts); None when there is something else"""
    n = resolve(n)
    if n is None:
        return None
    if n.k == 'DeclRefExpr' and n.get('dk') == 'EnumConstant':
        d = n.get('d')
        return {d[4:]} if d.startswith('POS_') else None
    if n.k == 'BinaryOperator' and n.get('op') in ('|', '+'):
        a, b = posmask(n.c[0]), posmask(n.c[1])
        return None if a is None or b is None else a | b
    if n.k == 'UnaryOperator' and n.get('op') == '~':
        return posmask(n.c[0])
    if n.k == 'DeclRefExpr' and n.get('dk') == 'ParmVar':
        return {('param', n.get('id'))}
    if n.k == 'CallExpr' and len(args(n)) == 1:
        return posmask(args(n)[0])
    return None


def is_pos(n):
    n = resolve(n)
    return n is not None and n.k == 'MemberExpr' and n.get('m') == 'pos' and n.get('mc') == 'ContextualTest'


def ptest(n):
    """bits tested by `test.pos & BITS`"""
    n = resolve(n)
    if n is None:
        return None
    if n.k == 'BinaryOperator' and n.get('op') in ('!=',) and strip(n.c[1]).ev is not None and int(strip(n.c[1]).ev) == 0:
        return ptest(n.c[0])
    if n.k == 'BinaryOperator' and n.get('op') == '&':
        for a, b in ((0, 1), (1, 0)):
            if is_pos(n.c[a]):
                return posmask(n.c[b])
    return None


def char_at(n):
    """offset from the reading position when n is a character there"""
    n = resolve(n)
    if n is None:
        return None
    if n.k == 'UnaryOperator' and n.get('op') == '*':
        b = strip(n.c[0])
        k = 0
        if b.k == 'BinaryOperator' and b.get('op') == '+' and strip(b.c[1]).ev is not None:
            k = int(strip(b.c[1]).ev)
            b = strip(b.c[0])
        if b.k == 'DeclRefExpr' and 'char16_t' in b.t:
            return k
    if n.k == 'ArraySubscriptExpr' and strip(n.c[1]).ev is not None:
        b = strip(n.c[0])
        if b.k == 'DeclRefExpr' and 'char16_t' in b.t:
            return int(strip(n.c[1]).ev)
    return None


def ptest_char(n):
    """(offset, character or parameter) of `p[k] == 'x'`"""
    n = strip(n)
    if n.k == 'BinaryOperator' and n.get('op') == '==':
        for a, b in ((0, 1), (1, 0)):
            k = char_at(n.c[a])
            if k is None:
                continue
            v = resolve(n.c[b])
            if v.ev is not None:
                return k, chr(int(v.ev))
            if v.k == 'DeclRefExpr' and v.get('dk') == 'ParmVar':
                return k, ('param', v.get('id'))
    return None


def conjuncts(n):
    n = strip(n)
    if n is None:
        return []
    if n.k == 'BinaryOperator' and n.get('op') == '&&':
        return conjuncts(n.c[0]) + conjuncts(n.c[1])
    if n.k == 'DeclRefExpr' and resolve(n) is not n and not n.get('g'):
        return conjuncts(resolve(n))
    return [n]


def requirements(n):
    """(conditions that hold, conditions that do not hold, innermost governing then-branch) where n stands"""
    pos, neg, inner = [], [], None
    ch = n
    for a in n.ancestors():
        if a.k == 'IfStmt':
            if len(a.c) > 2 and a.c[2] is not None and a.c[2] is ch:
                pos += conjuncts(a.c[1])
                inner = inner or ch
            elif len(a.c) > 3 and a.c[3] is ch:
                neg.append(a.c[1])
        elif a.k == 'ConditionalOperator':
            if a.c[1] is ch:
                pos += conjuncts(a.c[0])
            elif a.c[2] is ch:
                neg.append(a.c[0])
        elif a.k == 'CaseStmt':
            sw = [x for x in a.ancestors() if x.k == 'SwitchStmt']
            if sw:
                pos.append(('case', sw[0].c[1], a.c[0]))
                inner = inner or a
        ch = a
    return pos, neg, inner


def bindings(P, f, used):
    """values of the parameters in `used` at each call of f, as dictionaries"""
    ids = sorted(used)
    if not ids:
        return [{}]
    cols = [bound_args(P, f, i) for i in ids]
    if not cols or not cols[0] or len({len(c) for c in cols}) != 1:
        return []
    return [dict(zip(ids, row)) for row in zip(*cols)]


def moves(P, branch, skip=()):
    """characters by which the reading position moves in a branch, None when not constant; nested branches are left out"""
    total = 0

    def go(n):
        nonlocal total
        if n is None or total is None:
            return
        if n.k in ('IfStmt', 'ForStmt', 'WhileStmt') and n is not branch:
            return
        tgt = None
        if n.k == 'UnaryOperator' and n.get('op') in ('++', '--'):
            tgt, d = n.c[0], 1 if n.get('op') == '++' else -1
        elif n.k == 'CompoundAssignOperator' and n.get('op') in ('+=', '-='):
            tgt, d = n.c[0], strip(n.c[1]).ev
            d = None if d is None else int(d) if n.get('op') == '+=' else -int(d)
        elif n.k == 'CallExpr' and n.get('fs') == 'advance':
            tgt, d = args(n)[0], strip(args(n)[1]).ev
            d = None if d is None else int(d)
        if tgt is not None and strip(tgt).k == 'DeclRefExpr' and 'char16_t' in strip(tgt).t and '*' in strip(tgt).t:
            total = None if d is None else total + d
        for c in n.c:
            go(c)
    go(branch)
    return total


def letters(P, f):
    """(word, bits set, bits that must be set, bits cleared, characters moved, jump target, node) for each place that sets position bits"""
    res = []
    for n in f.walk():
        if n.k == 'CompoundAssignOperator' and n.get('op') == '|=' and is_pos(n.c[0]):
            m = posmask(n.c[1])
        elif n.k == 'BinaryOperator' and n.get('op') == '=' and is_pos(n.c[0]):
            r = strip(n.c[1])
            m = None
            if r.k == 'BinaryOperator' and r.get('op') == '|':
                m = posmask(r.c[1]) if is_pos(r.c[0]) else posmask(r.c[0]) if is_pos(r.c[1]) else None
            if m is None and posmask(n.c[1]):
                m = posmask(n.c[1]) | {'nothing else: what stood before is lost'}
        else:
            continue
        if m is None:
            continue
        pos, neg, inner = requirements(n)
        ch, need = {}, set()
        for c in pos:
            if isinstance(c, tuple):
                k = char_at(c[1])
                v = resolve(c[2])
                if k is not None and v is not None and v.ev is not None:
                    ch[k] = chr(int(v.ev))
                continue
            x = ptest_char(c)
            if x:
                ch[x[0]] = x[1]
                continue
            x = ptest(c)
            if x:
                need |= x
        if 0 not in ch:
            continue
        clr, jump = set(), None
        for x in inner.walk():
            if x.k == 'CompoundAssignOperator' and x.get('op') == '&=' and is_pos(x.c[0]):
                clr |= posmask(x.c[1]) or set()
            if x.k == 'BinaryOperator' and x.get('op') == '=' and is_pos(x.c[0]) and strip(x.c[1]).k == 'BinaryOperator' and strip(x.c[1]).get('op') == '&':
                y = strip(x.c[1])
                clr |= (posmask(y.c[1]) if is_pos(y.c[0]) else posmask(y.c[0])) or set()
            if x.k == 'BinaryOperator' and x.get('op') == '=' and strip(x.c[0]).k == 'MemberExpr' and strip(x.c[0]).get('m') == 'jump_pos':
                r = strip(x.c[1])
                jump = r.get('d') if r.k == 'DeclRefExpr' else '?'
        mv = moves(P, inner)
        used = {v[1] for v in list(ch.values()) + list(m) + list(need) + list(clr) if isinstance(v, tuple)}
        for b in bindings(P, f, used):
            def val(v):
                if not isinstance(v, tuple):
                    return {v}
                a = b[v[1]]
                return posmask(a) or set()
            word = ''
            for k in sorted(ch):
                v = ch[k]
                if isinstance(v, tuple):
                    e = resolve(b[v[1]])
                    v = chr(int(e.ev)) if e.ev is not None else '\0'
                word += v
            res.append((word, set().union(*[val(v) for v in m]), set().union(*[val(v) for v in need]) if need else set(),
                        set().union(*[val(v) for v in clr]) if clr else set(), mv, jump, list(b.values())[0] if b else n, n))
    return res


def text_of(n, b):
    n = resolve(n)
    while n is not None and n.k == 'CXXConstructExpr' and n.c:
        n = resolve(n.c[0])
    if n is None:
        return None
    if n.k == 'StringLiteral':
        return n.get('v')
    if n.k == 'CharacterLiteral':
        return chr(int(n.ev if n.ev is not None else n.get('v')))
    if n.k == 'DeclRefExpr' and n.get('id') in b:
        return text_of(b[n.get('id')], {})
    return None


def writes(P, f):
    """(text, tests that hold, tests that do not hold, other conditions, node) for each place that prints under a test of position bits"""
    res = []
    for n in f.walk():
        if n.k not in CALLS or n.k == 'CXXConstructExpr':
            continue
        mine = {p['id'] for p in f.params}

        def texty(a):
            a = resolve(a)
            if a is None:
                return False
            if a.k == 'ConditionalOperator':
                return texty(a.c[1]) and texty(a.c[2])
            return a.k in ('StringLiteral', 'CharacterLiteral') or (a.k == 'DeclRefExpr' and a.get('dk') == 'ParmVar' and 'char' in a.t and 'stream' not in a.t and a.get('id') in mine)
        lits = [a for a in args(n) if texty(a)]
        if not lits or not (n.get('fs') or n.get('fn') or '').startswith(('u_fprintf', 'u_fputs', 'u_fputc', 'operator<<', 'write', 'put', 'ux_')):
            continue
        pos, neg, inner = requirements(n)
        hold, other = [], []
        for c in pos:
            if isinstance(c, tuple):
                other.append(c)
                continue
            x = ptest(c)
            (hold if x is not None else other).append(x if x is not None else c)
        unset = [x for c in neg for x in [ptest(c)] if x is not None]
        vs = [(lits, hold, unset, other)]
        for i, a in enumerate(lits):
            a = resolve(a)
            if a.k == 'ConditionalOperator':
                x = ptest(a.c[0])
                vs = [(lits[:i] + [a.c[1]] + lits[i + 1:], ([x] if x else []) + hold, unset, other + ([] if x else [a.c[0]])),
                      (lits[:i] + [a.c[2]] + lits[i + 1:], hold, unset + ([x] if x else []), other + ([] if x else [a.c[0]]))]
                break
        for lits, hold, unset, other in vs:
          used = {v[1] for s in hold for v in s if isinstance(v, tuple)} | {resolve(a).get('id') for a in lits if resolve(a).k == 'DeclRefExpr'}
          if not hold:
            continue
          for b in bindings(P, f, used):
            def val(s):
                r = set()
                for v in s:
                    r |= (posmask(b[v[1]]) or set()) if isinstance(v, tuple) else {v}
                return r
            t = [text_of(a, b) for a in lits]
            t = ''.join(x for x in t if x is not None)
            if t.strip() == 'pp':
                # both letters of an ancestor at once
                if not any('DEP_PARENT' in val(s) for s in hold):
                    hold = hold + [{'DEP_GLOB'}]
                t = 'p'
                hold = [s for s in hold if 'DEP_PARENT' in val(s)] + [s for s in hold if 'DEP_PARENT' not in val(s)]
                unset = [s for s in unset if val(s) != {'DEP_GLOB'}]
            elif t.strip() == 'p':
                unset = [s for s in unset if val(s) != {'DEP_GLOB'}]
            res.append((t, [val(s) for s in hold], [val(s) for s in unset], other, n))
    return res


PARTS = ('target', 'barrier', 'cbarrier', 'linked', 'tmpl', 'ors', 'relation', 'offset', 'offset_sub', 'jump_pos')
PART_WORDS = {'BARRIER': 'barrier', 'CBARRIER': 'cbarrier', 'LINK': 'linked'}


def tmembers(n):
    return {x.get('m') for x in n.walk() if x.k == 'MemberExpr' and x.get('mc') == 'ContextualTest'}


def parts(ctx, P, wf):
    read, used = {}, {}
    for f in P.funcs.values():
        if f.cls != 'GrammarWriter' and not (f.is_lambda and f.file.endswith('GrammarWriter.cpp')):
            continue
        for n in f.walk():
            if n.k == 'MemberExpr' and n.get('mc') == 'ContextualTest':
                read.setdefault(n.get('m'), n)
                # read for more than a condition
                for a in n.ancestors():
                    if a.k in CALLS or a.k in ('VarDecl', 'CXXForRangeStmt'):
                        used.setdefault(n.get('m'), n)
                        break
                    if a.k in ('IfStmt', 'ReturnStmt', 'CompoundStmt'):
                        break
            if n.k not in CALLS or n.k == 'CXXConstructExpr':
                continue
            words = {w for a in args(n) for w in [(text_of(a, {}) or '').strip().split(' ')[0]] if w in PART_WORDS}
            if not words:
                continue
            w = words.pop()
            m = PART_WORDS[w]
            pos, neg, inner = requirements(n)
            cond = set()
            for c in pos + neg:
                c = c[1] if isinstance(c, tuple) else c
                cond |= tmembers(c)
            got = set()
            for a in args(n):
                got |= tmembers(a)
            msg = None
            if got - {m} and m != 'linked':
                msg = 'behind the word %s the grammar writer writes the %s of a test' % (w, ' '.join(sorted(got - {m})))
            elif cond - {m} - {'pos'} and f.cls == 'GrammarWriter':
                msg = 'the grammar writer writes %s depending on %s' % (w, ' '.join(sorted(cond - {m})))
            ctx.saw(f)
            ctx.check(msg is None, 'part', w, n.where(), '%s is written for %s' % (w, m), msg)
    for m in PARTS:
        n = used.get(m)
        ctx.check(n is not None, 'part', m, n.where() if n else '%s:%d' % (wf.file, wf.line), '%s of a test is written' % m, 'the grammar writer never writes the %s of a test' % m)


def check(ctx):
    P = ctx.P
    ctx.rule('letter', 'a letter of a position sets exactly the bits it is documented to set', 20)
    ctx.rule('consume', 'behind a letter of a position the parser stands just after it', 20)
    ctx.rule('all', 'every documented letter is recognised', 30)
    ctx.rule('write', 'what the grammar writer writes for a position bit is the letter of that bit, whatever other bits are set', 20)
    ctx.rule('offset', 'the writer writes an offset exactly with the positions that can have one', 0)
    ctx.rule('part', 'every part of a test is written, behind its own word and whenever it is there', 10)
    ctx.rule('deep', 'a scan (* or **) of children or siblings is a deep scan and no scan of positions', 1)
    ctx.rule('written', 'every bit that a letter can set is written', 20)

    parse = P.fn('TextualParser::parseContextualTestPosition')
    fs = [parse] + [g for g in P.funcs.values() if g is not parse and g.file == parse.file and (
        (g.is_lambda and parse.line <= g.line <= parse.end) or any(n.k in CALLS and n.get('fid') == g.id for n in parse.walk()))]
    got = []
    for f in fs:
        r = letters(P, f)
        if r:
            ctx.saw(f)
        got += r
    if len(got) < 20:
        raise Broken('only %d position letters recognised in %s' % (len(got), parse.q))
    seen = set()
    for word, bits, need, clr, mv, jump, where, n in got:
        key = '%s:%s' % (word, '+'.join(sorted(bits)))
        cands = [l for l in LETTERS if l[0] == word]
        hit = [l for l in cands if bits == {l[1]}]
        exact = [l for l in hit if ({l[2]} if l[2] else set()) <= need and clr == set(l[3])]
        if not cands:
            ctx.bad('letter', key, where.where(), 'position letter %r is not documented (it sets %s)' % (word, ' '.join(sorted(bits))))
            continue
        if not hit:
            ctx.bad('letter', key, where.where(), 'position letter %r sets %s instead of %s' % (word, ' '.join('POS_' + b for b in sorted(bits)), ' or '.join('POS_' + l[1] for l in cands)))
            continue
        l = (exact or hit)[0]
        seen.add((l[0], l[1]))
        msg = None
        if not exact:
            msg = 'position letter %r sets POS_%s%s and clears %s, documented: clears %s' % (
                word, l[1], '' if not l[2] or l[2] in need else ' although POS_%s was not tested' % l[2], sorted(clr) or 'nothing', list(l[3]) or 'nothing')
        elif word in JUMPS and jump != JUMPS[word] or word in ('jM', 'x') and jump not in (None, 'JUMP_MARK') or word == 'jC' and jump is None:
            msg = 'position letters %r jump to %s' % (word, jump)
        ctx.check(msg is None, 'letter', key, where.where(), '%r sets POS_%s' % (word, l[1]), msg)
        ctx.check(mv is None or mv == len(word) + (1 if word == 'jC' else 0) or (word == 'jC' and mv == 2) or (mv == 0 and len(fs) > 1), 'consume', key, where.where(), '%r is consumed' % word,
                  'behind position letter %r the parser has moved %s characters' % (word, mv))
    for l in LETTERS:
        ctx.check((l[0], l[1]) in seen, 'all', '%s:%s' % (l[0], l[1]), '%s:%d' % (parse.file, parse.line), 'letter %r can set POS_%s' % (l[0], l[1]),
                  'no letter %r sets POS_%s any more' % (l[0], l[1]))
    # longer words are looked for first
    from ..cdep import dominators
    for a, b in (('**', '*'), ('r:', 'r')):
        na = [n for w, x, y, z, m, j, wh, n in got if w == a]
        nb = [n for w, x, y, z, m, j, wh, n in got if w == b]
        if len(na) == 1 and nb and na[0].fn is nb[0].fn:
            pa = [(x.l, x.i) for x in na[0].ancestors() if x.k == 'IfStmt']
            pb = [(x.l, x.i) for n in nb for x in n.ancestors() if x.k == 'IfStmt']
            if pa and pb:
                ctx.check(pa[0][0] <= min(q[0] for q in pb), 'letter', 'order:' + a, na[0].where(), '%r is looked for before %r' % (a, b), '%r is looked for after %r, which takes its first character' % (a, b))

    # the writer
    out = []
    for f in P.funcs.values():
        if f.cls == 'GrammarWriter' or (f.is_lambda and f.file.endswith('GrammarWriter.cpp')):
            w = writes(P, f)
            if w:
                ctx.saw(f)
            out += w
    table = {t: (set(a), set(u)) for t, a, u in WRITES}
    have = set()
    texts = set()
    for t, hold, unset, other, n in out:
        word = t.strip()
        inner = hold[0]
        if 'TMPL_OVERRIDE' in inner and len(hold) == 1:
            continue
        if not word or word not in table:
            if any(len(h) == 1 for h in hold) and word and not word.startswith(('%', '/')):
                ctx.bad('write', 'text:' + word, n.where(), 'the grammar writer writes %r for POS_%s, which is no letter of a position' % (word, ' '.join(sorted(inner))))
            continue
        want, may = table[word]
        key = 'text:' + word
        msg = None
        if inner != want:
            # 'p' is written twice for ancestors
            if not (word == 'p' and want in hold):
                msg = 'the grammar writer writes %r for %s instead of %s' % (word, ' or '.join('POS_' + b for b in sorted(inner)), ' or '.join('POS_' + b for b in sorted(want)))
        extra = set().union(*unset) - may if unset else set()
        if msg is None and extra:
            msg = 'the grammar writer leaves out %r when %s is set' % (word, ' or '.join('POS_' + b for b in sorted(extra)))
        extra = [h for h in hold[1:] if h != want and 'TMPL_OVERRIDE' not in h and not (word == 'p' and h == {'DEP_PARENT'})]
        if word == 'p':
            extra = [h for h in extra if h != {'DEP_GLOB'}]
        if msg is None and extra:
            msg = 'the grammar writer writes %r only when %s is set as well' % (word, ' or '.join('POS_' + b for b in sorted(extra[0])))
        for c in other:
            c = c[1] if isinstance(c, tuple) else c
            names = {x.get('m') or x.get('d') for x in c.walk() if x.k in ('MemberExpr', 'DeclRefExpr')}
            if msg is None and not ('jump_pos' in names or ('POS_TMPL_OVERRIDE' in names or 'tmpl' in names and 'ors' in names) and word != 'NEGATE'):
                if names & {'tmpl', 'ors', 'target', 'linked', 'relation', 'barrier', 'cbarrier', 'offset', 'offset_sub', 'line', 'pos'}:
                    msg = 'the grammar writer writes %r only under a further condition of the test (%s)' % (word, c.where())
        j = [c for c in other if not isinstance(c, tuple) and strip(c).k == 'BinaryOperator' and any(x.get('m') == 'jump_pos' for x in c.walk())]
        if msg is None and word in JUMPS and j:
            names = [x.get('d') for x in j[0].walk() if x.k == 'DeclRefExpr' and (x.get('d') or '').startswith('JUMP_')]
            if names and names != [JUMPS[word]]:
                msg = 'the grammar writer writes %r for %s' % (word, names[0])
        ctx.check(msg is None, 'write', key, n.where(), '%r is written for %s' % (word, ' or '.join(sorted(inner))), msg)
        have |= inner
        texts.add(word)
    if len(texts) < 15:
        raise Broken('only %d position letters recognised in the grammar writer' % len(texts))
    wf = P.fn('GrammarWriter::printContextualTest')
    for b in sorted({l[1] for l in LETTERS} | {'NEGATE', 'NOT', 'ALL', 'NONE'}):
        if b in GONE:
            continue
        ctx.check(b in have, 'written', b, '%s:%d' % (wf.file, wf.line), 'POS_%s is written' % b, 'POS_%s can be set in a grammar and is never written by the grammar writer' % b)
    for f in P.funcs.values():
        if f.cls != 'GrammarWriter':
            continue
        for n in f.walk():
            if n.k in CALLS and any(resolve(a) is not None and resolve(a).k == 'MemberExpr' and resolve(a).get('m') == 'offset' and resolve(a).get('mc') == 'ContextualTest' for a in args(n)):
                pos, neg, inner = requirements(n)
                un = set()
                for c in pos:
                    if not isinstance(c, tuple) and strip(c).k == 'UnaryOperator' and strip(c).get('op') == '!':
                        un |= ptest(strip(c).c[0]) or set()
                    elif not isinstance(c, tuple) and strip(c).k == 'BinaryOperator' and strip(c).get('op') == '==' and strip(strip(c).c[1]).ev is not None and int(strip(strip(c).c[1]).ev) == 0:
                        un |= ptest(strip(c).c[0]) or set()
                for c in neg:
                    un |= ptest(c) or set()
                if not un:
                    continue
                un -= {'UNKNOWN'}
                ctx.check(un == NO_OFFSET, 'offset', 'writer', n.where(), 'the offset is written exactly where the parser accepts one',
                          'the offset is %s' % ('also written with %s, where the parser rejects it' % ' '.join('POS_' + b for b in sorted(NO_OFFSET - un)) if NO_OFFSET - un else
                                                'not written with %s' % ' '.join('POS_' + b for b in sorted(un - NO_OFFSET))))
    parts(ctx, P, wf)
    deep = []
    for f in fs:
        for n in f.walk():
            if n.k == 'CompoundAssignOperator' and n.get('op') == '|=' and is_pos(n.c[0]) and posmask(n.c[1]) == {'DEP_DEEP'}:
                pos, neg, inner = requirements(n)
                t = [x for c in pos if not isinstance(c, tuple) for x in [ptest(c)] if x]
                clr = set()
                for x in (inner.walk() if inner is not None else ()):
                    if x.k == 'CompoundAssignOperator' and x.get('op') == '&=' and is_pos(x.c[0]):
                        clr |= posmask(x.c[1]) or set()
                deep.append((t, clr, n))
    ctx.check(any({'DEP_CHILD', 'DEP_SIBLING'} in t and {'SCANFIRST', 'SCANALL'} in t and clr == {'SCANFIRST', 'SCANALL'} for t, clr, n in deep), 'deep', 'deep',
              deep[0][2].where() if deep else '%s:%d' % (parse.file, parse.line), 'a scan of children or siblings becomes a deep scan',
              'children or siblings with * or ** do not become a deep scan (POS_DEP_DEEP) instead of a scan of positions')
    ctx.selftest(len({l[1] for l in LETTERS}) > 30, 'position letters are tabled')
