"""C29: words of the grammar language are recognised in full, in either case, and consumed exactly."""
import re
from ..extract import Broken
from ..ir import CALLS, N, args, byref_args, canon, is_call, recv, strip
from .. import flow
from .c20 import enum_list, table

# END only ends the grammar when it stands alone, otherwise one character is skipped like for any other garbage
NOT_CONSUMED = {'END': 'ends the grammar', 'AND': 'deprecated, only diagnosed'}
# string constants whose names differ from the word on purpose
SPELL = {'STR_TEXTNEGATE': 'NEGATE', 'STR_TEXTNOT': 'NOT', 'STR_NO_ISETS': 'NO-INLINE-SETS', 'STR_NO_ITMPLS': 'NO-INLINE-TEMPLATES',
         'STR_STRICT_WFORMS': 'STRICT-WORDFORMS', 'STR_STRICT_BFORMS': 'STRICT-BASEFORMS', 'STR_STRICT_SECOND': 'STRICT-SECONDARY',
         'STR_STRICT_REGEX': 'STRICT-REGEX', 'STR_STRICT_ICASE': 'STRICT-ICASE'}
SECTIONS = {'MAPPINGS': 'in_before_sections', 'CORRECTIONS': 'in_before_sections', 'BEFORE-SECTIONS': 'in_before_sections',
            'SECTION': 'in_section', 'CONSTRAINTS': 'in_section', 'AFTER-SECTIONS': 'in_after_sections', 'NULL-SECTION': 'in_null_section'}
RECOG = ('IS_ICASE', 'ux_simplecasecmp')
SYM = 1000


def resolve(n, depth=0):
    """follows references and variables that only ever hold their initial value"""
    n = strip(n)
    if n is None or depth > 4 or n.k != 'DeclRefExpr' or n.get('g') or n.get('dk') in ('ParmVar', 'EnumConstant', 'Function'):
        return n
    f = n.fn
    d = [x for x in f.walk() if x.k == 'VarDecl' and x.get('id') == n.get('id')]
    if len(d) != 1 or not d[0].c or d[0].c[0] is None:
        return n
    if any(a.k == "CXXForRangeStmt" and not flow.contains(a.c[-1], d[0]) for a in d[0].ancestors()):
        return n
    if not d[0].get('t', '').rstrip().endswith('&'):
        for x in f.walk():
            if x.k in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator') and x.c and x.get('op', '') in ('=', '+=', '-=', '|=', '&=', '++', '--') and canon(x.c[0]) == canon(n):
                return n
            if x.k in CALLS and any(canon(a) == canon(n) for t, a in byref_args(x)):
                return n
    return resolve(d[0].c[0], depth + 1)


def bound_args(P, f, pid):
    """the arguments given for a parameter of a helper or lambda at all its call sites"""
    i = [k for k, p in enumerate(f.params) if p['id'] == pid]
    if not i:
        return []
    res = []
    for g in P.funcs.values():
        for n in g.walk():
            if n.k in CALLS and (n.get('fid') == f.id or any(t is f for t in P.targets(n))):
                a = args(n)
                if n.k == 'CXXOperatorCallExpr':
                    a = list(n.c[2:])
                if len(a) > i[0]:
                    res.append(a[i[0]])
    return res


def literal(P, n):
    """the word an expression denotes, None when not constant"""
    n = resolve(n)
    while n is not None and n.k == 'CXXConstructExpr' and len(n.c) >= 1:
        n = strip(n.c[0])
    if n is None:
        return None
    if n.k == 'StringLiteral':
        return n.get('v')
    if n.k == 'DeclRefExpr' and n.get('g'):
        g = P.globals.get(n.get('id'))
        if g and g['nodes']:
            for x in g['nodes']:
                if x['k'] == 'StringLiteral':
                    return x.get('v')
    if n.k == 'ArraySubscriptExpr':
        b, i = strip(n.c[0]), strip(n.c[1])
        if b.k == 'DeclRefExpr' and b.get('g') and i.ev is not None:
            t, w = table(P, b.get('q').split('::')[-1])
            return t[int(i.ev)]
    return None


class Site:
    def __init__(self, P, f, n):
        self.f, self.n = f, n
        a = args(n)
        self.p = canon(a[0])
        self.pn = strip(a[0])
        self.kind = n.get('fs')
        self.warg = a[1]
        self.word = literal(P, a[1])
        self.lc = literal(P, a[2]) if self.kind == 'IS_ICASE' and len(a) > 2 else None
        self.words = None      # table of words when not constant
        self.free = False      # words given by callers, in no order
        w = resolve(a[1])
        if self.word is None and w is not None and w.k == 'DeclRefExpr' and w.get('dk') == 'ParmVar':
            self.words = [literal(P, x) for x in bound_args(P, f, w.get('id'))]
            self.free = True
            if not self.words or None in self.words:
                self.words = None
        self.exact = False
        if self.kind == 'ux_simplecasecmp':
            for t in P.targets(n):
                self.exact = exact_cmp(t)

    def where(self):
        return self.n.where()


def exact_cmp(t):
    """does this comparison overload also compare the lengths of both operands?"""
    ps = {p['id'] for p in t.params}
    for n in t.walk():
        if n.k == 'BinaryOperator' and n.get('op') in ('==', '!='):
            ids = set()
            for c in n.c:
                c = strip(c)
                if is_call(c, 'size', 'length') and recv(c) is not None and strip(recv(c)).k == 'DeclRefExpr':
                    ids.add(strip(recv(c)).get('id'))
            if ids == ps and len(ids) == 2:
                return True
    return False


def assigned_to(n):
    """variable assigned from n inside a condition: (icn = IS_ICASE(..))"""
    for a in n.ancestors():
        if a.k == 'BinaryOperator' and a.get('op') == '=' and flow.contains(a.c[1], n):
            return canon(a.c[0])
        if a.k == 'VarDecl':
            return 'd:%s' % a.get('id')
        if a.k in CALLS or a.k in ('BinaryOperator', 'UnaryOperator', 'IfStmt', 'CompoundStmt'):
            return None
    return None


def walk_true(P, s, word, on_stop, keywords, maxsteps=4000):
    """follows every path from the recognised edge; on_stop(kind, node, offset)"""
    f = s.f
    pos = flow.block_of(f, s.n)
    if pos is None:
        raise Broken('no CFG position for %s' % s.where())
    forced = [x for x in flow.forced_true(s.n)]
    L = len(word) if word is not None else SYM
    wkeys = {canon(s.warg), canon(resolve(s.warg))}
    icn = assigned_to(s.n)
    steps = [0]

    def val(e, off, env):
        e = strip(e)
        if e.ev is not None:
            return int(e.ev)
        if e.k == 'CharacterLiteral':
            return int(e.get('v') if e.ev is None else e.ev)
        if e.k == 'DeclRefExpr' and canon(e) in env:
            return env[canon(e)]
        if e.k == 'DeclRefExpr' and not e.get('g') and resolve(e) is not e:
            return val(resolve(e), off, env)
        if is_call(e, 'size', 'length') and recv(e) is not None:
            if canon(recv(e)) in wkeys or canon(resolve(recv(e))) in wkeys:
                return L
            w = literal(P, recv(e))
            if w is not None:
                return len(w)
        if is_call(e, 'u_strlen', 'strlen') and canon(args(e)[0]) in wkeys:
            return L
        if e.k == 'BinaryOperator' and e.get('op') in ('+', '-'):
            a, b = val(e.c[0], off, env), val(e.c[1], off, env)
            if a is not None and b is not None:
                return a + b if e.get('op') == '+' else a - b
        # *p, p[k]
        at = None
        if e.k == 'UnaryOperator' and e.get('op') == '*' and canon(e.c[0]) == s.p:
            at = off
        if e.k == 'ArraySubscriptExpr' and canon(e.c[0]) == s.p:
            k = val(e.c[1], off, env)
            at = off + k if k is not None else None
        if at is not None and word is not None and 0 <= at < L:
            return ord(word[at])
        return None

    def cond(e, off, env):
        e = strip(e)
        if e.k == 'UnaryOperator' and e.get('op') == '!':
            v = cond(e.c[0], off, env)
            return None if v is None else not v
        if e.k == 'BinaryOperator' and e.get('op') in ('==', '!=', '<', '>', '<=', '>='):
            a, b = val(e.c[0], off, env), val(e.c[1], off, env)
            if e.c[0] is not None and strip(e.c[0]).k == 'BinaryOperator' and strip(e.c[0]).get('op') == '=':
                if s.n in list(e.c[0].walk()):
                    a = L
            if a is None or b is None:
                return None
            return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[e.get('op')]
        if e is s.n:
            return True
        v = val(e, off, env)
        return None if v is None else bool(v)

    seen = set()

    def run(b, i, off, env):
        steps[0] += 1
        if steps[0] > maxsteps or abs(off) > 20 * SYM:
            on_stop('unknown', s.n, off)
            return
        B = f.cfg.b[b]
        for e in B.els[i:]:
            if not isinstance(e, N):
                continue
            if e.k == 'CompoundAssignOperator' and canon(e.c[0]) == s.p:
                v = val(e.c[1], off, env)
                if v is None:
                    on_stop('unknown', e, off)
                    return
                off = off + v if e.get('op') == '+=' else off - v
            elif e.k == 'UnaryOperator' and e.get('op') in ('++', '--') and canon(e.c[0]) == s.p:
                off += 1 if e.get('op') == '++' else -1
            elif e.k == 'BinaryOperator' and e.get('op') == '=' and canon(e.c[0]) == s.p:
                r = strip(e.c[1])
                if r.k == 'CallExpr' and r.get('fs') == 'next' and canon(args(r)[0]) == s.p:
                    v = val(args(r)[1], off, env) if len(args(r)) > 1 and args(r)[1].k != 'CXXDefaultArgExpr' else 1
                    if v is None:
                        on_stop('unknown', e, off)
                        return
                    off += v
                elif r.k == 'BinaryOperator' and r.get('op') in ('+', '-') and canon(r.c[0]) == s.p:
                    v = val(r.c[1], off, env)
                    if v is None:
                        on_stop('unknown', e, off)
                        return
                    off = off + v if r.get('op') == '+' else off - v
                else:
                    on_stop('assigned', e, off)
                    return
            elif e.k in CALLS and e.get('fs') == 'advance' and len(args(e)) == 2 and canon(args(e)[0]) == s.p:
                v = val(args(e)[1], off, env)
                if v is None:
                    on_stop('unknown', e, off)
                    return
                off += v
            elif e.k in CALLS:
                if e is not s.n and e.get('fs') in RECOG and canon(args(e)[0]) == s.p:
                    on_stop('recognise', e, off)
                    return
                for t, a in byref_args(e):
                    if canon(a) == s.p:
                        # a function that only hands the word on: parseRule(p, K_X)
                        on_stop('call', e, off)
                        return
                if e.get('nr'):
                    on_stop('noreturn', e, off)
                    return
        if B.nr:
            return
        if not B.succ or list(B.succ) == [f.cfg.exit]:
            on_stop('exit', B.els[-1] if B.els and isinstance(B.els[-1], N) else s.n, off)
            return
        if B.term is not None and B.term.k == 'GotoStmt':
            return
        succ = list(range(len(B.succ)))
        le, neg = flow.leafcond(B)
        if le is not None:
            if B.term is not None and B.term.k == 'BinaryOperator':
                top = B.term
            v = None
            if flow.contains(le, s.n):
                v = cond(le, off, env)
                if v is None:
                    v = True
            elif any(flow.contains(x, le) for x in forced):
                # a conjunct of the recognising condition
                x = [x for x in forced if flow.contains(x, le)][0]
                v = True if strip(x) is le or flow.contains(le, x) else None
                if v is None and strip(x).k == 'UnaryOperator':
                    v = None
                if v is not None and neg:
                    v = not v
                if v is None:
                    v0 = cond(le, off, env)
                    v = v0
            else:
                v = cond(le, off, env)
            if v is not None:
                if neg:
                    v = not v
                succ = [0 if v else 1]
        for x in succ:
            t = B.succ[x]
            if t < 0:
                continue
            if t == f.cfg.exit:
                on_stop('exit', B.els[-1] if B.els and isinstance(B.els[-1], N) else s.n, off)
                continue
            key = (t, off)
            if key in seen:
                continue
            seen.add(key)
            run(t, 0, off, env)

    run(pos[0], pos[1] + 1, 0, {icn: L} if icn else {})


def cooccurring(P, s, sites):
    """recognisers reached from the not-recognised edge of s without the position having moved"""
    f = s.f
    b, i = flow.block_of(f, s.n)
    res, seen = [], set()
    bypos = {x.n: x for x in sites}

    def run(b, i, first):
        B = f.cfg.b[b]
        for e in B.els[i:]:
            if not isinstance(e, N):
                continue
            if e.k in ('CompoundAssignOperator', 'UnaryOperator', 'BinaryOperator') and e.c and canon(e.c[0]) == s.p and \
                    (e.get('op') in ('++', '--', '=') or e.k == 'CompoundAssignOperator'):
                return
            if e.k in CALLS:
                if e in bypos and bypos[e].p == s.p and e is not s.n:
                    res.append(bypos[e])
                hand = False
                for t, a in byref_args(e):
                    if canon(a) == s.p:
                        hand = True
                if hand:
                    return
        le, neg = flow.leafcond(B)
        succ = range(len(B.succ))
        if first and le is not None and flow.contains(le, s.n):
            want = False
            # negated comparisons: (x == 0)
            if le.k == 'BinaryOperator' and le.get('op') == '==' and strip(le.c[1]).ev == 0:
                want = True
            if neg:
                want = not want
            succ = [0 if want else 1]
        for x in succ:
            t = B.succ[x] if x < len(B.succ) else -1
            if t >= 0 and t not in seen:
                seen.add(t)
                run(t, 0, False)
    run(b, i + 1, True)
    return res


def shadows(a, word_a, word_b):
    """would recogniser a accept the text word_b?"""
    if a.exact:
        return word_a == word_b
    if len(word_a) >= len(word_b) or not word_b.startswith(word_a):
        return False
    if a.kind == 'IS_ICASE':
        return not word_b[len(word_a)].isalnum()
    return True


def local_table(P, s):
    """words of the table a non-constant recogniser argument runs over"""
    w = resolve(s.warg)
    if w.k == 'CXXOperatorCallExpr' and w.get('fn') == 'operator[]':
        w2 = [w.c[1], w.c[2]]
    else:
        w2 = w.c
    if w.k == 'ArraySubscriptExpr' or w2 is not w.c:
        b = strip(w2[0])
        if b.k == 'DeclRefExpr' and b.get('g'):
            return table(P, b.get('q').split('::')[-1])[0], b.get('d')
    if w.k == 'MemberExpr':
        # loop variable of a range-for over a local array of pairs
        base = strip(w.c[0])
        for a in s.n.ancestors():
            if a.k == 'CXXForRangeStmt':
                for d in s.f.walk():
                    if d.k == 'VarDecl' and d.c and any(r.k == 'DeclRefExpr' and r.get('id') == d.get('id') for r in a.walk()):
                        ws = []
                        for r in d.walk():
                            if r.k == 'DeclRefExpr' and r.get('g') and literal(P, r) and (r.get('d') or '').startswith('STR_'):
                                ws.append(literal(P, r))
                        if len(ws) > 2:
                            return ws, d.get('d')
    return None, None


def check(ctx):
    P = ctx.P
    ctx.rule('case', 'the upper-case and the lower-case spelling of a word are the same word', 60)
    ctx.rule('consume', 'on every path behind a recognised word, in either spelling, the parser has moved exactly past it before it reads on', 120)
    ctx.rule('shadow', 'no word tested earlier at the same position also accepts a longer word tested later', 500)
    ctx.rule('word', 'a word constant spells its own name and can be matched in both cases', 60)
    ctx.rule('meaning', 'a recognised word leads to the constant, option or section of that name', 60)
    ctx.rule('fold', 'the comparison of words takes a letter of the text in upper case and in lower case', 2)
    ctx.rule('boundary', 'a section or rule keyword is only accepted when no letter or digit follows it', 10)

    keywords, kw = table(P, 'keywords')
    sites = []
    for f in P.funcs.values():
        if f.n in RECOG or not f.cfg:
            continue
        for n in f.walk():
            if is_call(n, *RECOG) and len(args(n)) >= 2:
                sites.append(Site(P, f, n))
                ctx.saw(f)
    if len(sites) < 100:
        raise Broken('only %d keyword recognition sites found' % len(sites))
    parse_rule = P.fn('TextualParser::parseRule')

    # parseRule consumes keywords[key] itself before anything else
    okrule = consumes_table_word(P, parse_rule)
    ctx.check(okrule, 'consume', 'parseRule', '%s:%d' % (parse_rule.file, parse_rule.line), 'parseRule moves past keywords[key] before it reads on',
              'parseRule does not move exactly past keywords[key]')

    for s in sites:
        nm = s.word or canon(s.warg)
        key = '%s:%s' % (s.f.n, nm)
        if s.kind == 'IS_ICASE':
            if s.word is None or s.lc is None:
                raise Broken('keyword at %s is not constant' % s.where())
            ctx.check(s.word.lower() == s.lc and s.word.upper() == s.word, 'case', key, s.where(), '%s/%s' % (s.word, s.lc),
                      'spellings %r and %r of one keyword differ' % (s.word, s.lc))
        else:
            if s.word is None:
                tn = None
                if not s.free:
                    s.words, tn = local_table(P, s)
                if s.words is None:
                    raise Broken('cannot tell which words are recognised at %s' % s.where())
                for i, a in enumerate(s.words if not s.free else ()):
                    for b in s.words[i + 1:]:
                        ctx.check(not shadows(s, a, b), 'shadow', '%s:%s:%s' % (s.f.n, a, b), s.where(), '%s before %s' % (a, b),
                                  '%s in table %s is tested before %s and matches its beginning' % (a, tn, b))
            for w in (s.words or [s.word]):
                ctx.check(re.match(r'^([A-Z][A-Z0-9_-]*|[a-z][a-z0-9-]*)$', w) is not None, 'word', key + ':' + w, s.where(), 'word %r is of one case' % w,
                          'word %r mixes cases' % w)
        # consumption
        if s.f.cls == 'MathParser' or s.pn.get('t', '').find('basic_string_view') >= 0:
            continue
        if nm in NOT_CONSUMED:
            continue
        if s.f.params and not any(p['t'].replace(' ', '').endswith('*&') for p in s.f.params) and canon(s.pn).startswith('d:') and \
                s.f.q != 'TextualParser::parseFromUChar':
            pass
        variants = [s.word] if s.word is None else [s.word, s.word.lower()]
        for v in variants:
            L = len(v) if v is not None else SYM
            res = []
            walk_true(P, s, v, lambda k, n, o: res.append((k, n, o)), keywords)
            badp = None
            live = 0
            for k, n, o in res:
                if k == 'noreturn':
                    continue
                live += 1
                if k == 'call' and n.get('fid') == parse_rule.id and o == 0:
                    c = [x for x in n.walk() if x.k == 'DeclRefExpr' and x.get('dk') == 'EnumConstant']
                    got = keywords[int(c[0].ev)] if c else None
                    if not (got == s.word and okrule):
                        badp = badp or (n, 'rule keyword %s is handed on as %s' % (s.word, c[0].get('d') if c else '?'))
                    continue
                if k == 'unknown':
                    badp = badp or (n, 'moves by an amount that is not the length of %s' % nm)
                elif o != L:
                    if v is None and k == 'assigned':
                        continue
                    badp = badp or (n, 'after %s the parser has moved %d characters instead of %d before %s' % (
                        v or nm, o, L, {'call': 'reading on', 'exit': 'returning', 'assigned': 'moving elsewhere', 'recognise': 'testing the next word'}[k]))
            if not live:
                badp = (s.n, 'no path continues behind %s' % nm)
            ctx.check(badp is None, 'consume', key + ('' if v is None or v == s.word else ':lc'), (badp[0] if badp else s.n).where(),
                      '%s consumed on %d path(s)' % (v or nm, live), badp[1] if badp else None)

    # shadowing between recognisers
    for s in sites:
        if s.word is None or flow.forced_true(s.n):
            continue
        later = cooccurring(P, s, [x for x in sites if x.f is s.f])
        for o in later:
            for w in (o.words or ([o.word] if o.word else [])):
                ctx.check(not shadows(s, s.word, w), 'shadow', '%s:%s:%s' % (s.f.n, s.word, w), s.where(), '%s tested before %s' % (s.word, w),
                          '%s is tested before %s (%s) and accepts its beginning' % (s.word, w, o.where()))

    # constants spell their names
    for g in P.globals.values():
        q = g['q'].split('::')[-1]
        if not q.startswith('STR_') or not g['nodes']:
            continue
        lits = [x.get('v') for x in g['nodes'] if x['k'] == 'StringLiteral']
        if len(lits) != 1 or not any(x.kind == 'ux_simplecasecmp' and (
                x.word == lits[0] or (x.words and lits[0] in x.words)) for x in sites):
            # only words of the language
            continue
        want = SPELL.get(q, q[4:].replace('_', '-'))
        if s0(lits[0]):
            want = want.lower()
        ctx.check(lits[0] == want, 'word', q, '%s:%d' % (g['file'], g['line']), '%s is %r' % (q, lits[0]), '%s holds the word %r' % (q, lits[0]))
    used = set()
    for s in sites:
        r = strip(s.warg)
        if r.k == 'DeclRefExpr' and (r.get('d') or '').startswith('STR_'):
            used.add(r.get('d'))
            want = SPELL.get(r.get('d'), r.get('d')[4:].replace('_', '-'))
            ctx.check(s.word == want, 'word', '%s:%s' % (s.f.n, r.get('d')), s.where(), '%s spells %r' % (r.get('d'), s.word), '%s spells %r' % (r.get('d'), s.word))

    meaning(ctx, P, sites)

    fold(ctx, P)
    # boundary of IS_ICASE
    for f in P.funcs.values():
        if f.n != 'IS_ICASE' or not f.cfg:
            continue
        ctx.saw(f)
        n1 = None
        good = boundary(f)
        ctx.check(good is None, 'boundary', 'IS_ICASE' + f.id[-30:], '%s:%d' % (f.file, f.line), 'IS_ICASE%s accepts only at a word end' % (f.params[1]['t'] if len(f.params) > 1 else ''), good)
    class FS:
        pass
    x = FS(); x.exact = False; x.kind = 'ux_simplecasecmp'
    ctx.selftest(shadows(x, 'SIN', 'SINH'), 'prefix shadowing is detected')
    x.kind = 'IS_ICASE'
    ctx.selftest(not shadows(x, 'MAP', 'MAPPINGS') and shadows(x, 'LIST', 'LIST-TAGS'), 'IS_ICASE shadowing needs a word boundary')


def element(n, ps):
    """(parameter, displacement) when n is an element of one of the parameters plus a constant"""
    n = resolve(n)
    d = 0
    while n is not None and n.k == 'BinaryOperator' and n.get('op') in ('+', '-', '|') and strip(n.c[1]).ev is not None:
        v = int(strip(n.c[1]).ev)
        d += -v if n.get('op') == '-' else v
        n = resolve(n.c[0])
    if n is None:
        return None
    b = None
    if n.k == 'ArraySubscriptExpr':
        b = strip(n.c[0])
    elif n.k == 'CXXOperatorCallExpr' and n.get('fn') == 'operator[]':
        b = strip(n.c[1])
    elif n.k == 'UnaryOperator' and n.get('op') == '*':
        b = strip(n.c[0])
        while b.k == 'BinaryOperator' and b.get('op') == '+' or b.k == 'UnaryOperator' and b.get('op') in ('++', '--'):
            b = strip(b.c[0])
    if b is not None and b.k == 'DeclRefExpr' and b.get('id') in ps:
        return b.get('id'), d
    return None


FOLDERS = ('tolower', 'toupper', 'foldcase', 'strcasecompare', 'casecmp', 'strncasecmp')


def fold(ctx, P):
    for f in sorted((f for f in P.funcs.values() if f.n in RECOG and f.cfg), key=lambda f: f.id):
        ps = [p['id'] for p in f.params]
        if any(is_call(n) and any(w in (n.get('fs') or '').lower().replace('_', '') for w in FOLDERS) for n in f.walk() if not is_call(n, *RECOG)):
            ctx.ok('fold', '%s:%d' % (f.file, f.line), '%s folds case' % f.n)
            continue
        pairs = set()
        for n in f.walk():
            if n.k == 'BinaryOperator' and n.get('op') in ('==', '!='):
                a, b = element(n.c[0], ps), element(n.c[1], ps)
                if a and b and a[0] != b[0]:
                    if ps.index(a[0]) > ps.index(b[0]):
                        a, b = b, a
                    pairs.add((ps.index(b[0]), b[1] - a[1]))
        if not pairs:
            # hands on to another overload
            continue
        ctx.saw(f)
        key = f.n + ':' + str(len(f.params))
        w = '%s:%d' % (f.file, f.line)
        if f.n == 'IS_ICASE':
            ctx.check({(1, 0), (2, 0)} <= pairs, 'fold', f.n, w, 'IS_ICASE compares with both spellings', 'IS_ICASE compares the text with one of the two spellings only')
        else:
            ctx.check({(1, 0), (1, 32)} <= pairs, 'fold', key, w, '%s takes either case of a letter' % f.n,
                      '%s compares letters at the distances %s only: words in the other case are not recognised' % (f.n, sorted(d for i, d in pairs)))


def consumes_table_word(P, f):
    """first movement of the position parameter is += keywords[key].size()"""
    pid = [p for p in f.params if p['t'].replace(' ', '').endswith('*&')]
    kid = [p for p in f.params if 'KEYWORDS' in p['t']]
    if not pid or not kid:
        raise Broken('parseRule has no position or keyword parameter')
    pc, kc = 'd:' + pid[0]['id'], 'd:' + kid[0]['id']
    ok = [True]
    moved = [0]
    seen = set()

    def run(b):
        B = f.cfg.b[b]
        for e in B.els:
            if not isinstance(e, N):
                continue
            if e.k == 'CompoundAssignOperator' and canon(e.c[0]) == pc:
                r = strip(e.c[1])
                g = is_call(r, 'size', 'length') and recv(r) is not None and strip(recv(r)).k == 'ArraySubscriptExpr' and \
                    strip(strip(recv(r)).c[0]).get('d') == 'keywords' and canon(strip(recv(r)).c[1]) == kc and e.get('op') == '+='
                if not g:
                    ok[0] = False
                moved[0] += 1
                return
            if e.k in ('UnaryOperator', 'BinaryOperator') and e.c and canon(e.c[0]) == pc and e.get('op') in ('++', '--', '='):
                ok[0] = False
                return
            if e.k in CALLS:
                for t, a in byref_args(e):
                    if canon(a) == pc:
                        ok[0] = False
                        return
        for t in B.succ:
            if t >= 0 and t not in seen:
                seen.add(t)
                run(t)
    run(f.cfg.entry)
    return ok[0] and moved[0] > 0


def boundary(f):
    """every path to a return of something other than the literal 0 passes the false edge of u_isalnum(p[N-1]); None when fine"""
    N1 = None
    m = re.search(r'\[(\d+)\]', f.params[1]['t'])
    if not m:
        return 'keyword parameter is not an array'
    N1 = int(m.group(1)) - 1
    pc = 'd:' + f.params[0]['id']
    bad = [None]
    rets = [0]
    seen = set()

    def run(b, ok):
        if (b, ok) in seen:
            return
        seen.add((b, ok))
        B = f.cfg.b[b]
        for e in B.els:
            if isinstance(e, N) and e.k == 'ReturnStmt':
                v = strip(e.c[0]) if e.c else None
                if v is not None and v.ev is not None and int(v.ev) == 0:
                    return
                rets[0] += 1
                if v is not None and v.k == 'ConditionalOperator' and any(strip(c) is not None and strip(c).ev is not None and int(strip(c).ev) == 0 for c in v.c[1:]) \
                        and any(re.match(r'u_isalnum(_\d+)?$', c.get('fs') or '') for c in v.c[0].walk() if c.k == 'CallExpr'):
                    return
                if not ok:
                    bad[0] = 'a word is accepted although a letter or digit follows it (line %d)' % e.l
                return
        le, neg = flow.leafcond(B)
        for i, t in enumerate(B.succ):
            if t < 0:
                continue
            o = ok
            if le is not None:
                truth = (i == 0) != neg
                x = le
                if x.k == 'CallExpr' and re.match(r'u_isalnum(_\d+)?$', x.get('fs') or '') and not truth:
                    a = strip(args(x)[0])
                    if a.k == 'ArraySubscriptExpr' and canon(a.c[0]) == pc and strip(a.c[1]).ev is not None and int(strip(a.c[1]).ev) == N1:
                        o = True
            run(t, o)
    run(f.cfg.entry, False)
    if not rets[0]:
        return 'never accepts'
    return bad[0]


def s0(w):
    return w == w.lower()


def consts_in(n):
    return [m for m in n.walk() if m.k == 'DeclRefExpr' and m.get('dk') == 'EnumConstant']


def cond_true(c, n):
    """does condition c being true mean that n is true?"""
    c = strip(c)
    if c is None:
        return False
    if c is n or strip(n) is c:
        return True
    if c.k == 'BinaryOperator' and c.get('op') == '&&':
        return cond_true(c.c[0], n) or cond_true(c.c[1], n)
    if c.k == 'BinaryOperator' and c.get('op') in ('!=', '==', '>', '='):
        # (x = IS_ICASE(..)) != 0, != false
        if c.get('op') == '=':
            return cond_true(c.c[1], n)
        v = strip(c.c[1]).ev
        zero = v is not None and int(v) == 0
        return zero and c.get('op') in ('!=', '>') and cond_true(c.c[0], n)
    if c.k == 'DeclRefExpr' and not c.get('g') and resolve(c) is not c:
        return cond_true(resolve(c), n)
    return False


def own_region(s):
    """statements executed only when s's word was recognised: the then-branch; None when it cannot be told"""
    for a in s.n.ancestors():
        if a.k == 'IfStmt':
            if flow.contains(a.c[1], s.n):
                return a.c[2] if len(a.c) > 2 and cond_true(a.c[1], s.n) else None
            break
    for a in s.f.walk():
        if a.k == 'IfStmt' and len(a.c) > 2 and a.c[2] is not None and cond_true(a.c[1], s.n):
            return a.c[2]
    return None


def meaning(ctx, P, sites):
    opposite = {'AFTER': 'BEFORE', 'BEFORE': 'AFTER', 'ONCE': 'ALWAYS', 'ALWAYS': 'ONCE', 'WITHCHILD': 'NOCHILD', 'NOCHILD': 'WITHCHILD'}
    for s in sites:
        w = s.word
        if w in opposite and s.kind == 'ux_simplecasecmp':
            reg = own_region(s)
            if reg is None:
                continue
            for n in reg.walk():
                c = None
                if n.k == 'CompoundAssignOperator' and n.get('op') == '|=':
                    c = consts_in(n.c[1])
                elif n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]).k == 'MemberExpr':
                    c = consts_in(n.c[1])
                for x in c or ():
                    last = re.split('_', x.get('d'))[-1]
                    if last in opposite:
                        ctx.check(last == w, 'meaning', '%s:%s:%s' % (s.f.n, w, x.get('d')), n.where(), '%s sets %s' % (w, x.get('d')),
                                  'the word %s sets %s' % (w, x.get('d')))
        if w in ('NEGATE', 'NOT', 'ALL', 'NONE') and s.kind == 'ux_simplecasecmp':
            reg = own_region(s)
            if reg is None:
                continue
            got = [x.get('d') for n in (reg.walk() if reg is not None else ()) if n.k == 'CompoundAssignOperator' for x in consts_in(n.c[1])]
            ctx.check('POS_' + w in got, 'meaning', w, s.where(), '%s sets POS_%s' % (w, w), 'the word %s sets %s' % (w, got))
        if w in SECTIONS and s.kind == 'IS_ICASE':
            reg = own_region(s)
            if reg is None:
                continue
            last = {}
            for n in reg.walk():
                if n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]).k == 'MemberExpr' and strip(n.c[0]).get('m', '').startswith('in_') \
                        and strip(n.c[1]).k == 'CXXBoolLiteralExpr':
                    last[strip(n.c[0]).get('m')] = bool(strip(n.c[1]).ev)
            want = {m: m == SECTIONS[w] for m in set(SECTIONS.values())}
            ctx.check(all(last.get(k) == v for k, v in want.items()), 'meaning', w, s.where(), '%s enters %s' % (w, SECTIONS[w]),
                      'the word %s sets %s' % (w, {k: v for k, v in last.items()}))
        if s.words and s.kind == 'ux_simplecasecmp' and strip(s.warg).k == 'MemberExpr':
            # option table: STR_X with the member x
            for a in s.n.ancestors():
                if a.k == 'CXXForRangeStmt':
                    ids = {r.get('id') for r in a.walk() if r.k == 'DeclRefExpr'}
                    for d in s.f.walk():
                        if d.k == 'VarDecl' and d.get('id') in ids and d.c:
                            for e in d.walk():
                                if e.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr', 'CXXFunctionalCastExpr'):
                                    strs = [r for r in e.walk() if r.k == 'DeclRefExpr' and (r.get('d') or '').startswith('STR_')]
                                    mem = [r for r in e.walk() if r.k == 'MemberExpr' and r.get('dk') == 'Field' and r.t == 'bool']
                                    if len(strs) == 1 and len(mem) == 1:
                                        x, y = strs[0].get('d')[4:].lower(), mem[0].get('m').lower()
                                        ctx.check(x == y, 'meaning', 'option:' + x, strs[0].where(), 'option %s sets %s' % (x, y), 'option %s sets %s' % (strs[0].get('d'), y))
                    break
        # rule keywords: parseRule(p, K_X) is checked with the consumption
        if s.kind == 'ux_simplecasecmp' and s.f.cls == 'MathParser':
            reg = own_region(s)
            if reg is None or w in ('MIN', 'MAX'):
                if reg is not None and w in ('MIN', 'MAX'):
                    vals = [m.get('m') for m in reg.walk() if m.k == 'MemberExpr' and m.get('m') in ('min', 'max')]
                    if vals:
                        ctx.check(vals == [w.lower()], 'meaning', 'math:' + w, s.where(), '%s is %s' % (w, vals), 'numeric %s is evaluated as %s' % (w, vals))
                continue
            fn = [n.get('fs') for n in reg.walk() if n.k == 'CallExpr']
            std = {'LN': 'log', 'LOG': 'log10'}.get(w, w.lower())
            if w == 'SQR':
                ctx.check(not fn, 'meaning', 'math:SQR', s.where(), 'SQR multiplies', 'SQR calls %s' % fn)
            else:
                ctx.check(fn == [std], 'meaning', 'math:' + w, s.where(), '%s computes %s' % (w, fn), 'numeric function %s computes %s' % (w, fn))
    # rule keyword sites
    for s in sites:
        if s.f.q == 'TextualParser::maybeParseRule' and s.kind == 'IS_ICASE':
            reg = own_region(s)
            if reg is None:
                continue
            ks = [x.get('d') for x in consts_in(reg) if x.get('d').startswith('K_')]
            ctx.check(ks == ['K_' + s.word.replace('-', '_')], 'meaning', 'rule:' + s.word, s.where(), '%s makes %s' % (s.word, ks), 'keyword %s makes %s rules' % (s.word, ks))
