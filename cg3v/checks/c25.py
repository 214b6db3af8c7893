"""C25: whoever reports an error stops, or hands the failure on; nobody takes a failed grammar for a good one."""
import re
from ..ir import CALLS, args, recv, strip, is_call
from ..extract import Broken
from ..slices import Slicer
from ..flow import leafcond

MESSAGE = re.compile(r'\bError: |^Could not |Cannot re-compile|Too many errors')
EXITS = ('exit', '_exit', '_Exit', 'quick_exit', 'CG3Quit')
# (function, start of what is reported): errors in the data after which the program goes on by design
GOES_ON = {
    ('JsonlApplicator::', ''): 'a malformed JSON value is reported and left out; the stream goes on with the next one',
    ('MatxinApplicator::', 'Error: The Matxin stream format'): 'the tag is left out',
    ('cg3_applicator_setoption', ''): 'has no way to tell its caller; nothing is set',
    ('main', 'Error: No grammar specified'): 'shows the usage, which ends with a failure',
    ('GrammarApplicator::error', ''): 'malformed tags made at run time are reported and kept as the text they are',
}
PARSERS = {'parse_grammar'}


def short(c):
    return (c or '').split('<')[0].split('::')[-1]


def lits(n):
    return [str(x.get('v') or x.get('s') or '') for x in n.walk() if x.k == 'StringLiteral']


class Check:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.S = Slicer(self.P, lambda t: t.file.startswith(('src/', 'include/')))
        self.mine = [f for f in self.P.funcs.values() if f.body is not None and f.file.startswith(('src/', 'include/'))]
        self.callers = {}
        for f in self.mine:
            for n in f.walk():
                if n.k in CALLS:
                    for t in self.P.targets(n):
                        self.callers.setdefault(t.id, []).append((n, f))
        self.never = {}

    # ---- one step
    def counts(self, n):
        """n adds to the count of errors the parser returns"""
        if n.k == 'UnaryOperator' and n.get('op') == '++' or n.k == 'CompoundAssignOperator' and n.get('op') == '+=':
            l = strip(n.c[0])
            return l is not None and l.k == 'MemberExpr' and l.get('m') == 'error_counter'
        return False

    def code(self, n, f, depth=0):
        """is the exit code of the call something that can be 0?  None: no exit"""
        a = args(n)
        if not a or a[0] is None:
            return True
        v = a[0].ev if a[0].ev is not None else strip(a[0]).ev
        if v is not None:
            return int(v) == 0
        x = strip(a[0])
        ps = [p['id'] for p in f.params]
        if x.k == 'DeclRefExpr' and x.get('id') in ps and depth < 3:
            i = ps.index(x.get('id'))
            for c, g in self.callers.get(f.id, ()):
                b = args(c)
                if i < len(b) and b[i] is not None:
                    w = b[i].ev if b[i].ev is not None else strip(b[i]).ev
                    if w is not None and int(w) == 0 or w is None:
                        return True
            return False
        at = self.S.atoms(a[0], f)
        return not at or any(k[0] != 'lit' or not k[1] or int(k[1]) == 0 for k in at)

    def ends(self, n, f, depth=0):
        """'stop' if control does not come back from n, 'zero' if it ends the program as a success, None if it goes on"""
        if n.k == 'CXXThrowExpr':
            return 'stop'
        if n.k not in CALLS:
            return None
        if n.get('fs') in EXITS:
            return 'zero' if self.code(n, f) else 'stop'
        if n.get('fs') in ('abort', 'terminate', '__assert_fail'):
            return 'stop'
        ts = self.P.targets(n)
        if ts and depth < 4:
            rs = {self.whole(t, depth + 1) for t in ts}
            if len(rs) == 1:
                return rs.pop()
        if n.get('nr'):
            return 'stop'
        return None

    def whole(self, f, depth=0):
        """ends() for a call of f"""
        if f.id in self.never:
            return self.never[f.id]
        self.never[f.id] = None
        if f.body is None or f.cfg is None:
            return None
        seen, work, res = {f.cfg.entry}, [f.cfg.entry], 'stop'
        while work:
            b = work.pop()
            B = f.cfg.b[b]
            if b == f.cfg.exit:
                res = None
                break
            e = None
            for x in B.els:
                if isinstance(x, tuple):
                    continue
                e = self.ends(x, f, depth)
                if e is not None:
                    break
            if e == 'zero':
                res = 'zero'
            if e is not None or B.nr:
                continue
            for s in B.succ:
                if s >= 0 and s not in seen:
                    seen.add(s)
                    work.append(s)
        self.never[f.id] = res
        return res

    def failure(self, r, f):
        """the value is one by which f says that it failed"""
        t = (f.d.get('rt') or f.d.get('ret') or '')
        v = r.c[0] if r.c else None
        if v is None:
            return None
        s = strip(v)
        ev = v.ev if v.ev is not None else s.ev
        if s.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return True
        if s.k == 'DeclRefExpr' and s.get('dk') == 'EnumConstant':
            return s.get('d') in ('CG3_ERROR', 'CG3SF_INVALID') or f.n == 'main' and ev is not None and int(ev) != 0
        if f.n == 'main' or f.n in PARSERS:
            if ev is not None:
                return int(ev) != 0
            return False
        if ev is not None:
            return int(ev) == 0
        if s.k == 'CXXConstructExpr' and not any(y is not None and y.k != 'CXXDefaultArgExpr' for y in s.c):
            return True
        if s.k == 'DeclRefExpr' and s.get('dk') == 'Var':
            vals, entry = self.S.reaching(f, s.get('id'), s)
            return bool(vals) and all(self.const_fail(x, f) for x in vals)
        return False

    def const_fail(self, x, f):
        if x is None:
            return False
        s = strip(x)
        if s.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return True
        if s.k == 'DeclRefExpr' and s.get('d') in ('CG3_ERROR', 'CG3SF_INVALID'):
            return True
        ev = x.ev if x.ev is not None else s.ev
        if ev is None:
            return False
        return int(ev) != 0 if f.n == 'main' or f.n in PARSERS else int(ev) == 0

    # ---- what follows a message
    def after(self, f, b, i, depth=0):
        """[(where, what)] of ends that are no failure, from element i of block b of f on"""
        bad, seen = [], set()
        work = [(b, i)]
        while work:
            b, i = work.pop()
            B = f.cfg.b[b]
            stop = False
            for x in B.els[i:]:
                if isinstance(x, tuple):
                    continue
                if self.counts(x):
                    stop = True
                    break
                e = self.ends(x, f)
                if e == 'zero':
                    bad.append((x.where(), 'ends the program as a success'))
                if e is not None:
                    stop = True
                    break
                if x.k == 'ReturnStmt' and x.c and x.c[0] is not None:
                    r = self.failure(x, f)
                    if not r:
                        bad.append((x.where(), 'returns from %s as if nothing had happened' % f.q))
                    stop = True
                    break
            if stop or B.nr:
                continue
            if b == f.cfg.exit or f.cfg.exit in B.succ:
                if f.cls and f.n == short(f.cls) or f.is_lambda or f.n == 'main':
                    bad.append(('%s:%d' % (f.file, f.line), 'goes on to the end of %s' % f.q))
                    continue
                if depth >= 3:
                    bad.append(('%s:%d' % (f.file, f.line), 'comes back from %s' % f.q))
                    continue
                cs = self.callers.get(f.id, [])
                if not cs:
                    bad.append(('%s:%d' % (f.file, f.line), 'comes back from %s' % f.q))
                for c, g in cs:
                    p = self.S.at(g, c)
                    if p is not None:
                        bad += self.after(g, p[0], p[1] + 1, depth + 1)
            for s in B.succ:
                if s >= 0 and s not in seen and s != f.cfg.exit:
                    seen.add(s)
                    work.append((s, 0))
        return bad

    def messages(self, f):
        for n in f.walk():
            if n.k not in CALLS:
                continue
            m = [l for a in args(n) if a is not None and strip(a).k == 'StringLiteral' for l in lits(a) if MESSAGE.search(l)]
            if m:
                yield n, m[0]

    def run(self):
        ctx, P = self.ctx, self.P
        ctx.rule('stop', 'after an error is reported, every path ends the program with a failure, throws, counts the error, or returns the value for failure', 60)
        n_sites = 0
        for f in sorted(self.mine, key=lambda f: (f.file, f.line)):
            done = set()
            for n, m in self.messages(f):
                ex = [w for (q, s), w in GOES_ON.items() if (f.q.startswith(q) or f.q == q) and m.startswith(s)]
                if n.get('fs') == 'error' and (n.get('cls') or '').endswith('GrammarApplicator'):
                    ex.append(GOES_ON[('GrammarApplicator::error', '')])
                key = '%s:%s' % (f.q, re.sub(r'[^A-Za-z0-9]+', '-', m)[:60].strip('-'))
                p = self.S.at(f, n)
                if p is None:
                    raise Broken('message in %s not on the control-flow graph' % f.q)
                n_sites += 1
                if ex:
                    ctx.saw(f)
                    ctx.note('%s: %s' % (f.q, ex[0]))
                    continue
                e = self.ends(n, f)
                bad = [] if e == 'stop' else self.after(f, p[0], p[1] + (1 if e is None else 0))
                if key in done and not bad:
                    continue
                done.add(key)
                ctx.check(not bad, 'stop', key, n.where(), 'every path after the message fails', 'after reporting "%s" the program %s (%s)' % (m.strip(), bad[0][1] if bad else '', bad[0][0] if bad else ''))
        ctx.note('%d message sites' % n_sites)
        for f in self.mine:
            if f.n in EXITS:
                ps = [p['id'] for p in f.params]
                for n in f.walk():
                    if n.k in CALLS and n.get('fs') in EXITS:
                        a = args(n)
                        s = strip(a[0]) if a and a[0] is not None else None
                        ctx.check(s is not None and s.k == 'DeclRefExpr' and s.get('id') in ps, 'stop', 'code:%s' % f.n, n.where(), 'ends with the code it was given', '%s does not end the program with the code it was given' % f.q)
        self.counter()
        self.caught()
        self.heeded()
        self.nulls()

    # ---- the count of errors
    def counter(self):
        ctx, P = self.ctx, self.P
        ctx.rule('count', 'the count of errors in a grammar only grows and is what the parser returns', 3)
        w = 0
        for f in self.mine:
            for n in f.walk():
                if n.k in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator') and n.c and n.c[0] is not None:
                    l = strip(n.c[0])
                    if l is None or l.k != 'MemberExpr' or l.get('m') != 'error_counter':
                        continue
                    op = n.get('op') or ''
                    if op in ('=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=', '--', '++'):
                        w += 1
                        ctx.check(self.counts(n), 'count', 'write:%s' % f.q, n.where(), 'grows', '%s changes the count of errors by %s' % (f.q, op))
        if not w:
            raise Broken('no error counter')
        for f in self.mine:
            if f.n != 'parse_grammar' or short(f.cls) != 'TextualParser':
                continue
            for n in f.walk():
                if n.k == 'ReturnStmt' and n.c and n.c[0] is not None:
                    s = strip(n.c[0])
                    ok = s.k in CALLS and s.get('fs') == 'parse_grammar' or any(x.k == 'MemberExpr' and x.get('m') == 'error_counter' for x in s.walk()) and not any(x.k == 'BinaryOperator' for x in s.walk())
                    if not ok and s.k == 'DeclRefExpr':
                        at = self.S.atoms(s, f)
                        ok = bool(at) and all(a == ('call', 'parse_grammar') or a[0] == 'f' and a[2] == 'error_counter' or a[0] in ('call', 'p', 'f') for a in at) and any(a == ('call', 'parse_grammar') or a[-1] == 'error_counter' for a in at)
                    v = n.c[0].ev if n.c[0].ev is not None else s.ev
                    ok = ok or v is not None and int(v) != 0
                    ctx.check(ok, 'count', 'return:%d' % len(f.params), n.where(), 'returns the count', 'the parser returns something else than the count of errors')
        # what is called to report an error counts it before it leaves
        ctx.rule('thrown', 'every function the grammar parser reports through counts the error before it throws', 2)
        for f in self.mine:
            if short(f.cls) != 'TextualParser':
                continue
            for n in f.walk():
                if n.k != 'CXXThrowExpr' or not n.c or n.c[0] is None:
                    continue
                p = self.S.at(f, n)
                if p is None:
                    continue
                # backwards: an increment on every way to here
                seen, work, ok = set(), [(p[0], p[1])], True
                while work:
                    b, lim = work.pop()
                    els = [x for x in f.cfg.b[b].els[:lim] if not isinstance(x, tuple)]
                    if any(self.counts(x) for x in els):
                        continue
                    if b == f.cfg.entry:
                        ok = False
                        break
                    for q in f.cfg.b[b].pred:
                        if q not in seen:
                            seen.add(q)
                            work.append((q, None))
                ctx.check(ok, 'thrown', 'throw:%s' % f.q, n.where(), 'counted before it is thrown', '%s throws without counting the error' % f.q)
        for f in self.mine:
            if short(f.cls) == 'TextualParser' and f.n == 'error':
                ctx.check(self.whole(f) == 'stop', 'thrown', 'error:%d' % len(f.params), '%s:%d' % (f.file, f.line), 'does not come back', 'TextualParser::error comes back to the code that found the error')

    # ---- nothing thrown by the parser leaves it
    def in_try(self, n):
        for a in n.ancestors():
            if a.k == 'CXXTryStmt' and a.c and a.c[0] is not None:
                x = n
                while x is not None and x is not a:
                    if x is a.c[0]:
                        break
                    x = x.p
                if x is a.c[0] and any(c is not None and c.k == 'CXXCatchStmt' and (c.get('ct') in ('int', None, '')) for c in a.c[1:]):
                    return True
        return False

    def fixed(self, n, f):
        """what is parsed by n is written in the program"""
        at = set()
        for a in args(n):
            if a is not None:
                at |= self.S.atoms(a, f)
        return any(k[0] == 'g' for k in at) and not any(k[0] in ('f', 'p') or k[0] == 'call' and not (k[1] or 'operator').startswith('operator') for k in at)

    def caught(self):
        ctx, P = self.ctx, self.P
        ctx.rule('caught', 'an error in a grammar never leaves the parser as an exception, and whoever catches it does not stop parsing before the end', 3)
        mayt, why = {}, {}
        work = []

        def add(f, n, to):
            if f.id not in mayt:
                mayt[f.id], why[f.id] = f, (n, to)
                work.append(f)
        for f in self.mine:
            for n in f.walk():
                if n.k == 'CXXThrowExpr' and short(f.cls) == 'TextualParser' and not self.in_try(n) and n.c and n.c[0] is not None:
                    add(f, n, None)
        if not work:
            raise Broken('the grammar parser throws nothing')
        while work:
            t = work.pop()
            for n, f in self.callers.get(t.id, ()):
                if not self.in_try(n) and not self.fixed(n, f):
                    add(f, n, t)
        roots = [f for f in self.mine if f.n == 'parse_grammar']
        for f in roots:
            path = []
            if f.id in mayt:
                g = f
                while g is not None and len(path) < 8:
                    n, to = why[g.id]
                    path.append('%s (%s)' % (to.q if to is not None else 'throw', n.where()))
                    g = to
            ctx.check(f.id not in mayt, 'caught', '%s:%s' % (f.q, '-'.join(re.sub(r'\W+', '', p.get('t') or '') for p in f.params)), '%s:%d' % (f.file, f.line), 'catches all errors', '%s can be left by an uncaught error: %s' % (f.q, ' -> '.join(path)))

    # ---- the callers
    def heeded(self):
        ctx, P = self.ctx, self.P
        ctx.rule('heeded', 'every caller of the grammar parser takes a count of errors other than zero for a failure', 5)
        for f in self.mine:
            for n in f.walk():
                if n.k not in CALLS or n.get('fs') not in PARSERS:
                    continue
                key = '%s/%s' % (f.q, f.file.split('/')[-1])
                if f.n in PARSERS:
                    up = [a.k for a in n.ancestors()]
                    ok = up and up[0] == 'ReturnStmt' or any(a.k == 'ReturnStmt' for a in n.ancestors()) or any(('call', n.get('fs')) in self.S.atoms(r.c[0], f) for r in f.walk() if r.k == 'ReturnStmt' and r.c and r.c[0] is not None)
                    ctx.check(ok, 'heeded', key, n.where(), 'passed on', '%s does not pass on how many errors there were' % f.q)
                    continue
                ok, what = self.tested(n, f)
                ctx.check(ok, 'heeded', key, n.where(), 'a count other than 0 fails', '%s %s' % (f.q, what))

    def tested(self, call, f):
        """the branch decided by the result of call leads to failure when the result is not 0"""
        found = False
        for B in f.cfg.b.values():
            l, neg = leafcond(B)
            if l is None:
                continue
            truth = None       # successor taken (before neg) when result != 0
            x = strip(l)
            if self.is_result(x, call, f):
                truth = True
            elif x.k == 'BinaryOperator' and x.get('op') in ('!=', '==', '>', '<', '>=', '<='):
                a, b = strip(x.c[0]), strip(x.c[1])
                va = b.ev if x.c[1].ev is None else x.c[1].ev
                if self.is_result(a, call, f) and va is not None:
                    o, v = x.get('op'), int(va)
                    if (o, v) in (('!=', 0), ('>', 0), ('>=', 1)):
                        truth = True
                    elif (o, v) in (('==', 0), ('<=', 0), ('<', 1)):
                        truth = False
                    else:
                        return False, 'compares the count of errors by %s %d' % (o, v)
            if truth is None:
                continue
            found = True
            s = B.succ[0 if truth != neg else 1]
            bad = self.after(f, s, 0) if s >= 0 else []
            if bad:
                return False, 'goes on after errors in the grammar: %s (%s)' % (bad[0][1], bad[0][0])
        if not found:
            return False, 'does not look at the count of errors'
        return True, ''

    # ---- who hands the failure on as a null pointer
    def nulls(self):
        ctx, P = self.ctx, self.P
        ctx.rule('looked', 'what may be null because an error was reported is looked at before it is used', 2)
        for f in self.mine:
            if f.n == 'main' or not any(True for _ in self.messages(f)):
                continue
            rs = [n for n in f.walk() if n.k == 'ReturnStmt' and n.c and n.c[0] is not None]
            if not any('*' in (r.c[0].t or '') or strip(r.c[0]).k == 'CXXNullPtrLiteralExpr' for r in rs):
                continue
            def null(r):
                s = strip(r.c[0])
                return s.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or s.ev is not None and int(s.ev) == 0
            if not any(null(r) for r in rs):
                continue
            for c, g in self.callers.get(f.id, ()):
                up = None
                for a in c.ancestors():
                    if a.k in ('VarDecl', 'ReturnStmt', 'BinaryOperator', 'IfStmt', 'CompoundStmt'):
                        up = a
                        break
                if up is None or up.k in ('ReturnStmt', 'CompoundStmt', 'IfStmt') and up.k == 'ReturnStmt':
                    continue
                v = up.get('id') if up.k == 'VarDecl' else None
                if up.k == 'BinaryOperator' and up.get('op') == '=':
                    l = strip(up.c[0])
                    v = l.get('id') if l is not None and l.k == 'DeclRefExpr' else None
                if v is None:
                    continue
                # on every way from here, a test of v comes before v is followed
                p = self.S.at(g, c)
                tests = {}
                for B in g.cfg.b.values():
                    l, neg = leafcond(B)
                    if l is not None and any(x.k == 'DeclRefExpr' and x.get('id') == v for x in l.walk()) and not self.follows(l, v):
                        tests[B.id] = True
                bad, seen, work = None, set(), [(p[0], p[1] + 1)]
                while work and bad is None:
                    b, i = work.pop()
                    for x in g.cfg.b[b].els[i:]:
                        if isinstance(x, tuple):
                            continue
                        if self.follows(x, v):
                            bad = x
                            break
                    if b in tests or bad is not None:
                        continue
                    for t in g.cfg.b[b].succ:
                        if t >= 0 and t not in seen:
                            seen.add(t)
                            work.append((t, 0))
                ctx.check(bad is None, 'looked', '%s/%s' % (g.q, f.q), c.where(), 'looked at first', '%s uses what %s gave it without a look at whether it failed (%s)' % (g.q, f.q, bad.where() if bad is not None else ''))

    def follows(self, x, v):
        """x dereferences the variable v"""
        def isv(y):
            y = strip(y) if y is not None else None
            return y is not None and y.k == 'DeclRefExpr' and y.get('id') == v
        if x.k == 'UnaryOperator' and x.get('op') == '*':
            return isv(x.c[0])
        if x.k == 'CXXOperatorCallExpr' and x.get('op') in ('*', '->'):
            return any(isv(a) for a in args(x))
        if x.k == 'MemberExpr' and x.c and x.c[0] is not None and '*' in (x.c[0].t or ''):
            return isv(x.c[0])
        return False

    def is_result(self, x, call, f):
        if x is call or x is not None and x.i == call.i and x.fn is call.fn:
            return True
        if x is not None and x.k == 'DeclRefExpr' and x.get('dk') == 'Var':
            vals, entry = self.S.reaching(f, x.get('id'), x)
            return any(v is not None and strip(v) is call for v in vals)
        return False


def check(ctx):
    Check(ctx).run()
    ctx.note('a message is an error if its text says so ("Error:", "Could not write"); failures that are not reported at all are not found')
