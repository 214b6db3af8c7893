"""C18: a failed ICU operation is noticed and never poisons a later one."""
import re
from ..ir import CALLS, args, recv, strip, canon
from ..flow import leafcond
from ..bounds import Bounds, add, CONST, FnB

# operations that the data (grammar, stream, options, a tag's pattern) can make fail
DATA = {'u_init', 'u_strFromUTF8', 'u_strToUTF8', 'u_strFromUTF8WithSub', 'u_strToUTF8WithSub', 'u_strFromUTF8Lenient', 'ucnv_toUChars', 'ucnv_fromUChars', 'ucnv_convert', 'u_strToUTF32', 'u_strFromUTF32', 'u_strToWCS', 'u_strFromWCS', 'u_strToUTF32WithSub', 'u_strFromUTF32WithSub', 'uregex_open', 'uregex_openC',
        'uregex_find', 'uregex_findNext', 'uregex_matches', 'uregex_lookingAt', 'uregex_group'}
# of these, the ones that fail only when the result does not fit
ROOMY = {'u_strFromUTF8WithSub', 'u_strToUTF8WithSub', 'ucnv_toUChars', 'uregex_group'}
# single units that cannot be half a surrogate pair
EXEMPT = {('u_fputc_74', 'u_strToUTF8'): 'the unit is at most 0x7FFF, and its 3 bytes fit the 5'}
OK = ('Z',)
UN = ('U',)
FA = ('F',)


def icu_name(n):
    return re.sub(r'_\d+$', '', n.get('fs') or '')


def is_status(t):
    return (t or '').replace('const ', '').strip(' &*') == 'UErrorCode'


class C18:
    def __init__(self, P, ctx):
        self.P, self.ctx = P, ctx
        self.B = Bounds(P)
        self.memo = {}
        self.site = {}           # obligations: (rule, node) -> [ok, message, fn]
        self.bools = {}          # local variables set once, from one expression
        self.alias = {}          # reference variables: what they stand for
        for fn in P.funcs.values():
            if fn.body is None:
                continue
            for n in fn.walk():
                if n.k != 'VarDecl' or not n.c or n.c[0] is None:
                    continue
                if is_status(n.t) and n.t.strip().endswith('&'):
                    x = strip(n.c[0])
                    if x.k == 'DeclRefExpr':
                        self.alias[n.get('id')] = x.get('id')
                elif n.t.replace('const ', '') in ('bool', 'signed char', 'UBool', 'int'):
                    self.bools[n.get('id')] = n.c[0]
        for fn in P.funcs.values():
            if fn.body is None or not self.bools:
                continue
            for n in fn.walk():
                if n.k in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator') and n.get('op') in ('=', '|=', '&=', '++', '--', '&', '+=') and n.c and n.c[0] is not None and strip(n.c[0]).k == 'DeclRefExpr':
                    self.bools.pop(strip(n.c[0]).get('id'), None)

    # ---- what a call does with a status
    def key(self, a):
        """status object an argument stands for"""
        a = strip(a)
        if a is None or not is_status(a.t):
            return None
        if a.k == 'UnaryOperator' and a.get('op') == '&':
            a = strip(a.c[0])
        if a is None:
            return None
        if a.k == 'DeclRefExpr':
            i, d = a.get('id'), 0
            while i in self.alias and d < 5:
                i, d = self.alias[i], d + 1
            return i
        if a.k == 'MemberExpr':
            return canon(a)
        return None

    def fallible(self, n, fn):
        """can the data make this call fail?"""
        fs = icu_name(n)
        A = args(n)
        if fs not in DATA:
            return False
        if fs in ('uregex_openC', 'uregex_open'):
            return strip(A[0]).k != 'StringLiteral'
        if fs == 'uregex_group' and len(A) > 3:
            F = self.B.fb(fn)
            if self.measured(n, fs, A[3], slice(0, 2), F, F.at(n)):
                return False
        if fs in ('uregex_find', 'uregex_group', 'uregex_matches', 'uregex_lookingAt', 'uregex_setText', 'uregex_clone', 'uregex_reset', 'uregex_findNext'):
            # the pattern of a tag
            return any(m.k == 'MemberExpr' and (m.get('m') or m.get('d') or m.get('fs') or '').split('::')[-1] == 'regexp' or m.k == 'DeclRefExpr' and m.get('id') in {p['id'] for p in fn.params} for m in A[0].walk())
        ROOM = {'ucnv_toUChars': (2, 4, 1), 'u_strFromUTF8WithSub': (1, 4, 1), 'u_strToUTF8WithSub': (1, 4, 3)}
        if fs in ROOM:
            # only running out of room fails
            c, s, k = ROOM[fs]
            F = self.B.fb(fn)
            pos = F.at(n)
            cap, src = F.lin(A[c], pos), F.lin(A[s], pos)
            if cap is not None and src is not None and F.prove(add(cap, src, -k), pos):
                return False
            if fs != 'ucnv_toUChars' and self.measured(n, fs, A[c], slice(3, 6), F, pos):
                return False
        if fs == 'u_strToUTF8' and len(A) > 4 and strip(A[4]).ev == 1 and A[1] is not None:
            # a single unit
            return not self.single(n, fn)
        return True

    def measured(self, n, fs, cap, same, F, pos):
        """the room is at least the length an earlier call measured for the same text"""
        v = strip(cap)
        while v is not None and v.k == 'BinaryOperator' and v.get('op') == '+' and strip(v.c[1]).ev is not None and strip(v.c[1]).ev >= 0:
            v = strip(v.c[0])
        if v is None or v.k != 'DeclRefExpr' or pos is None:
            return False
        ds = F.reaching(('v', v.get('id')), pos)
        for d in ds:
            if d is not None and d.k in ('VarDecl', 'BinaryOperator') and d.c:
                d = strip(d.c[-1] if d.k == 'BinaryOperator' else d.c[0])
            if d is not None and d.k in CALLS and d.get('fid') in self.P.funcs:
                tg = self.P.funcs[d.get('fid')]
                inner = [m for m in tg.walk() if m.k in CALLS and icu_name(m) == fs and self.returned(tg, m)] if tg.body is not None else []
                if len(inner) == 1 and [canon(x) for x in args(inner[0])[same]] == [canon(x) for x in args(n)[same]]:
                    continue
                return False
            if d is None or d.k not in CALLS or d is n or icu_name(d) != fs or self.length_var(d) != v.get('id') or [canon(x) for x in args(d)[same]] != [canon(x) for x in args(n)[same]]:
                return False
        return bool(ds)

    def single(self, n, fn):
        return (fn.q, icu_name(n)) in EXEMPT

    def length_var(self, n):
        """variable that receives the length an ICU call measured"""
        fs = icu_name(n)
        A = args(n)
        if fs.startswith('u_str') and len(A) > 2:
            a = strip(A[2])
            if a is not None and a.k == 'UnaryOperator' and a.get('op') == '&' and strip(a.c[0]).k == 'DeclRefExpr':
                return strip(a.c[0]).get('id')
            return None
        p = n.p
        while p is not None and p.k in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'ExprWithCleanups', 'CXXFunctionalCastExpr'):
            p = p.p
        if p is not None and p.k == 'VarDecl':
            return p.get('id')
        if p is not None and p.k == 'BinaryOperator' and p.get('op') == '=' and strip(p.c[0]).k == 'DeclRefExpr':
            return strip(p.c[0]).get('id')
        return None

    def length_of(self, x, fn):
        """variable of fn that receives the length of the pending call x, here or through the function that makes it"""
        tg = self.P.funcs[x[2]]
        if x[2] == fn.id:
            return self.length_var(fn.nodes[x[1]])
        if self.returned(tg, tg.nodes[x[1]]):
            for n in fn.walk():
                if n.k == 'VarDecl' and n.c and n.c[0] is not None:
                    c = strip(n.c[0])
                    if c.k in CALLS and c.get('fid') == tg.id:
                        return n.get('id')
        return None

    @staticmethod
    def returned(tg, call):
        p = call.p
        while p is not None and p.k in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'ExprWithCleanups', 'CXXFunctionalCastExpr'):
            p = p.p
        return p is not None and p.k == 'ReturnStmt'

    def fits(self, leaf, truth):
        """(length variable, the result fits)"""
        if leaf.k != 'BinaryOperator' or leaf.get('op') not in ('<', '<=', '>', '>='):
            return {}
        a, b, op = strip(leaf.c[0]), strip(leaf.c[1]), leaf.get('op')
        if not truth:
            op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
        res = {}
        for x, y, o in ((a, b, op), (b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op])):
            if x is not None and x.k == 'DeclRefExpr':
                res[x.get('id')] = (y, o)
        return res

    def room(self, x, fn, leaf, other, op):
        """what comparing the measured length tells of the pending call x: it fitted, it did not, or nothing"""
        tg = self.P.funcs[x[2]]
        call = tg.nodes[x[1]]
        fs = icu_name(call)
        i = 3 if fs == 'uregex_group' else 2 if fs == 'ucnv_toUChars' else 1
        cap = strip(args(call)[i])
        F = self.B.fb(fn)
        o = F.lin(other, F.at(leaf))
        if tg is not fn:
            # the room is what the caller gave
            ps = {p['id']: j for j, p in enumerate(tg.params)}
            if cap.k == 'DeclRefExpr' and cap.get('id') in ps:
                for n in fn.walk():
                    if n.k in CALLS and n.get('fid') == tg.id:
                        A = args(n)
                        off = 1 if n.k == 'CXXOperatorCallExpr' and n.get('cls') else 0
                        cap = A[ps[cap.get('id')] + off] if ps[cap.get('id')] + off < len(A) else cap
                        c = F.lin(cap, F.at(n))
                        break
                else:
                    return x
            else:
                c = self.B.fb(tg).lin(cap, self.B.fb(tg).at(call))
        else:
            c = F.lin(cap, F.at(call))
        if o is None or c is None:
            return x
        d = add(c, o, -1)
        if set(k for k, v in d.items() if v) <= {CONST}:
            d = d.get(CONST, 0)
            if op in ('<', '<='):
                return OK if d >= (-1 if op == '<' else 0) else x
            return FA if d <= (0 if op == '>=' else -0) else x
        return x

    def preflight(self, n):
        """a call that only asks for the length"""
        A = args(n)
        fs = icu_name(n)
        if fs.startswith('u_str') and len(A) >= 2:
            d = strip(A[0])
            return A[1] is not None and strip(A[1]).ev == 0 and (d.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or d.ev == 0)
        return False

    def resized(self, n, fn):
        """an output length that is compared with the capacity afterwards covers running out of room"""
        return False

    # ---- transfer
    def call(self, n, fn, st):
        tg = self.P.funcs.get(n.get('fid'))
        A = args(n)
        ks = [(i, self.key(a)) for i, a in enumerate(A)]
        ks = [(i, k) for i, k in ks if k]
        if tg is None or tg.body is None:
            pts = n.get('pt') or []
            for i, k in ks:
                pt = pts[i] if i < len(pts) else '*'
                if '*' not in pt and '&' not in pt:
                    continue
                st = self.icu(n, fn, k, st)
            return st
        # a repository function: through its parameters, or through what a lambda captured
        into = {}
        for i, k in ks:
            j = i
            if n.k == 'CXXOperatorCallExpr' and n.get('cls'):
                j = i - 1
            if 0 <= j < len(tg.params):
                into[tg.params[j]['id']] = k
        if tg.is_lambda:
            for m in tg.walk():
                if m.k == 'DeclRefExpr' and is_status(m.t) and m.get('id') in dict(st):
                    into[m.get('id')] = m.get('id')
        if not into:
            return st
        cur = dict(st)
        init = {q: cur.get(k, frozenset([OK])) for q, k in into.items()}
        out = self.function(tg, init, into)
        for q, k in into.items():
            if q in out:
                cur[k] = out[q]
        return tuple(sorted(cur.items(), key=lambda x: str(x[0])))

    def icu(self, n, fn, k, st):
        cur = dict(st)
        v = cur.get(k, frozenset([OK]))
        fs = icu_name(n)
        self.ctx.saw(fn)
        self.note('fresh', n, fn, UN not in v, '%s() is given a status that was never set' % fs, '%s() is given a status that was set' % fs)
        stale = [x for x in v if x[0] in ('F', 'P')]
        self.note('clear', n, fn, not stale, '%s() does nothing when the status still holds the failure of %s' % (fs, self.who(stale)), '%s() starts with a clear status' % fs)
        if self.preflight(n):
            v = frozenset([FA])
        elif self.fallible(n, fn):
            v = frozenset([('P', n.i, fn.id)])
            self.note('noticed', n, fn, True, '', 'failure of %s() is looked at before the status is reused or dropped' % fs)
        else:
            v = frozenset([OK])
        cur[k] = v
        return tuple(sorted(cur.items(), key=lambda x: str(x[0])))

    def who(self, stale):
        for x in stale:
            if x[0] == 'P':
                return 'the call at line %d' % self.P.funcs[x[2]].nodes[x[1]].l
        return 'an earlier call'

    def note(self, rule, n, fn, ok, bad, good):
        o = self.site.setdefault((rule, fn.id, n.i), [True, '', good, n, fn])
        if not ok:
            o[0] = False
            o[1] = bad

    def lost(self, v, why):
        for x in v:
            if x[0] == 'P':
                f = self.P.funcs[x[2]]
                n = f.nodes[x[1]]
                self.note('noticed', n, f, False, 'a failure of %s() goes unnoticed: %s' % (icu_name(n), why), '')

    def transfer(self, fn):
        own = {n.get('id') for n in fn.walk() if n.k == 'VarDecl' and is_status(n.t)}

        def tr(st, e):
            if isinstance(e, tuple):
                return st
            if e.k == 'VarDecl' and is_status(e.t) and not e.t.strip().endswith('&'):
                cur = dict(st)
                self.lost(cur.get(e.get('id'), ()), 'the status goes out of scope')
                init = strip(e.c[0]) if e.c and e.c[0] is not None else None
                cur[e.get('id')] = frozenset([UN]) if init is None or init.k == 'CXXConstructExpr' and not init.c else (frozenset([OK]) if init.ev == 0 else frozenset([OK]))
                return tuple(sorted(cur.items(), key=lambda x: str(x[0])))
            if e.k == 'DeclStmt':
                for c in e.c:
                    if c is not None and c.k == 'VarDecl' and is_status(c.t):
                        st = tr(st, c)
                return st
            if e.k == 'BinaryOperator' and e.get('op') == '=' and self.key(e.c[0]):
                cur = dict(st)
                k = self.key(e.c[0])
                self.lost(cur.get(k, ()), 'the status is set anew')
                cur[k] = frozenset([OK]) if e.c[1].ev == 0 else frozenset([OK])
                return tuple(sorted(cur.items(), key=lambda x: str(x[0])))
            if e.k == 'ReturnStmt' and e.c and e.c[0] is not None and self.key(e.c[0]) in dict(st):
                # handed on to the caller
                cur = dict(st)
                k = self.key(e.c[0])
                cur[k] = frozenset(OK if x[0] == 'P' else x for x in cur[k])
                return tuple(sorted(cur.items(), key=lambda x: str(x[0])))
            if e.k in CALLS and (not e.get('nr')):
                return self.call(e, fn, st)
            return st
        return tr

    def edge(self, fn):
        def ed(st, B, i):
            leaf, neg = leafcond(B)
            if leaf is None:
                return st
            truth = (i == 0) != neg
            lens = self.fits(leaf, truth)
            hit = False
            cur = dict(st)
            for k, v in cur.items():
                nv = set()
                for x in v:
                    lv = self.length_of(x, fn) if x[0] == 'P' and lens and icu_name(self.P.funcs[x[2]].nodes[x[1]]) in ROOMY else None
                    if lv is not None and lv in lens:
                        hit = True
                        nv.add(self.room(x, fn, leaf, *lens[lv]))
                    else:
                        nv.add(x)
                cur[k] = frozenset(nv)
            if hit:
                return tuple(sorted(cur.items(), key=lambda x: str(x[0])))
            m, mt = self.through(leaf, truth)
            if m.k in CALLS and icu_name(m) in ('uregex_find', 'uregex_findNext', 'uregex_matches', 'uregex_lookingAt') and mt:
                # a match is a success
                me = ('P', m.i, fn.id)
                return tuple(sorted(((k, frozenset(OK if x == me else x for x in v)) for k, v in st), key=lambda x: str(x[0])))
            k, good, only = self.test(leaf, truth)
            if k is None or k not in dict(st):
                return st
            cur = dict(st)
            v = cur[k]
            if good is True:
                nv = frozenset(OK if x[0] == 'P' else x for x in v if x[0] in ('P', 'Z'))
            elif good is False:
                nv = frozenset(FA if x[0] == 'P' else x for x in v if x[0] in ('P', 'F', 'U'))
            else:
                return st
            if not nv:
                return None
            cur[k] = nv
            return tuple(sorted(cur.items(), key=lambda x: str(x[0])))
        return ed

    def test(self, n, truth):
        """(status, True if fine / False if failed / None if unknown)"""
        n = strip(n)
        n, truth = self.through(n, truth)
        if n.k in CALLS and icu_name(n) in ('U_FAILURE', 'U_SUCCESS') and args(n):
            k = self.key(args(n)[0])
            return k, truth == (icu_name(n) == 'U_SUCCESS'), None
        if n.k == 'BinaryOperator' and n.get('op') in ('==', '!=', '>', '<=', '<', '>='):
            a, b, op = n.c[0], n.c[1], n.get('op')
            if self.key(a) is None:
                a, b = b, a
                op = {'>': '<', '<': '>', '>=': '<=', '<=': '>='}.get(op, op)
            k = self.key(a)
            if k is None or strip(b).ev is None:
                return None, None, None
            v = strip(b).ev
            if v == 0:
                if op in ('==', '<='):
                    return k, truth, None
                if op in ('!=', '>'):
                    return k, not truth, None
                return None, None, None
            if v > 0:
                if op == '==' and truth or op == '!=' and not truth:
                    return k, False, None
            return None, None, None
        if n.k == 'DeclRefExpr' and is_status(n.t):
            return n.get('id'), not truth, None
        return None, None, None

    def through(self, n, truth):
        """what a local truth value stands for"""
        d = 0
        n = strip(n)
        while d < 6:
            d += 1
            if n.k == 'UnaryOperator' and n.get('op') == '!':
                n, truth = strip(n.c[0]), not truth
            elif n.k == 'DeclRefExpr' and n.get('id') in self.bools:
                n = strip(self.bools[n.get('id')])
            elif n.k == 'BinaryOperator' and n.get('op') in ('!=', '==') and strip(n.c[1]).ev == 0 and not is_status(strip(n.c[0]).t):
                truth = truth == (n.get('op') == '!=')
                n = strip(n.c[0])
            else:
                break
        return n, truth

    @staticmethod
    def join(a, b):
        x, y = dict(a), dict(b)
        r = {k: x.get(k, frozenset()) | y.get(k, frozenset()) for k in set(x) | set(y)}
        return tuple(sorted(r.items(), key=lambda z: str(z[0])))

    def function(self, fn, init, keep=()):
        mk = (fn.id, tuple(sorted((k, v) for k, v in init.items())) if False else repr(sorted((str(k), sorted(map(str, v))) for k, v in init.items())))
        if mk in self.memo:
            return self.memo[mk]
        self.memo[mk] = dict(init)
        if fn.cfg is None:
            return dict(init)
        tr, ed = self.transfer(fn), self.edge(fn)
        st0 = tuple(sorted(init.items(), key=lambda x: str(x[0])))
        cfg = fn.cfg
        ins = {cfg.entry: st0}
        work = [cfg.entry]
        while work:
            b = work.pop()
            B = cfg.b[b]
            st = ins[b]
            for e in B.els:
                st = tr(st, e)
            if B.nr:
                continue
            for i, t in enumerate(B.succ):
                if t < 0:
                    continue
                s2 = ed(st, B, i) if len(B.succ) == 2 else st
                if s2 is None:
                    continue
                m = s2 if t not in ins else self.join(ins[t], s2)
                if t not in ins or m != ins[t]:
                    ins[t] = m
                    work.append(t)
        out = {}
        ex = dict(ins.get(cfg.exit, ()))
        for k, v in ex.items():
            if k in init:
                out[k] = v
            elif isinstance(k, str):
                self.lost(v, 'the function returns without looking at it')
        self.memo[mk] = out
        return out

    def run(self):
        n = 0
        for fn in self.P.funcs.values():
            if fn.body is None or not fn.file.startswith('src/'):
                continue
            uses = [m for m in fn.walk() if m.k == 'VarDecl' and is_status(m.t) or m.k == 'DeclRefExpr' and is_status(m.t) and m.get('dk') != 'EnumConstant' and m.get('g')]
            if not uses:
                continue
            init = {}
            for m in uses:
                if m.k == 'DeclRefExpr' and m.get('g'):
                    init[m.get('id')] = frozenset([OK])
            if fn.is_lambda and not any(m.k == 'VarDecl' for m in uses):
                continue
            self.function(fn, init)
            n += 1
        return n


def check(ctx):
    P = ctx.P
    ctx.rule('fresh', 'an ICU function is never given a status that was not set', 60)
    ctx.rule('clear', 'an ICU function is never given a status that may still hold an earlier failure (it would do nothing)', 60)
    ctx.rule('noticed', 'the status of an operation that the data can make fail is looked at before it is set anew or dropped', 20)
    C = C18(P, ctx)
    C.run()
    seen = {}
    for (rule, fid, i), (ok, bad, good, n, fn) in C.site.items():
        key = '%s:%s' % (fn.q, icu_name(n))
        w = n.where()
        o = seen.setdefault((rule, w, key), [True, '', good])
        if not ok:
            o[0], o[1] = False, bad
    for (rule, w, key), (ok, bad, good) in sorted(seen.items()):
        ctx.check(ok, rule, key, w, good, bad)
