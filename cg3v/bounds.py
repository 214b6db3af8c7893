"""Symbolic sizes: linear forms over the values a function sees, facts from dominating branches, and proofs of `form >= 0`."""
import re
from fractions import Fraction
from .ir import CALLS, args, recv, strip, canon
from .flow import leafcond
from .extract import Broken

NUMCAST = {'UI8', 'UI16', 'UI32', 'UI64', 'SI8', 'SI16', 'SI32', 'SI64', 'UIZ', 'DBL', 'move', 'forward'}
SIZERS = {'resize', 'clear', 'assign', 'erase', 'swap', 'pop_back', 'operator=', 'shrink_to_fit', 'reserve'}
GROW = {'append', 'push_back', 'insert', 'operator+=', 'emplace_back'}
STR = re.compile(r'^(const )?(std::|CG3::|bc::)*(__cxx11::)?(basic_string|vector|UString)\b')
CONST = None


def add(a, b, k=1):
    r = dict(a)
    for t, c in b.items():
        r[t] = r.get(t, 0) + k * c
        if r[t] == 0:
            del r[t]
    return r


def scale(a, k):
    return {t: c * k for t, c in a.items() if c * k != 0}


def cst(n):
    return {CONST: n} if n else {}


def is_unsigned(t):
    t = (t or '').replace('const ', '').strip(' &')
    return t.startswith('unsigned') or t in ('size_t', 'uint32_t', 'uint64_t', 'uint16_t', 'uint8_t', 'std::size_t', 'bool', 'char16_t', 'size_type')


def is_int(t):
    t = (t or '').replace('const ', '').strip(' &')
    return bool(re.match(r'^(unsigned )?(int|long|short|char|long long|signed char)$|^unsigned$|^(std::)?(size_t|ptrdiff_t|streamsize|u?int\d+_t)$|^char16_t$|^bool$', t))


def strtype(t):
    return bool(STR.match((t or '').replace('CG3::', '')))


ELEM = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'char16_t': 2, 'UChar': 2, 'wchar_t': 4, 'char32_t': 4, 'int': 4, 'unsigned int': 4, 'double': 8, 'float': 4,
        'unsigned short': 2, 'short': 2, 'long': 8, 'unsigned long': 8, 'bool': 1, 'long long': 8, 'unsigned long long': 8, 'uint8_t': 1, 'uint16_t': 2, 'uint32_t': 4, 'uint64_t': 8}


def elem_size(t):
    t = (t or '').replace('const ', '').replace('volatile ', '').strip()
    return ELEM.get(t)


class FnB:
    """reaching definitions and facts of one function"""

    def __init__(self, B, fn):
        self.B = B
        self.P = B.P
        self.fn = fn
        self.pos = {}
        self.els = {}
        cfg = fn.cfg
        self.cfg = cfg
        if cfg is not None:
            for b, blk in cfg.b.items():
                els = [e for e in blk.els if not isinstance(e, tuple)]
                self.els[b] = els
                for i, e in enumerate(els):
                    self.pos.setdefault(id(e), (b, i))
        self.decl = {}
        self.defs = {}       # (block, idx) -> list of (key, node)
        self.lambda_written = set()
        for n in fn.walk():
            if n.k == 'VarDecl':
                self.decl[n.get('id')] = n
        self.params = {p['id']: (i, p) for i, p in enumerate(fn.params)}
        for n in fn.walk():
            for k in self.defkeys(n):
                p = self.at(n)
                if p is not None:
                    self.defs.setdefault(p, []).append((k, n))
            if n.k == 'LambdaExpr' and n.get('lam') in self.P.funcs:
                self.lambda_written |= B.written_vars(self.P.funcs[n.get('lam')])
        self._rd = {}
        self._facts = None

    # ---- positions
    def at(self, n):
        m = n
        while m is not None:
            p = self.pos.get(id(m))
            if p is not None:
                return p
            m = m.p
        return None

    # ---- definitions
    def defkeys(self, n):
        res = []
        if n.k == 'VarDecl':
            res.append(('v', n.get('id')))
            if strtype(n.t) and n.t.strip().endswith('&'):
                if n.c and n.c[0] is not None:
                    res.append(('o', self.okey(n.c[0])))
            elif strtype(n.t):
                res.append(('o', 'd:%s' % n.get('id')))
        elif n.k in ('BinaryOperator', 'CompoundAssignOperator') and (n.get('op') or '').endswith('=') and n.get('op') not in ('==', '!=', '<=', '>='):
            l = strip(n.c[0])
            if l is not None and l.k == 'DeclRefExpr':
                res.append(('v', l.get('id')))
            elif l is not None and l.k == 'MemberExpr':
                res.append(('v', canon(l)))
        elif n.k == 'UnaryOperator' and n.get('op') in ('++', '--'):
            l = strip(n.c[0])
            if l is not None and l.k == 'DeclRefExpr':
                res.append(('v', l.get('id')))
            elif l is not None and l.k == 'MemberExpr':
                res.append(('v', canon(l)))
        elif n.k in CALLS:
            r = recv(n)
            fs = n.get('fs') or ''
            A = args(n)
            if n.k == 'CXXOperatorCallExpr' and n.get('op') in ('=', '+='):
                l = strip(A[0])
                if l is not None:
                    if l.k == 'DeclRefExpr':
                        res.append(('v', l.get('id')))
                    if strtype(l.t) and n.get('op') == '=':
                        res.append(('o', self.okey(l)))
            elif r is not None and strtype(r.t.replace(' *', '').replace(' &', '')) and fs in SIZERS and fs != 'reserve':
                res.append(('o', self.okey(r)))
            pts = n.get('pt') or []
            off = 1 if (n.k == 'CXXOperatorCallExpr' and n.get('cls')) else 0
            for i, a in enumerate(A[off:]):
                a = strip(a)
                if a is None:
                    continue
                pt = pts[i].strip() if i < len(pts) else None
                if a.k == 'UnaryOperator' and a.get('op') == '&':
                    x = strip(a.c[0])
                    if x is not None and x.k == 'DeclRefExpr':
                        res.append(('v', x.get('id')))
                        if strtype(x.t):
                            res.append(('o', self.okey(x)))
                elif pt is not None and pt.endswith('&') and not pt.endswith('&&') and not pt.startswith('const ') and ' const &' not in pt:
                    if a.k == 'DeclRefExpr':
                        res.append(('v', a.get('id')))
                    if strtype(a.t):
                        res.append(('o', self.okey(a)))
                elif pt is not None and pt.endswith('&&') and strtype(a.t):
                    res.append(('o', self.okey(a)))
        return res

    def okey(self, n):
        """identity of a container object, through reference variables"""
        n = strip(n)
        d = 0
        while n is not None and d < 8:
            d += 1
            if n.k == 'DeclRefExpr' and n.get('id') in self.decl:
                v = self.decl[n.get('id')]
                if v.t.strip().endswith('&') and v.c and v.c[0] is not None:
                    n = strip(v.c[0])
                    continue
            break
        return canon(n)

    def reaching(self, key, pos):
        """definitions of key that reach the point before element pos; None in the result: from function entry"""
        ck = (key, pos)
        if ck in self._rd:
            return self._rd[ck]
        b, i = pos
        res = set()
        seen = set()
        work = [(b, i)]
        first = True
        while work:
            b, i = work.pop()
            hit = False
            for j in range(i - 1, -1, -1):
                for k, n in self.defs.get((b, j), ()):
                    if k == key:
                        res.add(n)
                        hit = True
                if hit:
                    break
            if hit:
                continue
            if b == self.cfg.entry:
                res.add(None)
            for p in self.cfg.b[b].pred:
                if p not in seen:
                    seen.add(p)
                    work.append((p, len(self.els[p])))
        r = frozenset(res)
        self._rd[ck] = r
        return r

    def stale(self, pkey, okey, start, use):
        """may the object change size on a way from start to use on which the pointer keeps its value?"""
        def walk(b, i):
            seen, work, found = set(), [(b, i)], []
            while work:
                b, i = work.pop()
                stop = False
                for j in range(i, len(self.els[b])):
                    if (b, j) == use:
                        found.append(('use', b, j))
                    ks = self.defs.get((b, j), ())
                    if any(k == okey for k, _ in ks):
                        found.append(('size', b, j))
                    if any(k == pkey for k, _ in ks):
                        stop = True
                        break
                if stop:
                    continue
                for t in self.cfg.b[b].succ:
                    if t >= 0 and t not in seen:
                        seen.add(t)
                        work.append((t, 0))
            return found
        for w, b, j in walk(start[0], start[1] + 1):
            if w == 'size' and any(x[0] == 'use' for x in walk(b, j + 1)):
                return True
        return False

    # ---- linear forms
    def lin(self, n, pos, depth=0):
        n = strip(n)
        if n is None or depth > 25:
            return None
        if n.ev is not None and isinstance(n.ev, int) and n.k != 'StringLiteral':
            return cst(n.ev)
        if n.k == 'BinaryOperator' and n.get('op') in ('+', '-'):
            a, b = self.lin(n.c[0], pos, depth + 1), self.lin(n.c[1], pos, depth + 1)
            if a is None or b is None:
                return self.opaque(n)
            return add(a, b, 1 if n.get('op') == '+' else -1)
        if n.k == 'BinaryOperator' and n.get('op') == '*':
            a, b = self.lin(n.c[0], pos, depth + 1), self.lin(n.c[1], pos, depth + 1)
            if a is not None and b is not None:
                if set(a) <= {CONST}:
                    return scale(b, a.get(CONST, 0))
                if set(b) <= {CONST}:
                    return scale(a, b.get(CONST, 0))
            return self.opaque(n)
        if n.k == 'UnaryOperator' and n.get('op') in ('++', '--') and not n.get('post'):
            a = self.lin(n.c[0], pos, depth + 1)
            return None if a is None else add(a, cst(1 if n.get('op') == '++' else -1))
        if n.k == 'UnaryOperator' and n.get('op') in ('++', '--'):
            # the value before
            p = self.at(n) or pos
            return self.lin(n.c[0], p, depth + 1)
        if n.k == 'UnaryOperator' and n.get('op') == '+':
            return self.lin(n.c[0], pos, depth + 1)
        if n.k == 'ConditionalOperator':
            return self.choice(n, pos, depth)
        if n.k in CALLS:
            fs = re.sub(r'_\d+$', '', n.get('fs') or '')
            A = args(n)
            r = recv(n)
            if fs in NUMCAST and len(A) == 1:
                return self.lin(A[0], pos, depth + 1)
            if fs in ('min',) and len(A) == 2:
                la, lb = self.lin(A[0], pos, depth + 1), self.lin(A[1], pos, depth + 1)
                return {('min', id(n), self.hold(n), self.frz(la), self.frz(lb)): 1}
            if r is not None and fs in ('size', 'length') and not A:
                return self.size_of(r, pos, depth + 1)
            if fs == 'size' and len(A) == 1 and r is None:
                m = re.match(r'.*\[(\d+)\]$', strip(A[0]).t)
                if m:
                    return cst(int(m.group(1)))
                return self.size_of(A[0], pos, depth + 1)
            if fs in ('u_strlen', 'strlen', 'wcslen') and A:
                return {('len', canon(A[0])): 1}
            if r is not None and fs == 'gcount':
                return {('gcount', canon(r)): 1}
            if fs in ('distance',) and len(A) == 2:
                a, b = self.lin(A[0], pos, depth + 1), self.lin(A[1], pos, depth + 1)
                return None if a is None or b is None else add(b, a, -1)
            if r is not None and fs in ('begin', 'data', 'c_str') and not A:
                return {('base', self.okey(r)): 1}
            if r is not None and fs == 'end' and not A:
                s = self.size_of(r, pos, depth + 1)
                return None if s is None else add(s, {('base', self.okey(r)): 1})
            if n.k == 'CXXOperatorCallExpr' and n.get('op') in ('+', '-') and len(A) == 2:
                a, b = self.lin(A[0], pos, depth + 1), self.lin(A[1], pos, depth + 1)
                return None if a is None or b is None else add(a, b, 1 if n.get('op') == '+' else -1)
            tg = self.P.funcs.get(n.get('fid'))
            if tg is not None and is_int(n.t):
                return {('ret', id(n), self.hold(n)): 1}
            return self.opaque(n)
        if n.k == 'DeclRefExpr':
            return self.var(n, pos, depth)
        if n.k == 'MemberExpr':
            key = ('v', canon(n))
            return {('v', canon(n), self.reaching(key, pos) if self.cfg is not None and pos is not None else frozenset(), is_unsigned(n.t), self.fn.id): 1}
        return self.opaque(n)

    keep = []

    def hold(self, n):
        return n

    def frz(self, l):
        return None if l is None else tuple(sorted(l.items(), key=lambda x: repr(x[0])))

    def opaque(self, n):
        return {('?', canon(n), is_unsigned(n.t)): 1} if is_int(n.t) or '*' in n.t else None

    def choice(self, n, pos, depth):
        c = strip(n.c[0])
        a, b = self.lin(n.c[1], pos, depth + 1), self.lin(n.c[2], pos, depth + 1)
        if a is None or b is None:
            return self.opaque(n)
        if c is not None and c.k == 'BinaryOperator' and c.get('op') in ('<', '<=', '>', '>='):
            l, r = self.lin(c.c[0], pos, depth + 1), self.lin(c.c[1], pos, depth + 1)
            if c.get('op') in ('>', '>='):
                l, r = r, l
            if l == a and r == b:
                return {('min', id(n), n, self.frz(a), self.frz(b)): 1}
        return {('any', id(n), n, self.frz(a), self.frz(b)): 1}

    def var(self, n, pos, depth):
        vid = n.get('id')
        if vid in self.lambda_written or (vid not in self.decl and vid not in self.params) or pos is None or self.cfg is None:
            if vid not in self.decl and vid not in self.params and not n.get('g') and self.fn.is_lambda:
                # captured: never assigned anywhere and initialised from a constant
                v = self.B.outer_const(self.fn, vid)
                if v is not None:
                    return cst(v)
            return {('x', vid, is_unsigned(n.t)): 1}
        ds = self.reaching(('v', vid), pos)
        if len(ds) == 1:
            d = next(iter(ds))
            if d is None:
                if vid in self.params:
                    return {('p', self.params[vid][0], is_unsigned(n.t), self.fn.id): 1}
            elif d.k == 'VarDecl' and d.c and d.c[0] is not None and not d.t.strip().endswith('&'):
                r = self.lin(d.c[0], self.at(d), depth + 1)
                if r is not None and not any(t is not None and t[0] == '?' for t in r):
                    return r
            elif d.k == 'BinaryOperator' and d.get('op') == '=':
                r = self.lin(d.c[1], self.at(d), depth + 1)
                if r is not None and not any(t is not None and t[0] == '?' for t in r):
                    return r
        return {('v', vid, ds, is_unsigned(n.t), self.fn.id): 1}

    def size_of(self, obj, pos, depth=0):
        """number of elements of a string or vector object at pos"""
        obj = strip(obj)
        m = re.match(r'.*\[(\d+)\]$', obj.t)
        if m:
            return cst(int(m.group(1)))
        g = self.B.global_row(obj)
        if g is not None:
            return cst(g)
        key = ('o', self.okey(obj))
        if self.cfg is None or pos is None:
            return {('size', key[1], frozenset()): 1}
        ds = self.reaching(key, pos)
        if len(ds) == 1:
            d = next(iter(ds))
            if d is None:
                src = self.emplaced(obj, pos)
                if src is not None:
                    return src
                if obj.k == 'DeclRefExpr' and obj.get('id') in self.params:
                    return {('psize', self.params[obj.get('id')][0], self.fn.id): 1}
            else:
                r = self.sized(d, depth)
                if r is not None:
                    return r
        return {('size', key[1], ds, self.fn.id): 1}

    def sized(self, d, depth=0):
        """element count a sizing operation leaves behind"""
        if d.k == 'VarDecl':
            init = strip(d.c[0]) if d.c and d.c[0] is not None else None
            if d.t.strip().endswith('&'):
                src = self.emplaced(init, self.at(d))
                return src if src is not None else self.size_of(init, self.at(d), depth + 1)
            return self.ctor_size(init, self.at(d), depth)
        fs = d.get('fs') or ''
        A = args(d)
        if fs == 'resize' and A:
            return self.lin(A[0], self.at(d), depth + 1)
        if fs == 'clear':
            return {}
        return None

    def ctor_size(self, init, pos, depth=0):
        while init is not None and init.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(init.c) == 1 and strip(init.c[0]) is not None and strip(init.c[0]).k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            init = strip(init.c[0])
        if init is None:
            return {}
        if init.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            A = [a for a in init.c if a is not None and not a.t.startswith('std::allocator')]
            if not A:
                return {}
            if is_int(strip(A[0]).t) and (len(A) == 1 or is_int(strip(A[1]).t) or len(A) == 2):
                return self.lin(A[0], pos, depth + 1)
        return None

    def emplaced(self, obj, pos):
        """`*v.back().get()` after `v.emplace_back(new T(n, ...))`"""
        m = obj
        d = 0
        while m is not None and d < 8:
            d += 1
            if m.k == 'DeclRefExpr' and m.get('id') in self.decl and self.decl[m.get('id')].c:
                m = strip(self.decl[m.get('id')].c[0])
            elif m.k == 'UnaryOperator' and m.get('op') == '*' or (m.k == 'CXXOperatorCallExpr' and m.get('op') == '*'):
                m = strip(args(m)[0] if m.k == 'CXXOperatorCallExpr' else m.c[0])
            elif m.k == 'CXXMemberCallExpr' and m.get('fs') in ('get', 'back'):
                back = m.get('fs') == 'back'
                m = strip(recv(m))
                if back:
                    break
            else:
                return None
        if m is None:
            return None
        want = canon(m)
        cand = []
        for n in self.fn.walk():
            if n.k == 'CXXMemberCallExpr' and n.get('fs') in ('emplace_back', 'push_back') and recv(n) is not None and canon(recv(n)) == want:
                cand.append(n)
        best = None
        p0 = self.at(self.decl[obj.get('id')]) if obj.k == 'DeclRefExpr' and obj.get('id') in self.decl else pos
        for n in cand:
            p = self.at(n)
            if p is not None and p0 is not None and p[0] == p0[0] and p[1] < p0[1] and (best is None or p[1] > best[0][1]):
                best = (p, n)
        if best is None:
            return None
        for x in best[1].walk():
            if x.k == 'CXXNewExpr':
                for c in x.walk():
                    if c.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and strtype(c.t):
                        return self.ctor_size(c, best[0])
        return None

    # ---- facts
    def facts_at(self, pos):
        if self._facts is None:
            self.compute_facts()
        b, i = pos
        cur = set(self._facts.get(b, ()))
        for j in range(i):
            cur = self.step(cur, b, j)
        return cur

    def fact_vars(self, n):
        vs = set()
        for m in n.walk():
            if m.k == 'DeclRefExpr':
                vs.add(('v', m.get('id')))
            elif m.k == 'MemberExpr' and m.get('dk') == 'Field':
                vs.add(('v', canon(m)))
            if m.k == 'CXXMemberCallExpr' and m.get('fs') in ('size', 'length', 'empty', 'gcount') and recv(m) is not None:
                vs.add(('o', self.okey(recv(m))))
        return frozenset(vs)

    def step(self, cur, b, j):
        ks = {k for k, n in self.defs.get((b, j), ())}
        e = self.els[b][j]
        if ks:
            cur = {f for f in cur if not (f[3] & ks)}
        if e.k == 'CXXMemberCallExpr' and e.get('fs') == 'read' and recv(e) is not None and len(args(e)) == 2:
            key = ('o', canon(recv(e)))
            cur = {f for f in cur if not (f[0] == 'read' and key in f[3])}
            cur = cur | {('read', e, None, frozenset({key}))}
        if e.k in CALLS and e.get('fid') in self.B.P.funcs:
            for i, up in self.B.post(e.get('fid')).items():
                A = args(e)
                if i < len(A) and A[i] is not None:
                    cur = cur | {('post', e, (i, up), self.fact_vars(A[i]))}
        return cur

    def compute_facts(self):
        cfg = self.cfg
        IN = {cfg.entry: frozenset()}
        work = [cfg.entry]
        while work:
            b = work.pop()
            cur = set(IN[b])
            for j in range(len(self.els[b])):
                cur = self.step(cur, b, j)
            B = cfg.b[b]
            if B.nr:
                continue
            leaf, neg = leafcond(B)
            for i, s in enumerate(B.succ):
                if s < 0:
                    continue
                out = set(cur)
                if leaf is not None and leaf.k == 'BinaryOperator' and leaf.get('op') in ('<', '<=', '>', '>=', '==', '!='):
                    truth = (i == 0) != neg
                    out.add(('cmp', leaf, truth, self.fact_vars(leaf)))
                if s not in IN:
                    IN[s] = frozenset(out)
                    work.append(s)
                else:
                    m = IN[s] & out
                    if m != IN[s]:
                        IN[s] = frozenset(m)
                        work.append(s)
        self._facts = IN

    def forms_at(self, pos):
        """linear forms known to be >= 0 at pos"""
        res = []
        for f in self.facts_at(pos):
            if f[0] == 'cmp':
                leaf, truth = f[1], f[2]
                p = self.at(leaf)
                a, b = self.lin(leaf.c[0], p), self.lin(leaf.c[1], p)
                if a is None or b is None:
                    continue
                op = leaf.get('op')
                if not truth:
                    op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
                if op == '<':
                    res.append(add(add(b, a, -1), cst(1), -1))
                elif op == '<=':
                    res.append(add(b, a, -1))
                elif op == '>':
                    res.append(add(add(a, b, -1), cst(1), -1))
                elif op == '>=':
                    res.append(add(a, b, -1))
                elif op == '==':
                    res.append(add(a, b, -1))
                    res.append(add(b, a, -1))
            elif f[0] == 'post':
                i, up = f[2]
                l = self.lin(args(f[1])[i], self.at(f[1]))
                if l is not None:
                    res.append(add(cst(up), l, -1))
            elif f[0] == 'read':
                e = f[1]
                amt = self.lin(args(e)[1], self.at(e))
                if amt is not None:
                    res.append(add(amt, {('gcount', canon(recv(e))): 1}, -1))
        return res

    # ---- proofs
    def prove(self, diff, pos, extra=()):
        """diff >= 0 at pos?"""
        forms = (self.forms_at(pos) if self.cfg is not None and pos is not None else []) + list(extra)
        return self._prove(diff, pos, forms, 0, set())

    def _prove(self, diff, pos, forms, depth, seen):
        key = self.frz(diff)
        if depth > 7 or key in seen:
            return False
        seen = seen | {key}
        for t, c in diff.items():
            if t is not None and t[0] in ('min', 'any'):
                alts = [dict(x) if x is not None else None for x in t[3:5]]
                rest = {k: v for k, v in diff.items() if k != t}
                oks = [a is not None and self._prove(add(rest, a, c), pos, forms, depth + 1, seen) for a in alts]
                if t[0] == 'min' and c < 0:
                    return any(oks)
                return all(oks)
        neg = [t for t, c in diff.items() if t is not None and c < 0]
        signed = [t for t, c in diff.items() if t is not None and c > 0 and not self.nonneg(t)]
        if not neg and not signed and diff.get(CONST, 0) >= 0:
            return True
        cands = []
        if neg:
            t = neg[0]
            for F in forms + self.bounds_of(t, True, depth):
                if F.get(t, 0) < 0:
                    cands.append((F, Fraction(diff[t]) / Fraction(F[t])))
        elif signed:
            t = signed[0]
            for F in forms + self.bounds_of(t, False, depth):
                if F.get(t, 0) > 0:
                    cands.append((F, Fraction(diff[t]) / Fraction(F[t])))
        else:
            for t, c in diff.items():
                if t is None:
                    continue
                for F in forms + self.bounds_of(t, False, depth):
                    if F.get(t, 0) > 0:
                        cands.append((F, Fraction(c) / Fraction(F[t])))
        for F, k in cands:
            if self._prove(add(diff, F, -k), pos, forms, depth + 1, seen):
                return True
        return False

    def nonneg(self, t):
        if t[0] in ('size', 'psize', 'len', 'gcount'):
            return True
        if t[0] == 'v':
            return t[3]
        if t[0] in ('?', 'x'):
            return t[2]
        if t[0] == 'p':
            return t[2]
        return False

    def bounds_of(self, t, upper, depth):
        """forms >= 0 that bound term t from above / below, from its definitions"""
        if depth > 5:
            return []
        if t[0] == 'ret':
            return self.B.return_forms(t, self)
        if t[0] == 'v' and t[4] == self.fn.id and not (len(t[2]) == 1 and None in t[2]):
            return self.def_bounds(t, upper)
        return []

    _busy = None

    def def_bounds(self, t, upper):
        """a variable that starts at constants and only steps by one: bounded by what holds where it steps"""
        if self._busy is None:
            self._busy = set()
        if t in self._busy:
            return []
        self._busy.add(t)
        try:
            cands = None
            for d in t[2]:
                here = []
                if d is None:
                    return []
                if d.k == 'VarDecl' or (d.k == 'BinaryOperator' and d.get('op') == '='):
                    e = (d.c[0] if d.k == 'VarDecl' else d.c[1]) if d.c else None
                    if e is None:
                        return []
                    l = self.lin(e, self.at(d))
                    if l is None or t in l:
                        return []
                    here.append(('def', l, self.at(d)))
                elif d.k == 'UnaryOperator' and d.get('op') in ('++', '--'):
                    p = self.at(d)
                    old = self.lin(d.c[0], p)
                    here.append(('def', add(old, cst(1 if d.get('op') == '++' else -1)), p))
                else:
                    return []
                cands = (cands or []) + here
            if not cands:
                return []
            # candidate limits: constants, and the bounds facts give at the steps
            limits = []
            for _, l, p in cands:
                if set(l) <= {CONST}:
                    limits.append(l)
                for F in self.forms_at(p):
                    # F >= 0 with the stepped variable negative: v <= rest
                    for u, c in F.items():
                        if u is not None and u[0] == 'v' and u[1] == t[1] and ((c < 0) == upper):
                            rest = add(F, {u: c}, -1)
                            rest = scale(rest, Fraction(1) / Fraction(-c))
                            if upper:
                                limits.append(rest)
                                limits.append(add(rest, cst(1)))
                            else:
                                limits.append(rest)
                                limits.append(add(rest, cst(1), -1))
            res = []
            for L in limits:
                if t in L or any(u is not None and u[0] == 'v' and u[1] == t[1] for u in L):
                    continue
                ok = True
                for _, l, p in cands:
                    diff = add(L, l, -1) if upper else add(l, L, -1)
                    if not self._prove(diff, p, self.forms_at(p), 3, set()):
                        ok = False
                        break
                if ok:
                    res.append(add(L, {t: 1}, -1) if upper else add({t: 1}, L, -1))
            return res
        finally:
            self._busy.discard(t)


class Bounds:
    def __init__(self, P):
        self.P = P
        self._fb = {}
        self._wv = {}
        self._post = {}
        self._rows = None

    def fb(self, fn):
        if fn.id not in self._fb:
            self._fb[fn.id] = FnB(self, fn)
        return self._fb[fn.id]

    def post(self, fid):
        """by-value integer parameters of a function that are at most a constant whenever it returns"""
        if fid in self._post:
            return self._post[fid]
        self._post[fid] = {}
        fn = self.P.funcs[fid]
        if fn.body is None or fn.cfg is None or not any(is_int(p['t']) for p in fn.params) or not any(p['t'].strip() and is_int(p['t']) for p in fn.params):
            return {}
        ids = {p['id']: i for i, p in enumerate(fn.params) if is_int(p['t'])}
        if not any(m.k == 'BinaryOperator' and m.get('op') in ('<', '<=', '>', '>=') and any(x.k == 'DeclRefExpr' and x.get('id') in ids for x in m.walk()) for m in fn.walk()):
            return {}
        G = self.fb(fn)
        res = {}
        for F in G.forms_at((fn.cfg.exit, 0)):
            ts = [(u, c) for u, c in F.items() if u is not None]
            if len(ts) == 1 and ts[0][1] < 0 and ts[0][0][0] == 'p':
                res[ts[0][0][1]] = F.get(CONST, 0) / -Fraction(ts[0][1])
        self._post[fid] = res
        return res

    def written_vars(self, fn):
        if fn.id in self._wv:
            return self._wv[fn.id]
        self._wv[fn.id] = set()
        res = set()
        own = {n.get('id') for n in fn.walk() if n.k == 'VarDecl'} | {p['id'] for p in fn.params}
        tmp = FnB.__new__(FnB)
        tmp.decl = {}
        for n in fn.walk():
            for k in FnB.defkeys(tmp, n):
                if k[0] == 'v' and k[1] not in own:
                    res.add(k[1])
            if n.k == 'LambdaExpr' and n.get('lam') in self.P.funcs:
                res |= self.written_vars(self.P.funcs[n.get('lam')]) - own
        self._wv[fn.id] = res
        return res

    def outer_const(self, fn, vid):
        return None

    def rows(self):
        """global vectors of equally long strings: id -> row length"""
        if self._rows is None:
            self._rows = {}
            for g in self.P.globals.values():
                if not g.get('def') or not re.match(r'^std::vector<std::(__cxx11::)?basic_string<', g.get('t') or ''):
                    continue
                ns = g.get('nodes') or []
                lens = []
                for n in ns:
                    if n.get('k') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and (n.get('t') or '').startswith(('std::basic_string', 'CG3::UString', 'std::__cxx11')):
                        cs = n.get('c') or []
                        if cs and ns[cs[0]].get('ev') is not None and is_int(ns[cs[0]].get('t')):
                            lens.append(int(ns[cs[0]]['ev']))
                if len(set(lens)) == 1:
                    self._rows[g['id']] = lens[0]
            # a row that is resized or assigned loses its length
            for f in self.P.funcs.values():
                for n in f.walk():
                    if n.k in CALLS and (n.get('fs') in SIZERS | {'append', 'push_back', 'insert', 'emplace_back'} or n.get('op') in ('=', '+=')):
                        r = recv(n) or (args(n)[0] if n.k == 'CXXOperatorCallExpr' and args(n) else None)
                        r = strip(r)
                        if r is not None and strtype(r.t) or (r is not None and r.k == 'DeclRefExpr' and r.get('id') in self._rows):
                            for gid in self.row_ids(r):
                                if n.get('fs') in ('append', 'push_back', 'insert', 'emplace_back') and r.k != 'DeclRefExpr':
                                    continue
                                self._rows.pop(gid, None)
        return self._rows

    def row_ids(self, n):
        n = strip(n)
        if n is None:
            return []
        if n.k == 'DeclRefExpr':
            return [n.get('id')]
        if n.k == 'CXXOperatorCallExpr' and n.get('op') == '[]':
            return self.row_ids(args(n)[0])
        if n.k == 'CXXMemberCallExpr' and n.get('fs') in ('at', 'front', 'back'):
            return self.row_ids(recv(n))
        return []

    def global_row(self, n):
        n = strip(n)
        if n is None:
            return None
        base = None
        if n.k == 'CXXOperatorCallExpr' and n.get('op') == '[]' and strtype(n.t):
            base = strip(args(n)[0])
        elif n.k == 'CXXMemberCallExpr' and n.get('fs') in ('at', 'front', 'back') and strtype(n.t):
            base = strip(recv(n))
        if base is not None and base.k == 'DeclRefExpr' and base.get('id') in self.rows():
            return self.rows()[base.get('id')]
        return None

    def return_forms(self, t, F):
        """forms bounding the value of a call to a repository function by constants that hold at every return"""
        call = t[2]
        tg = self.P.funcs.get(call.get('fid'))
        if tg is None or tg.body is None:
            return []
        G = self.fb(tg)
        rets = [n for n in tg.walk() if n.k == 'ReturnStmt' and n.c and n.c[0] is not None]
        if not rets:
            return []
        cands = set()
        ls = []
        for r in rets:
            p = G.at(r)
            l = G.lin(r.c[0], p)
            if l is None:
                return []
            ls.append((l, p))
            if set(l) <= {CONST}:
                cands.add(l.get(CONST, 0))
            for f in G.forms_at(p):
                for u, c in f.items():
                    if u is not None and c < 0 and u in l:
                        x = add(l, f, Fraction(l[u]) / Fraction(-c) if c else 0)
                        if set(x) <= {CONST}:
                            cands.add(x.get(CONST, 0))
        res = []
        for c in sorted(cands):
            if all(G.prove(add(cst(c), l, -1), p) for l, p in ls):
                res.append(add(cst(c), {t: 1}, -1))
                break
        return res
