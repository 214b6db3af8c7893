"""C11: raw writes into fixed-size arrays and self-sized buffers stay inside them."""
import re
from ..ir import CALLS, args, recv, strip, canon
from ..bounds import Bounds, add, scale, cst, CONST, elem_size, strtype, is_int
from ..extract import Broken

# function -> (destination argument, amount argument, bytes per unit of the amount)
BULK = {
    'u_strFromUTF8': (0, 1, 2), 'u_strFromUTF8Lenient': (0, 1, 2), 'u_strFromUTF8WithSub': (0, 1, 2), 'u_strToUTF8': (0, 1, 1), 'u_strToUTF8WithSub': (0, 1, 1),
    'u_strFromUTF32': (0, 1, 2), 'u_strToUTF32': (0, 1, 4), 'u_strFromWCS': (0, 1, 2), 'u_strToWCS': (0, 1, 4),
    'u_strToLower': (0, 1, 2), 'u_strToUpper': (0, 1, 2), 'u_strFoldCase': (0, 1, 2), 'u_strToTitle': (0, 1, 2),
    'ucnv_toUChars': (1, 2, 2), 'ucnv_fromUChars': (1, 2, 1), 'uregex_group': (2, 3, 2), 'u_unescape': (1, 2, 2),
    'u_strncpy': (0, 2, 2), 'u_memcpy': (0, 2, 2), 'u_memmove': (0, 2, 2), 'u_memset': (0, 2, 2), 'u_uastrncpy': (0, 2, 2), 'u_austrncpy': (0, 2, 1),
    'memcpy': (0, 2, 1), 'memmove': (0, 2, 1), 'memset': (0, 2, 1), 'strncpy': (0, 2, 1), 'wcsncpy': (0, 2, 4),
    'snprintf': (0, 1, 1), 'vsnprintf': (0, 1, 1), 'u_snprintf': (0, 1, 2), 'u_snprintf_u': (0, 1, 2), 'u_vsnprintf': (0, 1, 2), 'u_vsnprintf_u': (0, 1, 2),
    'fgets': (0, 1, 1), 'getcwd': (0, 1, 1), 'GetFullPathNameA': (2, 1, 1),
}
UNBOUNDED = {'strcpy': (0, 1, 1, 0), 'strcat': (0, 1, 1, 1), 'u_strcpy': (0, 1, 2, 0), 'u_strcat': (0, 1, 2, 1), 'u_uastrcpy': (0, 1, 2, 0), 'u_austrcpy': (0, 1, 1, 0), 'wcscpy': (0, 1, 4, 0), 'gets': (0, None, 1, 0), 'stpcpy': (0, 1, 1, 0)}
SPRINTF = {'sprintf': (0, 1, 1), 'u_sprintf': (0, 1, 2), 'u_sprintf_u': (0, 1, 2)}
SCANF = {'sscanf': (0, 1, 1), 'u_sscanf': (0, 1, 2), 'u_sscanf_u': (0, 1, 2), 'fscanf': (0, 1, 1), 'u_fscanf': (0, 1, 2)}
COPY = {'copy', 'move', 'copy_n', 'fill_n', 'fill', 'copy_backward', 'copy_if', 'transform', 'reverse_copy', 'generate_n', 'iota'}


class Dest:
    def __init__(self, kind, what, off, esz, cap=None, param=None):
        self.kind, self.what, self.off, self.esz, self.cap, self.param = kind, what, off, esz, cap, param
        self.key = None
        self.born = None        # where the pointer to it was taken


def base_name(n):
    return re.sub(r'_\d+$', '', n.get('fs') or '')


def elem_of(t):
    """bytes per element of a string/vector/array type"""
    t = (t or '').replace('const ', '').replace('CG3::', '').strip(' &*')
    m = re.match(r'^(?:std::)?(?:__cxx11::)?(?:basic_string|vector|array)<([^,<>]+)', t)
    if m:
        return elem_size(m.group(1).strip()), m.group(1).strip()
    m = re.match(r'^(.*)\[(\d+)\]$', t)
    if m:
        return elem_size(m.group(1)), m.group(1)
    return None, None


class C11:
    def __init__(self, P, ctx):
        self.P, self.ctx = P, ctx
        self.B = Bounds(P)
        self.summ = {}          # fn id -> list of (param, bytes form over the function's parameters, where, why)
        self.unresolved = []
        self.seen_sum = set()

    # ---- destinations
    def dest(self, n, pos, F, depth=0):
        """places a pointer expression may point at: list of Dest, None if unknown"""
        n = strip(n)
        if n is None or depth > 10:
            return None
        if n.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or n.ev == 0 and n.k in ('IntegerLiteral',):
            return []
        if n.k == 'UnaryOperator' and n.get('op') == '&':
            x = strip(n.c[0])
            return self.lvalue(x, pos, F, depth + 1)
        if n.k in ('BinaryOperator',) and n.get('op') in ('+', '-') and ('*' in n.t):
            a, b = n.c[0], n.c[1]
            if '*' not in strip(a).t and '[' not in strip(a).t:
                a, b = b, a
            ds = self.dest(a, pos, F, depth + 1)
            k = F.lin(b, pos)
            return self.shift(ds, k, 1 if n.get('op') == '+' else -1)
        if n.k == 'CXXOperatorCallExpr' and n.get('op') in ('+', '-') and len(args(n)) == 2:
            ds = self.dest(args(n)[0], pos, F, depth + 1)
            return self.shift(ds, F.lin(args(n)[1], pos), 1 if n.get('op') == '+' else -1)
        if n.k == 'ConditionalOperator':
            a, b = self.dest(n.c[1], pos, F, depth + 1), self.dest(n.c[2], pos, F, depth + 1)
            return None if a is None or b is None else a + b
        if n.k == 'UnaryOperator' and n.get('op') in ('++', '--'):
            ds = self.dest(n.c[0], pos, F, depth + 1)
            return ds
        if n.k in CALLS:
            r = recv(n)
            if r is not None and n.get('fs') in ('data', 'c_str', 'begin') and (strtype(r.t.replace(' *', '')) or 'array<' in r.t):
                return self.object(r, {}, pos, F)
            if r is not None and n.get('fs') == 'end' and strtype(r.t):
                return self.object(r, F.size_of(r, pos), pos, F)
            if n.k in ('CXXConstructExpr',) and len(n.c) == 1:
                return self.dest(n.c[0], pos, F, depth + 1)
            return None
        if re.match(r'.*\[\d+\]$', n.t) and n.k in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr', 'CXXOperatorCallExpr'):
            return self.lvalue(n, pos, F, depth + 1)
        if n.k == 'DeclRefExpr' and ('*' in n.t or 'iterator' in n.t):
            vid = n.get('id')
            if vid in F.lambda_written:
                return None
            if vid not in F.decl and vid not in F.params:
                return None
            res = []
            for d in F.reaching(('v', vid), pos):
                if d is None:
                    if vid not in F.params:
                        return None
                    i, p = F.params[vid]
                    if '&' in p['t']:
                        return None
                    res.append(Dest('param', p['d'], {}, elem_size(p['t'].replace(' *', '').replace('*', '').replace('__restrict', '')) or 1, None, i))
                    continue
                if d.k == 'VarDecl' and d.c and d.c[0] is not None:
                    e = d.c[0]
                elif d.k in ('BinaryOperator',) and d.get('op') == '=':
                    e = d.c[1]
                else:
                    return None
                ds = self.dest(e, F.at(d), F, depth + 1)
                if ds is None:
                    return None
                for x in ds:
                    if x.kind == 'object' and x.born is None:
                        x.born = (F.at(d), ('v', vid), ('o', x.key))
                res += ds
            return res
        return None

    def shift(self, ds, k, s=1):
        if ds is None or k is None:
            return None
        res = []
        for d in ds:
            x = Dest(d.kind, d.what, add(d.off, k, s), d.esz, d.cap, d.param)
            x.born = d.born
            res.append(x)
        return res

    def object(self, r, off, pos, F):
        es, _ = elem_of(r.t)
        cap = F.size_of(r, pos)
        m = re.match(r'.*array<.*, (\d+)>$', (r.t or '').replace('UL>', '>'))
        if m:
            cap = cst(int(m.group(1)))
        if es is None or cap is None or off is None:
            return None
        x = Dest('object', self.nice(F.okey(r)), off, es, cap)
        x.key = F.okey(r)
        return [x]

    def lvalue(self, x, pos, F, depth):
        if x is None:
            return None
        m = re.match(r'^(.*)\[(\d+)\]$', x.t)
        if m and x.k in ('DeclRefExpr', 'MemberExpr'):
            es = 8 if m.group(1).strip().endswith('*') else elem_size(m.group(1))
            return [Dest('array', x.get('d') or x.get('m'), {}, es, cst(int(m.group(2))))] if es else None
        if x.k == 'ArraySubscriptExpr':
            ds = self.dest(x.c[0], pos, F, depth)
            return self.shift(ds, F.lin(x.c[1], pos))
        if x.k == 'CXXOperatorCallExpr' and x.get('op') == '[]':
            A = args(x)
            o = strip(A[0])
            if strtype(o.t) or 'array<' in o.t:
                return self.object(o, F.lin(A[1], pos), pos, F)
            return None
        if x.k == 'CXXMemberCallExpr' and x.get('fs') in ('at', 'front') and recv(x) is not None and strtype(recv(x).t):
            return self.object(recv(x), F.lin(args(x)[0], pos) if args(x) else {}, pos, F)
        if x.k == 'UnaryOperator' and x.get('op') == '*':
            return self.dest(x.c[0], pos, F, depth)
        if x.k in ('DeclRefExpr', 'MemberExpr'):
            es = elem_size(x.t.strip(' &'))
            if es:
                return [Dest('scalar', x.get('d') or x.get('m'), {}, es, cst(1))]
            return [Dest('scalar', x.get('d') or x.get('m'), {}, None, cst(1))]
        return None

    # ---- amounts
    def amount_form(self, n, fn, F):
        """[(rule, dest node, amount bytes form or None, description)] written by call n"""
        fs = base_name(n)
        A = args(n)
        pos = F.at(n)
        repo = n.get('fid') in self.P.funcs
        if repo:
            return []
        if n.k == 'CXXMemberCallExpr' and fs in ('read', 'readsome') and len(A) == 2 and recv(n) is not None and re.search(r'stream', recv(n).t):
            return [('copy', A[0], F.lin(A[1], pos), 'read()')]
        if n.k == 'CXXMemberCallExpr' and fs in ('get', 'getline') and len(A) >= 2 and re.search(r'stream', recv(n).t if recv(n) is not None else '') and '*' in strip(A[0]).t:
            return [('copy', A[0], F.lin(A[1], pos), fs + '()')]
        if n.k == 'CXXMemberCallExpr' and fs == 'copy' and recv(n) is not None and strtype(recv(n).t) and len(A) >= 2:
            return [('copy', A[0], F.lin(A[1], pos), 'copy()')]
        if n.k == 'CXXMemberCallExpr':
            return []
        if fs == 'fread' and len(A) == 4:
            a, b = F.lin(A[1], pos), F.lin(A[2], pos)
            if a is not None and b is not None and set(a) <= {CONST}:
                return [('copy', A[0], scale(b, a.get(CONST, 0)), 'fread()')]
            return [('copy', A[0], None, 'fread()')]
        if fs == 'read' and len(A) == 3 and n.k == 'CallExpr':
            return [('copy', A[1], F.lin(A[2], pos), 'read()')]
        if fs in BULK and len(A) > max(BULK[fs][0], BULK[fs][1]):
            d, a, u = BULK[fs]
            l = F.lin(A[a], pos)
            return [('copy', A[d], None if l is None else scale(l, u), fs + '()')]
        if fs in UNBOUNDED and A:
            d, s, u, cat = UNBOUNDED[fs]
            l = None
            if s is not None and not cat and len(A) > s:
                l = self.str_len(A[s], pos, F)
                if l is not None:
                    l = scale(add(l, cst(1)), u)
            return [('copy', A[d], l, fs + '()')]
        if fs in SPRINTF and len(A) > 1:
            d, f, u = SPRINTF[fs]
            l = self.printed(A[f], A[f + 1:], pos, F)
            return [('format', A[d], None if l is None else scale(add(l, cst(1)), u), fs + '()')]
        if fs in SCANF and len(A) > 1:
            return self.scanned(n, A, pos, F, SCANF[fs])
        if fs in COPY and (n.get('fn') or '').startswith('std::') and len(A) >= 3:
            if fs == 'copy_backward':
                return [('copy', A[2], {}, 'std::copy_backward()')]
            if fs in ('copy_n',):
                l, dst = F.lin(A[1], pos), A[2]
            elif fs in ('fill_n', 'generate_n'):
                l, dst = F.lin(A[1], pos), A[0]
            elif fs in ('fill', 'iota'):
                a, b = F.lin(A[0], pos), F.lin(A[1], pos)
                l, dst = (None if a is None or b is None else add(b, a, -1)), A[0]
            else:
                a, b = F.lin(A[0], pos), F.lin(A[1], pos)
                l, dst = (None if a is None or b is None else add(b, a, -1)), A[2]
            return [('copy', dst, ('elems', l), 'std::%s()' % fs)]
        return []

    def str_len(self, n, pos, F):
        """length of a zero-terminated string"""
        n = strip(n)
        if n is None:
            return None
        if n.k == 'StringLiteral':
            return cst(len(n.get('v') or ''))
        if n.k == 'CXXMemberCallExpr' and n.get('fs') in ('c_str', 'data') and recv(n) is not None:
            r = recv(n)
            if strtype(r.t):
                return F.size_of(r, pos)
            return {('size', canon(r), frozenset(), F.fn.id): 1}
        m = re.match(r'.*\[(\d+)\]$', n.t)
        if m:
            return cst(int(m.group(1)) - 1)
        return {('len', canon(n)): 1}

    def fmt(self, f):
        f = strip(f)
        if f is None:
            return None
        if f.k == 'StringLiteral':
            return f.get('v')
        if f.k == 'DeclRefExpr':
            d = None
            for n in f.fn.walk():
                if n.k == 'VarDecl' and n.get('id') == f.get('id'):
                    d = n
            if d is not None and d.c and d.c[0] is not None:
                s = ''
                init = strip(d.c[0])
                if init.k == 'StringLiteral':
                    return init.get('v')
                if init.k == 'InitListExpr':
                    for c in init.c:
                        v = c.ev if c is not None else None
                        if v is None:
                            v = strip(c).get('v') if c is not None and strip(c) is not None else None
                        if v is None:
                            return None
                        if int(v) == 0:
                            break
                        s += chr(int(v))
                    return s
        return None

    CONV = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])')

    def printed(self, f, rest, pos, F):
        s = self.fmt(f)
        if s is None:
            return None
        total = {}
        last = 0
        i = 0
        for m in self.CONV.finditer(s):
            total = add(total, cst(m.start() - last))
            last = m.end()
            c = m.group(5)
            if c == '%':
                total = add(total, cst(1))
                continue
            if m.group(2) == '*' or m.group(3) == '*' or i >= len(rest):
                return None
            w = int(m.group(2) or 0)
            a = rest[i]
            i += 1
            L = m.group(4) or ''
            if c in 'diux':
                base = {'hh': 4, 'h': 6, '': 11, 'l': 20, 'll': 20, 'z': 20, 'j': 20, 't': 20}.get(L)
                if c != 'd' and c != 'i' and L == '':
                    base = 10
                base = max(base, w, int(m.group(3) or 0) + 1)
                total = add(total, cst(base))
            elif c == 'c' or c == 'C':
                total = add(total, cst(max(2 if c == 'C' else 1, w)))
            elif c in 'fF':
                total = add(total, cst(max(312 + int(m.group(3) or 6), w)))
            elif c in 'eEgG':
                total = add(total, cst(max(10 + int(m.group(3) or 17), w)))
            elif c in 'sS':
                if m.group(3):
                    total = add(total, cst(max(int(m.group(3)), w)))
                else:
                    l = self.str_len(a, pos, F)
                    if l is None:
                        return None
                    total = add(total, add(l, cst(w)))
            elif c == 'p':
                total = add(total, cst(20))
            else:
                return None
        total = add(total, cst(len(s) - last))
        return total

    SCAN = re.compile(r'%(\*)?(\d+)?(hh|h|ll|l|z|j|t|L)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])')

    def scanned(self, n, A, pos, F, spec):
        src, f, u = spec
        s = self.fmt(A[f])
        if s is None:
            return [('scan', None, None, 'format of %s() unknown' % base_name(n))]
        res = []
        i = f + 1
        for m in self.SCAN.finditer(s):
            if m.group(1) or m.group(4) == '%':
                continue
            if i >= len(A):
                break
            a = A[i]
            i += 1
            c = m.group(4)
            if c[0] == '[' or c in 'sSc':
                es = u
                if c == 'S':
                    es = 2
                elif c == 's':
                    es = 1
                elif c[0] == '[':
                    es = u
                if m.group(2):
                    amt = cst((int(m.group(2)) + (0 if c == 'c' else 1)) * es)
                else:
                    # at most as long as what is scanned
                    l = self.str_len(A[src], pos, F) if u else None
                    amt = None if l is None else scale(add(l, cst(1)), es)
                res.append(('scan', a, amt, '%s() of %s' % (base_name(n), m.group(0))))
            elif c in 'diuxXonp':
                sz = {'hh': 1, 'h': 2, '': 4, 'l': 8, 'll': 8, 'z': 8, 'j': 8, 't': 8}[m.group(3) or '']
                res.append(('scan', a, cst(sz), '%s() of %s' % (base_name(n), m.group(0))))
            elif c in 'fFeEgGa':
                res.append(('scan', a, cst(8 if m.group(3) == 'l' else 4), '%s() of %s' % (base_name(n), m.group(0))))
        return res

    # ---- obligations
    def oblige(self, rule, n, dn, amt, what, fn, F, pos=None, strict=True, via=None):
        pos = pos or F.at(n)
        if pos is None:
            return
        ds = self.dest(dn, pos, F) if dn is not None else None
        if ds is None:
            if dn is not None:
                self.unresolved.append('%s %s' % (n.where(), what))
            elif amt is None:
                self.ctx.bad(rule, '%s:%s:format' % (fn.q, what), n.where(), what)
            return
        for d in ds:
            a = amt
            if isinstance(a, tuple) and a[0] == 'elems':
                a = None if a[1] is None else scale(a[1], d.esz or 1)
            if d.esz is None:
                # an object of class type: only `sizeof` of itself is known to fit
                if rule == 'copy' and a is not None and set(a) <= {CONST}:
                    self.ctx.ok(rule, n.where(), '%s writes %s bytes into %s (object of its own size)' % (what, a.get(CONST, 0), d.what))
                continue
            if d.kind == 'param':
                if rule == 'store' and not any(p['id'] for p in fn.params if is_int(p['t'])):
                    continue
                end = None if a is None else add(a, scale(d.off, d.esz))
                self.summary(fn, F, d, end, n, pos, what, rule)
                continue
            if rule == 'store' and d.kind == 'object' and not self.fixed_row(d):
                continue
            capb = scale(d.cap, d.esz)
            if a is None:
                self.ctx.bad(rule, '%s:%s:%s' % (fn.q, what, d.what), n.where(), '%s writes an unlimited amount into %s, which holds %s' % (what, d.what, self.show(d.cap)))
                continue
            diff = add(add(capb, scale(d.off, d.esz), -1), a, -1)
            okk = F.prove(diff, pos)
            if not okk and d.born and set(a) <= {CONST} and set(d.off) <= {CONST}:
                okk = F.prove(diff, d.born[0]) and not F.stale(d.born[1], d.born[2], d.born[0], pos)
            self.ctx.check(okk, rule, '%s:%s:%s' % (fn.q, what.split(' ')[0], d.what), n.where(), '%s into %s stays within its %s unit(s)' % (what, d.what, self.show(d.cap)),
                           '%s may write %s byte(s) at offset %s of %s, which holds %s unit(s) of %d byte(s)' % (what, self.show(a), self.show(d.off), d.what, self.show(d.cap), d.esz))

    def fixed_row(self, d):
        return set(d.cap) <= {CONST} and d.what.count('gbuffers') + d.what.count('cbuffers') > 0 or (set(d.cap) <= {CONST} and any(g in d.what for g in self.rownames()))

    def rownames(self):
        return [self.P.globals[g]['q'] for g in self.B.rows() if g in self.P.globals]

    def nice(self, s):
        return re.sub(r'call\[\]\(d:c:@[^,]*,d:(\w+),#(\w+)\)', r'\1[\2]', s) if isinstance(s, str) else s

    def show(self, l):
        if l is None:
            return 'an unknown number of'
        if not l:
            return '0'
        ps = []
        for t, c in l.items():
            if t is None:
                ps.append(str(c))
            else:
                nm = t[1] if isinstance(t[1], (str, int)) else '?'
                ps.append('%s%s(%s)' % ('' if c == 1 else '%s*' % c, t[0], str(nm).split(':')[-1]))
        return ' + '.join(ps)

    def summary(self, fn, F, d, end, n, pos, what, rule):
        key = (fn.id, d.param, n.i, repr(F.frz(end)) if end is not None else None)
        if key in self.seen_sum:
            return
        self.seen_sum.add(key)
        forms = None if end is None else self.param_forms(end, pos, F)
        self.summ.setdefault(fn.id, []).append((d.param, forms, n, what, rule, d.esz))

    def param_forms(self, l, pos, F):
        """upper bounds of l made of parameters and constants only"""
        ok = lambda t: t is None or t[0] in ('p', 'psize') and t[-1] == F.fn.id
        res = []
        work = [(l, 0)]
        base = F.forms_at(pos)
        seen = set()
        while work and len(seen) < 200:
            x, d = work.pop(0)
            k = F.frz(x)
            if k in seen or d > 4:
                continue
            seen.add(k)
            if all(ok(t) for t in x):
                res.append(x)
                continue
            for t, c in x.items():
                if ok(t):
                    continue
                if t[0] in ('min',) and c > 0:
                    for alt in t[3:5]:
                        if alt is not None:
                            y = {a: b for a, b in x.items() if a != t}
                            work.append((add(y, dict(alt), c), d + 1))
                    continue
                if c < 0 and F.nonneg(t):
                    work.append(({a: b for a, b in x.items() if a != t}, d + 1))
                for f in base + F.bounds_of(t, c > 0, 0):
                    fc = f.get(t, 0)
                    if c > 0 and fc < 0 or c < 0 and fc > 0:
                        # f >= 0, so adding k*f with k > 0 can only raise x
                        work.append((add(x, f, -c / fc if isinstance(c / fc, float) and not (c / fc).is_integer() else -(c // fc)), d + 1))
        return res

    def subst(self, form, fn, call_args, pos, F, off=0):
        r = {}
        for t, c in form.items():
            if t is None:
                r = add(r, cst(c))
                continue
            i = t[1]
            if i >= len(call_args) or call_args[i] is None:
                return None
            a = call_args[i]
            l = F.lin(a, pos) if t[0] == 'p' else F.size_of(a, pos)
            if l is None:
                return None
            r = add(r, scale(l, c))
        return r

    def run(self):
        ctx, P = self.ctx, self.P
        callers = {}
        funcs = [f for f in P.funcs.values() if f.body is not None and f.cfg is not None]
        for fn in funcs:
            F = None
            for n in fn.walk():
                if n.k in CALLS:
                    for tg in P.targets(n):
                        callers.setdefault(tg.id, []).append((fn, n))
                    if n.get('fid') in P.funcs:
                        continue
                    nm = base_name(n)
                    F = F or self.B.fb(fn)
                    for rule, dn, amt, what in self.amount_form(n, fn, F):
                        ctx.saw(fn)
                        self.oblige(rule, n, dn, amt, what, fn, F)
                l = None
                if n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('op') not in ('==', '!=', '<=', '>=') and (n.get('op') or '').endswith('='):
                    l = strip(n.c[0])
                elif n.k == 'UnaryOperator' and n.get('op') in ('++', '--'):
                    l = strip(n.c[0])
                if l is not None and (l.k == 'ArraySubscriptExpr' or l.k == 'CXXOperatorCallExpr' and l.get('op') == '[]'):
                    F = F or self.B.fb(fn)
                    es = elem_size(l.t.strip(' &')) or (8 if l.k == 'ArraySubscriptExpr' and l.t.strip(' &').endswith('*') and '[' in strip(l.c[0]).t else None)
                    if es:
                        pos = F.at(l) or F.at(n)
                        if pos is None:
                            continue
                        ds = self.lvalue(l, pos, F, 0)
                        if ds and any(d.kind in ('array', 'param') or self.fixed_row(d) for d in ds):
                            ctx.saw(fn)
                            self.store(n, l, es, fn, F, pos, ds)
        # hand the obligations on pointers that came in as parameters to the callers
        done = set()
        rounds = 0
        while rounds < 8:
            rounds += 1
            todo = [(fid, s) for fid, ss in self.summ.items() for s in ss if (fid, id(s)) not in done]
            if not todo:
                break
            for fid, s in todo:
                done.add((fid, id(s)))
                self.keepalive = getattr(self, 'keepalive', [])
                self.keepalive.append(s)
                prm, forms, n, what, rule, esz = s
                fn = P.funcs[fid]
                cs = callers.get(fid, [])
                if not cs:
                    self.api(fn, prm, forms, n, what, rule, esz)
                    continue
                for cf, c in cs:
                    F = self.B.fb(cf)
                    pos = F.at(c)
                    if pos is None:
                        continue
                    A = args(c)
                    if c.k == 'CXXOperatorCallExpr' and c.get('cls'):
                        A = A[1:]
                    if prm >= len(A):
                        continue
                    ds = self.dest(A[prm], pos, F)
                    if ds is None:
                        if rule != 'store':
                            self.unresolved.append('%s %s' % (c.where(), what))
                        continue
                    ctx.saw(cf)
                    for d in ds:
                        if d.esz is None:
                            continue
                        ends = [self.subst(x, fn, A, pos, F) for x in (forms or [])]
                        ends = [e for e in ends if e is not None]
                        if d.kind == 'param':
                            best = ends[0] if ends else None
                            self.summary(cf, F, d, None if best is None else add(best, scale(d.off, d.esz)), c, pos, what, rule)
                            continue
                        capb = scale(d.cap, d.esz)
                        okk = any(F.prove(add(add(capb, scale(d.off, d.esz), -1), e, -1), pos) for e in ends)
                        ctx.check(okk, 'passed', '%s:%s:%s' % (cf.q, fn.n, d.what), c.where(), '%s() stays within the %s unit(s) of %s' % (fn.n, self.show(d.cap), d.what),
                                  '%s() may write %s byte(s) (at %s) to offset %s of %s, which holds %s unit(s) of %d byte(s)' % (fn.n, self.show(ends[0]) if ends else 'an unlimited number of', n.where(), self.show(d.off), d.what, self.show(d.cap), d.esz))

    def store(self, n, l, es, fn, F, pos, ds):
        for d in ds:
            if d.kind == 'param':
                end = add(scale(d.off, d.esz), cst(d.esz))
                if set(end) <= {CONST} or not any(is_int(p['t']) for p in fn.params):
                    continue
                self.summary(fn, F, d, end, n, pos, 'store', 'store')
            elif d.kind == 'array' or self.fixed_row(d):
                diff = add(add(d.cap, d.off, -1), cst(1), -1)
                self.ctx.check(F.prove(diff, pos), 'store', '%s:store:%s' % (fn.q, d.what), n.where(), 'store into %s at %s is below its %s unit(s)' % (d.what, self.show(d.off), self.show(d.cap)),
                               'element %s of %s is written, which holds %s unit(s)' % (self.show(d.off), d.what, self.show(d.cap)))

    def api(self, fn, prm, forms, n, what, rule, esz):
        """nobody in the program calls it: at most as much as one of its own count parameters says"""
        F = self.B.fb(fn)
        if rule == 'store' and not forms:
            return
        ok = False
        for x in forms or []:
            for i, p in enumerate(fn.params):
                if is_int(p['t']):
                    lim = {('p', i, p['t'].startswith('unsigned'), fn.id): esz}
                    if F._prove(add(lim, x, -1), None, [], 0, set()):
                        ok = True
            if set(x) <= {CONST}:
                ok = ok or x.get(CONST, 0) <= esz
        self.ctx.check(ok, 'passed', '%s:api:%s' % (fn.q, fn.params[prm]['d']), n.where(), '%s writes no more to its caller\'s buffer than it was told' % fn.q,
                       '%s may write more to the buffer `%s` than its count parameter says' % (fn.q, fn.params[prm]['d']))


def check(ctx):
    P = ctx.P
    ctx.rule('copy', 'a bulk write (ICU conversion, stream read, mem*/str*, std::copy ...) is limited to the room behind its destination', 30)
    ctx.rule('format', 'what a printf-style function writes into memory is at most as long as the destination', 3)
    ctx.rule('scan', 'text a scanf-style function stores is limited by a field width or by its source to the size of the destination', 8)
    ctx.rule('store', 'a store into a constant-size array has an index below the size of the array', 8)
    ctx.rule('passed', 'a function that writes through a pointer parameter is only handed buffers that are large enough', 10)
    C = C11(P, ctx)
    if not C.B.rows():
        raise Broken('no shared conversion buffers found')
    C.run()
    for u in sorted(set(C.unresolved)):
        ctx.note('destination not resolved: %s' % u)
