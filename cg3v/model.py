"""Reachability under an assumed partial state ("every cohort has CT_REMOVED", "the rule is a SELECT, the cohort has one reading"):
conditions are evaluated on the assumed values of members, container sizes, rule type and rule flags; helper functions are
evaluated on the way, everything not assumed stays open."""
from .ir import CALLS, args, recv, strip, is_call, boolval
from .extract import Broken
from .paths import Analysis, Spec, cmp_parts
from .engine import is_rule_type

NZ = 'nonzero'


def short(c):
    return (c or '').split('<')[0].split('::')[-1]


class Bits:
    """an integer of which only the bits in `known` are known"""

    def __init__(self, known, val):
        self.known, self.val = known, val & known


class Model:
    def __init__(self, fields=None, sizes=None, outer=None, ktype=None, name='', has=None):
        self.fields, self.sizes, self.outer, self.ktype, self.name = dict(fields or {}), dict(sizes or {}), dict(outer or {}), ktype, name
        self.has = dict(has or {})   # (class, container member) -> whether it contains what is looked up


def truth_of(v):
    if v is None:
        return None
    if v == NZ:
        return True
    if isinstance(v, Bits):
        return True if v.val else None
    if isinstance(v, tuple):
        return True
    return bool(v)


class ModelSpec(Spec):
    """sites: function (node, fn) -> iterable of atoms that count as reached when the element is executed"""

    def __init__(self, P, model, sites=None, skipf=None):
        self.P, self.m, self.sites, self.skipf = P, model, sites, skipf
        self.kw = P.enum('K_SELECT', 'K_REMOVE', 'K_SUBSTITUTE')
        self.memo = {}
        self.depth = 0

    def node(self, n, fn):
        return [('+', a) for a in self.sites(n, fn)] if self.sites else ()

    def param_type(self, t):
        return False

    def skip(self, t):
        return bool(self.skipf and self.skipf(t))

    # ---- values
    def fold_env(self, n, env, fn, A):
        return truth_of(self.value(n, env, fn, A))

    def tracks(self, d):
        """locals whose constant value is followed"""
        t = (d.t or '').replace('const ', '').strip()
        return t.endswith('KEYWORDS')

    def value(self, n, env, fn, A, depth=0):
        tobool = False
        m, n = n, strip(n)
        if n is None or depth > 12:
            return None
        while m is not None and m is not n and m.c:
            tobool = tobool or (m.t or '') == 'bool'
            m = m.c[-1] if m.k == 'CXXFunctionalCastExpr' else m.c[0]
        v = self.value0(n, env, fn, A, depth)
        if v is not None and v not in (0, 1) and (tobool or (n.t or '').replace('const ', '').strip(' &') == 'bool'):
            t = truth_of(v)     # whatever becomes a bool is 0 or 1
            v = None if t is None else int(t)
        return v

    def value0(self, n, env, fn, A, depth):
        if n.k == 'MemberExpr' and n.get('dk') == 'Field':
            key = (short(n.get('mc')), n.get('m'))
            if key == ('Rule', 'type') and self.m.ktype is not None:
                return self.kw[self.m.ktype]
            if key in self.m.fields:
                return self.m.fields[key]
        if n.k == 'CXXBoolLiteralExpr':
            return int(boolval(n))
        if n.ev is not None:
            try:
                return int(n.ev)
            except ValueError:
                return None
        if n.k == 'CXXNullPtrLiteralExpr':
            return 0
        if n.k == 'DeclRefExpr':
            vid = n.get('id')
            if ('k', vid) in env:
                return env[('k', vid)]
            if ('v', vid) in env and env[('v', vid)] in (True, False):
                return int(env[('v', vid)])
            if n.get('d') in self.kw and n.get('dk') == 'EnumConstant':
                return self.kw[n.get('d')]
            i = A.info(fn)
            d = i.decl.get(vid)
            if d is not None and not i.assigned[vid] and d.c and d.c[0] is not None and not (d.t or '').endswith('*') and not self.tracks(d):
                return self.value(d.c[0], env, fn, A, depth + 1)
            return None
        if n.k == 'UnaryOperator':
            op = n.get('op')
            if op == '&':
                t = (n.c[0].t or '').replace('const ', '').replace('CG3::', '').strip(' &')
                return ('ptr', t) if t == 'SingleWindow' else None
            v = self.value(n.c[0], env, fn, A, depth + 1)
            if op == '!':
                t = truth_of(v)
                return None if t is None else int(not t)
            if isinstance(v, int):
                return {'-': -v, '~': ~v, '+': v}.get(op)
            return None
        if n.k == 'ConditionalOperator':
            t = truth_of(self.value(n.c[0], env, fn, A, depth + 1))
            if t is None:
                return None
            return self.value(n.c[1] if t else n.c[2], env, fn, A, depth + 1)
        op, a, b = cmp_parts(n)
        if n.k == 'BinaryOperator':
            op, a, b = n.get('op'), n.c[0], n.c[1]
        if op in ('&&', '||'):
            x, y = truth_of(self.value(a, env, fn, A, depth + 1)), truth_of(self.value(b, env, fn, A, depth + 1))
            if op == '&&':
                return 0 if (x is False or y is False) else (1 if x and y else None)
            return 1 if (x or y) else (0 if x is False and y is False else None)
        if op is not None and a is not None:
            x, y = self.value(a, env, fn, A, depth + 1), self.value(b, env, fn, A, depth + 1)
            return self.arith(op, x, y)
        if n.k in CALLS:
            fs = n.get('fs')
            rc = recv(n)
            if rc is not None and fs in ('size', 'empty', 'length'):
                s = self.size(rc, fn, A)
                if s is not None:
                    return int(s == 0) if fs == 'empty' else s
            if rc is not None and fs in ('contains', 'count', 'test'):
                r = A.root(rc, fn)
                if r.kind == 'field' and (short(r.cls), r.field) in self.m.has:
                    return int(self.m.has[(short(r.cls), r.field)])
            if rc is not None and fs == 'operator bool':
                return None
            if n.k == 'CXXFunctionalCastExpr' or (fs in ('UI8', 'UI16', 'UI32', 'UI64', 'SI8', 'SI32', 'SI64') and args(n)):
                return self.value(args(n)[0], env, fn, A, depth + 1)
            return self.call_value(n, env, fn, A)
        if n.k in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr') and n.c:
            return self.value(n.c[0], env, fn, A, depth + 1)
        return None

    def size(self, rc, fn, A):
        r = A.root(rc, fn)
        if r.kind == 'field':
            return self.m.sizes.get((short(r.cls), r.field))
        if r.kind in ('outer', 'local'):
            return self.m.outer.get(r.id)
        return None

    def arith(self, op, x, y):
        if x is None and y is None:
            return None
        if op == '&':
            for p, q in ((x, y), (y, x)):
                if isinstance(p, int) and p == 0:
                    return 0
                if isinstance(p, Bits) and isinstance(q, int):
                    q &= (1 << 64) - 1
                    if q & ~p.known == 0:
                        return p.val & q
                    return NZ if p.val & q else None
        if op == '|':
            if any(truth_of(v) for v in (x, y) if v is not None) and (x is None or y is None or NZ in (x, y) or isinstance(x, Bits) or isinstance(y, Bits)):
                return NZ
        if op in ('==', '!='):
            if isinstance(x, tuple) or isinstance(y, tuple):
                if isinstance(x, tuple) and isinstance(y, tuple):
                    return int((x == y) == (op == '=='))
                if x == 0 or y == 0:
                    return int(op == '!=')
                return None
            for p, q in ((x, y), (y, x)):
                if p == NZ and q == 0:
                    return int(op == '!=')
                if isinstance(p, Bits) and isinstance(q, int) and p.val & ~q:
                    return int(op == '!=')
        if not isinstance(x, int) or not isinstance(y, int):
            return None
        try:
            return {'==': lambda: int(x == y), '!=': lambda: int(x != y), '<': lambda: int(x < y), '>': lambda: int(x > y), '<=': lambda: int(x <= y), '>=': lambda: int(x >= y),
                    '+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
        except (KeyError, ValueError):
            return None

    def call_value(self, n, env, fn, A):
        if self.depth > 3:
            return None
        ts = [t for t in self.P.targets(n) if t.body is not None and t.cfg is not None]
        if len(ts) != 1 or len(ts) != len(self.P.targets(n)):
            return None
        t = ts[0]
        rt = (n.t or '').replace('const ', '').strip()
        if rt not in ('bool', 'unsigned int', 'int', 'unsigned long', 'uint32_t', 'size_t') and not rt.endswith('KEYWORDS'):
            return None
        if len(t.nodes) > 600:
            return None
        a = args(n)
        if n.k == 'CXXOperatorCallExpr' and n.get('cls'):
            a = a[1:]
        binds = {}
        for i, p in enumerate(t.params):
            if i < len(a):
                v = self.value(a[i], env, fn, A)
                if v is not None:
                    binds[('k', p['id'])] = v
        if t.is_lambda:
            for k, v in env.items():
                if k[0] in ('k', 'v'):
                    binds[k] = v
        mk = (t.id, tuple(sorted((k, str(v)) for k, v in binds.items())))
        if mk in self.memo:
            return self.memo[mk]
        self.memo[mk] = None
        self.depth += 1
        try:
            sub = ModelSpec(self.P, self.m, None, lambda g: True)
            sub.memo, sub.depth = self.memo, self.depth
            B = Analysis(self.P, sub)
            if rt == 'bool':
                ins = B.run(t, init=frozenset(binds.items()))
                rs = {dict(s).get(('r',)) for s in B.exit_states(t, ins)}
                v = int(next(iter(rs))) if len(rs) == 1 and None not in rs else None
            else:
                rets = [x for x in t.walk() if x.k == 'ReturnStmt' and x.c and x.c[0] is not None]
                v = sub.value(rets[0].c[0], binds, t, B) if len(rets) == 1 else None
        finally:
            self.depth -= 1
        self.memo[mk] = v
        return v

    def switch(self, term, fn):
        for c in term.c:
            if c is not None and is_rule_type(c) and self.m.ktype is not None:
                return self.kw[self.m.ktype]
        return None


def reached(P, model, start, sites, skipf=None, reach=None, spec=ModelSpec):
    """set of atoms that can be executed under the model, anywhere in function `start` (from its entry): conditional constant
    propagation, one joined environment per block"""
    A = Analysis(P, spec(P, model, sites, skipf))
    if reach is not None:
        A.reach = reach
    cfg = start.cfg
    ins = {cfg.entry: {}}
    work = [cfg.entry]
    got = set()

    def take(st):
        e = dict(st)
        for k in [k for k in e if k[0] == 'a']:
            if e[k] == '+':
                got.add(k[1])
            del e[k]
        return e

    def join(a, b):
        return {k: v for k, v in a.items() if k in b and b[k] == v}
    n = 0
    while work:
        b = work.pop()
        n += 1
        if n > 20000:
            raise Broken('reachability in %s does not settle' % start.q)
        B = cfg.b[b]
        env = ins[b]
        st = frozenset(env.items())
        dead = False
        for e in B.els:
            outs = A.step(st, e, start)
            if not outs:
                dead = True
                break
            es = [take(o) for o in outs]
            cur = es[0]
            for x in es[1:]:
                cur = join(cur, x)
            st = frozenset(cur.items())
        if dead or B.nr:
            continue
        for t, s2 in A.branch(st, B, start):
            e2 = take(s2)
            if t not in ins:
                ins[t] = e2
                work.append(t)
            else:
                j = join(ins[t], e2)
                if j != ins[t]:
                    ins[t] = j
                    work.append(t)
    return got, A
