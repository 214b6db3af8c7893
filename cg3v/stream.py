"""Layout of the packets of a stream: what a writer puts out and what a reader takes in, as nested token lists (see serial.py)."""
import copy
from . import serial as S
from .serial import Raw, Loop, Gate, Rec, Walker, STRING_T


class SWalker(Walker):
    """a byte buffer of the writer begins empty where it is declared, so what a loop puts into it is a loop in it"""

    def exec(self, n):
        if n is not None and n.k == 'VarDecl' and self.role == 'w' and STRING_T.match(n.t) and '&' not in n.t and not (n.c and n.c[0] is not None and [x for x in n.c[0].walk() if x.k in ('DeclRefExpr', 'MemberExpr', 'IntegerLiteral')]):
            self.streams[('v', n.get('id'))] = []
            self.root.setdefault(('v', n.get('id')), self.streams[('v', n.get('id'))])
        return Walker.exec(self, n)


def text(toks, ind=0):
    out = []
    for t in toks:
        if isinstance(t, Raw):
            out.append('%s%s%s <%s> -> %s' % (' ' * ind, t.n if t.n is not None else '*', (' =%s' % (t.lit if t.lit is not None else t.const)) if t.lit is not None or t.const is not None else '', ','.join(sorted(t.srcs))[:70], ','.join(sorted(t.dests))[:70]))
        elif isinstance(t, Loop):
            out.append(' ' * ind + 'loop ' + t.where())
            out += text(t.body, ind + 2)
        elif isinstance(t, Gate):
            out.append(' ' * ind + 'if %s' % (str(t.key)[:120]))
            out += text(t.then, ind + 2)
            if t.els:
                out.append(' ' * ind + 'else')
                out += text(t.els, ind + 2)
        else:
            out.append(' ' * ind + str(t)[:80])
    return out


# ---------------------------------------------------------------- helpers for checks of packets
from .ir import CALLS, args, recv, strip
from .flow import leafcond
from .model import ModelSpec, Model, reached
from .extract import Broken


class PWalker(SWalker):
    """remembers which variables of the calling function a value written by a helper came from"""

    def __init__(self, *a, **kw):
        SWalker.__init__(self, *a, **kw)
        self.gate_returns = self.role == 'w'
        self.pm = {}

    known = {}          # parameters whose value is assumed

    def resid(self, n):
        """a condition with the assumed parameters put in: True, False or what is left of it"""
        m = strip(n)
        if m is None:
            return n
        if m.k == 'DeclRefExpr' and m.get('id') in self.known:
            return self.known[m.get('id')]
        if m.k == 'UnaryOperator' and m.get('op') == '!':
            r = self.resid(m.c[0])
            return (not r) if r in (True, False) else n
        if m.k == 'BinaryOperator' and m.get('op') in ('&&', '||'):
            a, b = self.resid(m.c[0]), self.resid(m.c[1])
            z = m.get('op') == '||'
            if a is z or b is z:
                return z
            if a is (not z):
                return b
            if b is (not z):
                return a
        return n

    def exec_if(self, n, rest):
        if self.known:
            r = self.resid(n.c[1])
            if r is True or r is False:
                if n.c[0] is not None:
                    self.exec(n.c[0])
                return self.exec(n.c[2]) if r else self.exec(n.c[3]) if n.c[3] is not None else 'next'
            if r is not n.c[1]:
                n = copy.copy(n)
                n.c = list(n.c)
                n.c[1] = r
        return SWalker.exec_if(self, n, rest)

    def locs(self, n):
        out = set()
        for x in n.walk():
            if x.k == 'DeclRefExpr' and x.get('id'):
                out |= self.pm.get(x.get('id'), {x.get('id')})
            if x.k == 'CXXMemberCallExpr' and x.get('fs') == 'size' and recv(x) is not None:
                r = strip(recv(x))
                if r is not None and r.k == 'MemberExpr':
                    out.add('size:' + r.get('m'))
                elif r is not None and r.k == 'DeclRefExpr':
                    out.add('size:' + (r.get('id') or ''))
        return out

    def exec(self, n):
        if n is not None and n.k == 'VarDecl' and n.c and n.c[0] is not None:
            self.pm[n.get('id')] = self.locs(n.c[0]) | {n.get('id')}
        elif n is not None and n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]) is not None and strip(n.c[0]).k == 'DeclRefExpr':
            self.pm[strip(n.c[0]).get('id')] = self.locs(n.c[1]) | {strip(n.c[0]).get('id')}
        if n is not None and self.role == 'w' and (n.k == 'VarDecl' and n.c and n.c[0] is not None or n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]).k == 'DeclRefExpr'):
            # flags = (a ? A : 0) | (b ? B : 0) says the same as setting the bits one after the other
            key = ('v', n.get('id') if n.k == 'VarDecl' else strip(n.c[0]).get('id'))
            ps = self.bit_parts(n.c[-1])
            if ps:
                for c, m in ps:
                    self.bitdefs.setdefault((key, m), set()).add(tuple(self.gates) + ((self.cond_key(c), True),))
                self.env[key] = S.Val(const=0)
                return 'next'
        return SWalker.exec(self, n)

    def bit_parts(self, e):
        e = strip(e)
        if e is None:
            return None
        if e.k == 'BinaryOperator' and e.get('op') == '|':
            a, b = self.bit_parts(e.c[0]), self.bit_parts(e.c[1])
            return None if a is None or b is None else a + b
        if e.k in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr') and e.c:
            return self.bit_parts(e.c[0])
        if e.k == 'ConditionalOperator' and e.c[1].ev and e.c[2].ev == 0:
            return [(e.c[0], S.ubits(e.c[1]))]
        return None

    def inline(self, n, fn, A):
        add = {p['id']: self.locs(a) for p, a in zip(fn.params, A) if a is not None}
        old = dict(self.pm)
        self.pm.update(add)
        try:
            return SWalker.inline(self, n, fn, A)
        finally:
            self.pm = old

    def raw_write(self, key, nbytes, n, v, node):
        it = SWalker.raw_write(self, key, nbytes, n, v, node)
        it.locs = self.locs(node)
        return it


def enum_spec(values):
    """spec under which something compared with one of the enumerators in `values` is the one named `now`"""
    class Spec(ModelSpec):
        now = None

        def fold(self, n, fn):
            m = strip(n)
            if m is None:
                return None
            if m.k == 'BinaryOperator' and m.get('op') in ('==', '!='):
                for c in m.c:
                    c = strip(c)
                    names = [x.get('d') for x in c.walk() if x.k == 'DeclRefExpr'] if c is not None and c.k in ('DeclRefExpr',) else []
                    if len(names) == 1 and names[0] in values:
                        return (names[0] == self.now) == (m.get('op') == '==')
            return None

        def switch(self, term, fn):
            body = [c for c in term.c if c is not None][-1]
            for x in body.walk():
                if x.k == 'CaseStmt' and x.c and x.c[0] is not None and any(y.k == 'DeclRefExpr' and y.get('d') in values for y in x.c[0].walk()):
                    return values.get(self.now, -1)
            return ModelSpec.switch(self, term, fn)
    return Spec


def loop_region(f, L):
    """blocks of one iteration of loop statement L: (first blocks, blocks, is the end of an iteration)"""
    head = [b for b, B in f.cfg.b.items() if B.term is not None and B.term.i == L.i]
    if len(head) != 1:
        raise Broken('%s: loop at line %d not found in the flow graph' % (f.q, L.l))
    h = f.cfg.b[head[0]]
    return head[0], h.succ[0]


def loops_of(f):
    return [n for n in f.walk() if n.k in ('ForStmt', 'CXXForRangeStmt', 'WhileStmt', 'DoStmt')]


def loop_of(n):
    for a in n.ancestors():
        if a.k in ('ForStmt', 'CXXForRangeStmt', 'WhileStmt', 'DoStmt'):
            return a
    return None


def inside(n, root):
    while n is not None:
        if n is root:
            return True
        n = n.p
    return False


def body_of(L):
    return [c for c in L.c if c is not None][-1] if L.k != 'DoStmt' else L.c[0]


def iteration(f, L, event, limit=20000):
    """what one iteration of L does: ({end state}, {(block, edge): True}) where a state counts events; event(e) -> name or None.
    Leaving the loop by break or return ends it as well."""
    h, first = loop_region(f, L)
    ins = {first: {()}}
    work = [(first, ())]
    ends = set()
    n = 0
    while work:
        b, s = work.pop()
        n += 1
        if n > limit:
            raise Broken('%s: too many states in the loop at line %d' % (f.q, L.l))
        if b == h:
            ends.add(s)
            continue
        B = f.cfg.b[b]
        d = dict(s)
        for e in B.els:
            if isinstance(e, tuple):
                continue
            k = event(e)
            for k in (k if isinstance(k, list) else [k] if k else []):
                d[k] = min(d.get(k, 0) + 1, 2)
        s2 = tuple(sorted(d.items()))
        if B.nr:
            continue
        for t in B.succ:
            if t >= 0 and s2 not in ins.setdefault(t, set()):
                ins[t].add(s2)
                work.append((t, s2))
    return ends


def skip_edges(f, L, event):
    """edges of the body of L after which the event cannot happen any more in this iteration though it could before: [(block, successor index)]"""
    h, first = loop_region(f, L)
    region = set()
    work = [first]
    while work:
        b = work.pop()
        if b in region or b == h:
            continue
        region.add(b)
        work.extend(t for t in f.cfg.b[b].succ if t >= 0)
    has = {b for b in region if any(not isinstance(e, tuple) and event(e) for e in f.cfg.b[b].els)}
    can = set(has)
    ch = True
    while ch:
        ch = False
        for b in region - can:
            if any(t in can for t in f.cfg.b[b].succ):
                can.add(b)
                ch = True
    # reachable without the event having happened
    pre = set()
    work = [first]
    while work:
        b = work.pop()
        if b in pre or b == h or b not in region:
            continue
        pre.add(b)
        if b not in has:
            work.extend(t for t in f.cfg.b[b].succ if t >= 0)
    out = []
    for b in sorted(pre & can - has):
        B = f.cfg.b[b]
        if len(B.succ) < 2:
            continue
        for i, t in enumerate(B.succ):
            if t >= 0 and t not in can and not f.cfg.b[t].nr and any(u in can for u in B.succ):
                out.append((b, i))
    return out


def names(P, n, depth=0, seen=None):
    """members, enumerators and globals an expression looks at, through variables and small functions"""
    out = set()
    seen = set() if seen is None else seen
    for x in n.walk():
        if x.k == 'MemberExpr' and x.get('dk') == 'Field' and x.get('m') not in ('first', 'second'):
            out.add(x.get('m'))
        elif x.k == 'DeclRefExpr' and x.get('dk') == 'EnumConstant':
            out.add(x.get('d'))
        elif x.k == 'DeclRefExpr' and x.get('id') and ('e', x.get('id')) not in seen and depth < 4:
            seen.add(('e', x.get('id')))
            for y in x.fn.walk():
                if y.k == 'VarDecl' and y.get('id') == x.get('id') and y.c and y.c[0] is not None and 'bool' in y.t:
                    out |= names(P, y.c[0], depth + 1, seen)
        elif x.k in CALLS and depth < 3:
            for t in P.targets(x):
                if t.body is not None and len(t.nodes) < 80 and t.id not in seen and t.q.startswith(('CG3::', 'GrammarApplicator', 'BinaryApplicator', 'Cohort', 'Reading')) or t.is_lambda and t.id not in seen:
                    seen.add(t.id)
                    out |= names(P, t.body, depth + 1, seen)
    return frozenset(out)
