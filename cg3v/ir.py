"""Program model over the extractor's output."""
import os, re, sys
from collections import defaultdict
from . import extract
from .extract import Broken


class N:
    """AST node."""
    __slots__ = ('k', 'l', 't', 'c', 'a', 'i', 'fn', 'p')

    def __init__(self, fn, i, d):
        self.fn = fn
        self.i = i
        self.k = d.get('k', '?')
        self.l = d.get('l', 0)
        self.t = d.get('t', '')
        self.a = d
        self.c = ()
        self.p = None

    def get(self, k, dflt=None):
        return self.a.get(k, dflt)

    def walk(self):
        """pre-order over this subtree (lambda bodies are separate functions)."""
        st = [self]
        while st:
            n = st.pop()
            yield n
            for ch in reversed(n.c):
                if ch is not None:
                    st.append(ch)

    def find(self, *kinds):
        return [n for n in self.walk() if n.k in kinds]

    @property
    def ev(self):
        return self.a.get('ev')

    def where(self):
        return '%s:%d' % (self.fn.file, self.l)

    def ancestors(self):
        n = self.p
        while n is not None:
            yield n
            n = n.p

    def __repr__(self):
        return '<%s %s:%d>' % (self.k, self.fn.file, self.l)


class Block:
    __slots__ = ('id', 'els', 'succ', 'pred', 'term', 'cond', 'label', 'nr', 'tk')


def split_joins(bl):
    """`if (!(a || b))` makes the compiler join the outcomes of a and b in one block and branch there on the joined value; sending each
    outcome straight where it leads gives the same graph as `if (!a && !b)`."""
    work = [B for B in bl.values() if len(B.succ) == 2 and B.cond is not None]
    while work:
        B = work.pop()
        if len(B.succ) != 2 or B.term is None or B.term.k == 'SwitchStmt' or B.label is not None:
            continue
        n, neg, L = strip(B.cond), False, None
        while n is not None:
            if n.k == 'UnaryOperator' and n.get('op') == '!':
                neg = not neg
                n = strip(n.c[0])
            elif n.k == 'BinaryOperator' and n.get('op') in ('&&', '||'):
                inside = {x.i for x in n.walk()}
                if any(bl[p].term is not None and bl[p].term.i in inside and len(bl[p].succ) == 2 for p in B.pred):
                    L = n
                    break
                n = strip(n.c[1])
            else:
                break
        if L is None:
            continue
        whole = {x.i for x in B.cond.walk()}
        if not all(not isinstance(e, tuple) and e.i in whole and e.k in ('UnaryOperator', 'BinaryOperator', 'ImplicitCastExpr', 'ParenExpr') for e in B.els):
            continue
        tails = [p for p in B.pred if len(bl[p].succ) == 1]
        if len(tails) != 1 or not all(len(bl[p].succ) == 1 or len(bl[p].succ) == 2 and bl[p].term is not None and bl[p].term.i in inside and bl[p].succ[0] != bl[p].succ[1] for p in B.pred):
            continue
        R = bl[tails[0]]
        for p in list(B.pred):
            P = bl[p]
            if P is R:
                continue
            i = P.succ.index(B.id)
            t = B.succ[(i == 0) == neg]
            P.succ[i] = t
            if t >= 0:
                bl[t].pred.append(p)
        R.succ = list(B.succ)
        R.els = R.els + B.els
        R.term, R.cond, R.tk = B.term, B.cond, B.tk
        for t in B.succ:
            if t >= 0:
                bl[t].pred = [x for x in bl[t].pred if x != B.id] + [R.id]
        B.pred, B.els, B.succ, B.term, B.cond = [], [], [], None, None
        work.append(R)


class Fn:
    def __init__(self, P, d):
        self.P = P
        self.d = d
        self.id = d['id']
        self.q = d['q']
        self.n = d['n']
        self.file = d['file']
        self.line = d['line']
        self.end = d['end']
        self.cls = d.get('cls')
        self.params = d['params']
        self.is_lambda = bool(d.get('lam'))
        self.ctor = d.get('ctor')
        self._nodes = None
        self._cfg = None

    @property
    def nodes(self):
        if self._nodes is None:
            raw = self.d['nodes']
            ns = [N(self, i, r) for i, r in enumerate(raw)]
            for n in ns:
                cs = n.a.get('c')
                if cs:
                    n.c = tuple(ns[x] if x >= 0 else None for x in cs)
                    for ch in n.c:
                        if ch is not None and ch.p is None:
                            ch.p = n
            self._nodes = ns
            # lambda capture initialisers are reached through attributes; parent them as well
        return self._nodes

    @property
    def body(self):
        b = self.d.get('body', -1)
        return self.nodes[b] if b >= 0 else None

    @property
    def name(self):
        return self.q

    def walk(self):
        """all AST nodes of the body and ctor initialisers in source order."""
        for i in self.d.get('inits', ()):
            if i['init'] >= 0:
                yield from self.nodes[i['init']].walk()
        if self.body is not None:
            yield from self.body.walk()

    @property
    def cfg(self):
        if self._cfg is None and 'cfg' in self.d:
            ns = self.nodes
            bl = {}
            for k, b in self.d['cfg']['b'].items():
                B = Block()
                B.id = int(k)
                B.els = []
                for e in b['e']:
                    if isinstance(e, int):
                        if e >= 0:
                            B.els.append(ns[e])
                    else:
                        B.els.append(tuple(e))
                B.succ = list(b['s'])
                B.pred = []
                B.term = ns[b['t']] if b.get('t', -1) >= 0 else None
                B.cond = ns[b['tc']] if b.get('tc', -1) >= 0 else None
                B.label = ns[b['lb']] if b.get('lb', -1) >= 0 else None
                B.nr = bool(b.get('nr'))
                B.tk = b.get('tk')
                bl[B.id] = B
            for B in bl.values():
                for s in B.succ:
                    if s >= 0:
                        bl[s].pred.append(B.id)
            split_joins(bl)
            self._cfg = Cfg(bl, self.d['cfg']['entry'], self.d['cfg']['exit'])
        return self._cfg

    def __repr__(self):
        return '<Fn %s %s:%d>' % (self.q, self.file, self.line)


class Cfg:
    def __init__(self, blocks, entry, exit):
        self.b = blocks
        self.entry = entry
        self.exit = exit


class Program:
    def __init__(self, repo=None):
        self.repo = repo or extract.REPO
        self.funcs = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.tus = []
        pre = self.repo.rstrip('/') + '/'

        def rel(s):
            return s[len(pre):] if s.startswith(pre) else s
        for d in extract.extract(self.repo):
            if 'file' in d:
                d['file'] = rel(d['file'])
            k = d['kind']
            if k == 'func':
                self.funcs[d['id']] = Fn(self, d)
            elif k == 'record':
                self.records[d['q']] = d
            elif k == 'enum':
                self.enums[d['q']] = d
            elif k == 'global':
                if d['def'] or d['id'] not in self.globals:
                    self.globals[d['id']] = d
            elif k == 'tu':
                self.tus.append(d['file'])
                if d['errors']:
                    raise Broken('%s does not parse' % d['file'])
        self.by_q = defaultdict(list)
        for f in self.funcs.values():
            self.by_q[f.q].append(f)
        self._overrides = None
        self._callers = None

    # ---- lookups
    def fn(self, q, required=True, file=None):
        r = [f for f in self.by_q.get(q, ()) if file is None or f.file.endswith(file)]
        if not r and required:
            raise Broken('function %s vanished' % q)
        return r[0] if r else None

    def fns(self, q, required=True):
        r = self.by_q.get(q, [])
        if not r and required:
            raise Broken('function %s vanished' % q)
        return r

    def record(self, q):
        if q not in self.records:
            raise Broken('class %s vanished' % q)
        return self.records[q]

    def fields(self, q, bases=False):
        r = self.record(q)
        fs = list(r['fields'])
        if bases:
            for b in r['bases']:
                if b in self.records:
                    fs = self.fields(b, True) + fs
        return fs

    def enum(self, *consts):
        """find the enum that holds all given constants -> dict name->value"""
        for e in self.enums.values():
            names = {c[0] for c in e['cs']}
            if all(c in names for c in consts):
                return {c[0]: int(c[1]) for c in e['cs']}
        raise Broken('enum with %s vanished' % (consts,))

    def is_a(self, cls, base):
        if cls == base:
            return True
        r = self.records.get(cls)
        return bool(r) and any(self.is_a(b, base) for b in r['bases'])

    # ---- call graph
    def overriders(self, fid):
        if self._overrides is None:
            o = defaultdict(set)
            for f in self.funcs.values():
                for b in f.d.get('ov', ()):
                    o[b].add(f.id)
            # transitive
            ch = True
            while ch:
                ch = False
                for b in list(o):
                    for x in list(o[b]):
                        for y in o.get(x, ()):
                            if y not in o[b]:
                                o[b].add(y)
                                ch = True
            self._overrides = o
        return self._overrides.get(fid, ())

    def targets(self, call):
        """Fn objects a call node may enter (virtual dispatch resolved by class hierarchy)."""
        fid = call.get('fid')
        res = []
        if fid:
            if fid in self.funcs:
                res.append(self.funcs[fid])
            if call.get('virt'):
                for o in self.overriders(fid):
                    if o in self.funcs:
                        res.append(self.funcs[o])
        return res


CALLS = ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'UserDefinedLiteral')


def is_call(n, *names):
    if n.k not in CALLS:
        return False
    if not names:
        return True
    fs = n.get('fs')
    return fs in names or n.get('fn') in names or (fs and fs[-1].isdigit() and re.sub(r'_\d+$', '', fs) in names) or False


def args(call):
    """argument nodes (without callee / implicit object)."""
    if call.k == 'CXXOperatorCallExpr':
        return list(call.c[1:])
    if call.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
        return list(call.c)
    return list(call.c[1:])


def recv(call):
    """object expression of a member call (or of an operator member call), None otherwise"""
    if call.k == 'CXXMemberCallExpr' and call.c and call.c[0] is not None and call.c[0].k == 'MemberExpr':
        return call.c[0].c[0] if call.c[0].c else None
    if call.k == 'CXXOperatorCallExpr' and call.get('cls') and len(call.c) > 1:
        return call.c[1]
    return None


CASTS = ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr', 'ParenExpr',
         'ImplicitCastExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr')


def strip(n):
    while n is not None and n.k in CASTS and n.c:
        n = n.c[-1] if n.k == 'CXXFunctionalCastExpr' else n.c[0]
    return n


def canon(n):
    """textual identity of an expression (resolved declarations, no positions)"""
    n = strip(n)
    if n is None:
        return '_'
    if n.k == 'DeclRefExpr':
        return 'd:%s' % (n.get('q') if n.get('g') or n.get('dk') in ('Function', 'EnumConstant') else n.get('id') or n.get('d'))
    if n.k == 'MemberExpr':
        return '%s.%s' % (canon(n.c[0]) if n.c else 'this', n.get('m'))
    if n.k == 'CXXThisExpr':
        return 'this'
    if n.k in ('IntegerLiteral', 'CharacterLiteral', 'CXXBoolLiteralExpr', 'StringLiteral', 'FloatingLiteral'):
        return '#%s' % (n.get('v') if n.get('v') is not None else n.ev)
    if n.k == 'CXXConstructExpr' and len(n.c) == 1:
        return canon(n.c[0])
    h = n.k
    if n.k in CALLS:
        h = 'call'
    if n.get('op'):
        h += n.get('op')
    return '%s(%s)' % (h, ','.join(canon(c) for c in n.c))


def byref_args(call):
    """(param type, arg node) for arguments bound to non-const lvalue references"""
    pts = call.get('pt') or []
    as_ = args(call)
    if call.k == 'CXXOperatorCallExpr' and call.get('cls'):
        as_ = as_[1:]
    for t, a in zip(pts, as_):
        t = t.strip()
        if t.endswith('&') and not t.endswith('&&') and not t.startswith('const ') and ' const &' not in t and 'const&' not in t:
            yield t, a


def boolval(n):
    """value of a bool literal, else None"""
    n = strip(n)
    if n is None or n.k != 'CXXBoolLiteralExpr':
        return None
    v = n.get('v') if n.get('v') is not None else n.ev
    return str(v) in ('1', 'True', 'true')
