"""Abstract interpretation of (de)serialising code into a structural description of the byte format.

Every function reachable from the entry that touches a stream is inlined (lambdas and templates included); the result is,
per stream, a list of tokens: Raw(n bytes), Loop(tokens), Gate(condition, then, else), Rec.  A token knows which data
members its value came from (writer) or went to (reader).  No code is executed: every branch is walked once, loops once.
"""
import re
from .ir import N, args, recv, CALLS, Broken
from . import flow

STREAM_T = re.compile(r'basic_(i|o)?(string)?stream<|basic_iostream|Process\b')
STRING_T = re.compile(r'^(const )?std::(__cxx11::)?basic_string<char(, [^>]*>)*>?( ?&)?$')


def width(t):
    t = t.replace('const ', '').replace('volatile ', '').strip().rstrip('&').strip()
    m = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'char16_t': 2, 'int': 4, 'unsigned int': 4,
         'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'double': 8, 'float': 4}
    return m.get(t)


class Raw:
    def __init__(self, n, node, frame):
        self.n = n
        self.node = node
        self.frame = frame
        self.srcs = frozenset()
        self.dests = set()
        self.sub = None
        self.flag = None     # key of the local variable written/assigned
        self.const = None
        self.lit = None
        self.pend_w = None
        self.narrow = None
        self.ty = None
        self.uid = None
        self.size = False
        self.rw = {}

    def where(self):
        return self.node.where()

    def __repr__(self):
        return 'Raw(%s%s%s)' % (self.n if self.n is not None else '*', ' <' + ','.join(sorted(self.srcs)) + '>' if self.srcs else '',
                                ' ->' + ','.join(sorted(self.dests)) if self.dests else '')


class Loop:
    def __init__(self, node):
        self.node = node
        self.body = []
        self.srcs = frozenset()
        self.items = frozenset()
        self.incs = []

    def where(self):
        return self.node.where()

    def __repr__(self):
        return 'Loop%s' % self.body


class Gate:
    def __init__(self, node, key, then, els):
        self.node, self.key, self.then, self.els = node, key, then, els

    def where(self):
        return self.node.where()

    def __repr__(self):
        return 'Gate(%s,%s,%s)' % (self.key, self.then, self.els)


class Rec:
    def __init__(self, node, fn):
        self.node, self.fn = node, fn

    def where(self):
        return self.node.where()

    def __repr__(self):
        return 'Rec(%s)' % self.fn.q


class Inc:
    def __init__(self, node, key):
        self.node, self.key = node, key

    def __repr__(self):
        return 'Inc(%s)' % (self.key,)


class Val:
    __slots__ = ('srcs', 'items', 'bits', 'const', 'lam', 'alias', 'cond', 'strref', 'w', 'size', 'key', 'ops')

    def __init__(self, srcs=frozenset(), items=frozenset(), bits=frozenset(), const=None, lam=None, alias=None, cond=None, strref=None, w=None, size=False, key=None, ops=frozenset()):
        self.ops = ops            # arithmetic the value went through: (operator, constant or None)
        self.srcs, self.items, self.bits, self.const, self.lam, self.alias, self.cond, self.strref, self.w, self.size, self.key = \
            frozenset(srcs), frozenset(items), frozenset(bits), const, lam, alias, cond, strref, w, size, key

    def copy(self, **kw):
        v = Val(self.srcs, self.items, self.bits, self.const, self.lam, self.alias, self.cond, self.strref, self.w, self.size, self.key, self.ops)
        for k, x in kw.items():
            setattr(v, k, x)
        return v


def ubits(n):
    """the bits of a constant expression: 1 << 31 and 1u << 31 name the same bit"""
    v = n.ev
    return v & (0xffffffff if -(1 << 31) <= v < 0 and width(n.t) != 8 else 0xffffffffffffffff)


def union(*vs):
    vs = [v for v in vs if v is not None]
    s, i, b, o = frozenset(), frozenset(), frozenset(), frozenset()
    strref = None
    sz = False
    for v in vs:
        s |= v.srcs
        i |= v.items
        b |= v.bits
        o |= v.ops
        strref = strref if strref is not None else v.strref
        sz = sz or v.size
    return Val(s, i, b, strref=strref, size=sz, ops=o)


ENDIAN = re.compile(r'^(native_to|big_to|little_to|endian_|conditional_|bswap|hton|ntoh)')
NO_TAINT = re.compile(r'UErrorCode|UConverter')
SKIP_FN = re.compile(r'^(u_fprintf|u_fflush|u_printf|CG3Quit|u_fputc|u_fputs|u_fprintf_u)')


class Walker:
    def __init__(self, P, semantic, role, consts=None, root_streams=(), maxdepth=40):
        self.P = P
        self.sem = semantic
        self.role = role          # 'w' or 'r'
        self.env = {}
        self.streams = {}         # key -> current token list
        self.root = {}
        self.items = []
        self.stack = []
        self.frame = 0
        self.gates = []           # stack of (key, polarity)
        self.bitdefs = {}         # (flagkey, mask) -> set of condition stacks (writer)
        self.destops = []         # (field, operations, items) stored by the reader
        self.bitdest = {}         # (items, mask) -> fields (reader)
        self.pending = {}
        self.cursor = {}
        self.problems = []
        self.consts = consts or []
        self.functions = set()
        self.touch = touching(P)
        self.gate_fields = {}     # cond key -> fields assigned inside
        self.tested = set()       # (items, mask) the reader looks at
        self.assumed = set()      # (condition, polarity) that holds because the other branch ends the process
        self.field_writes = []    # (field, gates)
        self.narrowed = []

    # ---------- keys
    def fieldname(self, n):
        mc = n.get('mc') or ''
        return '%s.%s' % (mc, n.get('m'))

    def lv(self, n):
        while n is not None:
            if n.k == 'DeclRefExpr':
                k = ('v', n.get('id'))
                v = self.env.get(k)
                if v is not None and v.alias is not None:
                    return v.alias
                return k
            if n.k == 'MemberExpr':
                if n.get('mc', '').startswith('std::pair') or n.get('m') in ('first', 'second'):
                    n = n.c[0]
                    continue
                return ('f', self.fieldname(n))
            if n.k == 'ArraySubscriptExpr':
                n = n.c[0]
                continue
            if n.k == 'CXXOperatorCallExpr' and n.get('op') in ('[]', '*', '->', '='):
                n = n.c[1]
                continue
            if n.k == 'UnaryOperator' and n.get('op') in ('*', '&', '++', '--'):
                n = n.c[0]
                continue
            if n.k in ('CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXConstCastExpr', 'CXXDynamicCastExpr'):
                n = n.c[0]
                continue
            if n.k == 'CXXMemberCallExpr' and n.get('fs') in ('data', 'c_str', 'begin', 'end', 'back', 'front', 'at', 'get', 'find'):
                n = recv(n)
                continue
            if n.k == 'CXXThisExpr':
                return ('this',)
            return None
        return None

    # ---------- streams
    def is_stream_node(self, n):
        return n is not None and bool(STREAM_T.search(n.t))

    def sink(self, key):
        if key not in self.streams:
            self.streams[key] = []
            self.root.setdefault(key, self.streams[key])
        return self.streams[key]

    def emit(self, key, tok):
        self.sink(key).append(tok)

    def narrowing(self, n, arg, v):
        """an explicit conversion to a narrower type of a value taken from the grammar"""
        if self.role == 'w' and v.srcs and not v.size and v.const is None:
            w, a = width(n.t), width(arg.t)
            aw = v.w or (a or 0) * 8
            if w and aw > w * 8:
                self.narrowed.append((n, v, w, tuple(self.gates)))

    def new_item(self, n, node):
        r = Raw(n, node, self.frame)
        r.uid = len(self.items)
        self.items.append(r)
        r.gates = tuple(self.gates)
        return r

    def taint_key(self, key, val, weak=True):
        if key is None:
            return
        if key[0] == 'f' and key[1].split('.')[0] in self.sem:
            self.dest(key[1], val)
            return
        old = self.env.get(key)
        if weak and old is not None:
            v = union(old, val)
            v.alias = old.alias
            v.lam = old.lam
            self.env[key] = v
        else:
            self.env[key] = val

    def dest(self, field, val):
        for i in val.items:
            self.items[i].dests.add(field)
            if len(val.items) == 1 and not val.bits and val.w and val.w > 1:
                self.items[i].rw.setdefault(field, set()).add(val.w)
        if val.items:
            self.destops.append((field, val.ops, frozenset(val.items), tuple(self.gates)))
        for b in val.bits:
            self.bitdest.setdefault(b, set()).add(field)
        for g, pol in self.gates:
            self.gate_fields.setdefault(g, set()).add(field)
        self.field_writes.append((field, tuple(self.gates)))

    # ---------- conditions
    def cond_key(self, n):
        if n is None:
            return ('true',)
        if n.k == 'UnaryOperator' and n.get('op') == '!':
            return neg(self.cond_key(n.c[0]))
        if n.k == 'BinaryOperator' and n.get('op') in ('&&', '||'):
            op = 'and' if n.get('op') == '&&' else 'or'
            ks = []
            for c in n.c:
                k = self.cond_key(c)
                if k[0] == op:
                    ks += list(k[1:])
                else:
                    ks.append(k)
            return (op,) + tuple(sorted(ks, key=repr))
        if n.k == 'BinaryOperator' and n.get('op') in ('!=', '==', '>', '<', '>=', '<='):
            a, b = n.c
            op = n.get('op')
            if a.ev is not None and b.ev is None or a.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
                a, b = b, a
                op = {'>': '<', '<': '>', '>=': '<=', '<=': '>='}.get(op, op)
            zero = b.ev == 0 or b.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr')
            if zero and op in ('!=',) or (zero and op == '>' and (a.t.startswith('unsigned') or self.is_size(a))):
                return self.cond_key(a)
            if zero and op == '==':
                return neg(self.cond_key(a))
            if b.ev == 1 and op == '>=' and self.is_size(a):
                return self.cond_key(a)
            va, vb = self.canon(a), self.canon(b)
            if op in ('<', '<='):
                va, vb, op = vb, va, {'<': '>', '<=': '>='}[op]
            if op == '!=':
                return neg(('cmp', '==') + tuple(sorted((va, vb), key=repr)))
            if op == '==':
                return ('cmp', '==') + tuple(sorted((va, vb), key=repr))
            return ('cmp', op, va, vb)
        if n.k == 'CXXOperatorCallExpr' and n.get('op') in ('==', '!='):
            a, b = args(n)[:2]
            k = ('cmp', '==') + tuple(sorted((self.canon(a), self.canon(b)), key=repr))
            return k if n.get('op') == '==' else neg(k)
        if n.k == 'CXXMemberCallExpr' and n.get('fs') == 'empty':
            return neg(('t', self.canon(recv(n))))
        if n.k == 'CXXMemberCallExpr' and n.get('fs') in ('size', 'length'):
            return ('t', self.canon(recv(n)))
        if n.k == 'BinaryOperator' and n.get('op') == '&':
            a, b = n.c
            if a.ev is not None:
                a, b = b, a
            bits = ubits(b) if b.ev is not None else None
            if bits is None and b.k == 'DeclRefExpr':
                bits = self.eval(b, pure=True).const       # the parameter of a helper
            if bits is not None:
                va = self.eval(a, pure=True)
                if self.role == 'r' and va.items:
                    self.tested.add((va.items, bits))
                    return ('bit', va.items, bits)
                return ('mask', self.canon(a), b.ev if b.ev is not None else bits)
        if n.k == 'CXXMemberCallExpr' and n.get('fs', '').startswith('operator bool'):
            return ('t', self.canon(recv(n)))
        if n.k == 'DeclRefExpr':
            v = self.env.get(('v', n.get('id')))
            if v is not None and v.cond is not None:
                return v.cond
        if n.k in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr'):
            return self.cond_key(n.c[0])
        return ('t', self.canon(n))

    def is_size(self, n):
        return n.k == 'CXXMemberCallExpr' and n.get('fs') in ('size', 'length')

    def canon(self, n, depth=0):
        if n is None:
            return ()
        if n.ev is not None:
            return ('c', n.ev)
        if n.k == 'DeclRefExpr':
            v = self.env.get(('v', n.get('id')))
            if v is not None and v.key is not None:
                return v.key
            if n.get('g'):
                return ('g', n.get('q'))
            if n.get('dk') in ('ParmVar', 'Var', 'Binding'):
                if v is not None and v.items and self.role == 'r':
                    return ('in', v.items)
                return ('obj', re.sub(r'const |CG3::|[&* ]', '', n.t))
            return ('d', n.get('q') or n.get('d'))
        if n.k == 'MemberExpr':
            return ('f', self.fieldname(n))
        if n.k == 'CXXThisExpr':
            return ('this',)
        if n.k in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXReinterpretCastExpr'):
            return self.canon(n.c[0])
        if n.k == 'UnaryOperator' and n.get('op') in ('*', '&'):
            return self.canon(n.c[0])
        if n.k == 'CXXOperatorCallExpr' and n.get('op') in ('*', '->'):
            return self.canon(n.c[1])
        if n.k in CALLS:
            if n.get('fs') in ('UI8', 'UI16', 'UI32', 'UI64', 'SI8', 'SI32', 'SI64', 'UIZ'):
                return self.canon(args(n)[0])
            if n.get('fs') in ('get', 'begin', 'data', 'c_str') and recv(n) is not None:
                return self.canon(recv(n))
            r = recv(n)
            return ('call', n.get('fn') or n.get('cls') or '?') + ((self.canon(r),) if r is not None else ()) + tuple(self.canon(a) for a in args(n) if a is not None and a is not r)
        return (n.k, n.get('op') or '') + tuple(self.canon(c) for c in n.c)

    # ---------- expressions
    def eval(self, n, pure=False):
        """value of an expression; pure: no emission (used for condition keys)."""
        if n is None:
            return Val()
        if pure:
            save = (self.role, self.streams)
            if any(m.k in CALLS for m in n.walk()):
                # only look through simple values
                vs = [self.eval(m) for m in n.walk() if m.k == 'DeclRefExpr']
                return union(*vs)
        k = n.k
        if k == 'DeclRefExpr':
            key = ('v', n.get('id'))
            v = self.env.get(key)
            if v is None and n.ev is not None:
                return Val(const=n.ev, w=self.bits_of(n.ev))
            if v is not None:
                if v.alias is not None:
                    u = self.env.get(v.alias)
                    if v.alias[0] == 'f' and v.alias[1].split('.')[0] in self.sem:
                        return Val(srcs=v.srcs | {v.alias[1]}, w=v.w)
                    return u if u is not None else Val(srcs=v.srcs)
                r = v.copy()
                if r.w is None and width(n.t):
                    r.w = width(n.t) * 8
                return r
            w = width(n.t)
            return Val(w=w * 8 if w else None)
        if k == 'MemberExpr':
            if n.get('dk') != 'Field':
                return self.eval(n.c[0]) if n.c else Val()
            b = self.eval(n.c[0])
            f = self.fieldname(n)
            w = width(n.t)
            if n.get('m') in ('first', 'second') and 'pair' in (n.get('mc') or ''):
                return Val(srcs=b.srcs | {'pair.' + n.get('m')}, items=b.items, w=w * 8 if w else None)
            if f.split('.')[0] in self.sem:
                return Val(srcs=b.srcs | {f}, items=b.items, w=w * 8 if w else None, key=('f', f))
            e = self.env.get(('f', f))
            r = union(b, e) if e is not None else Val(b.srcs, b.items)
            r.w = w * 8 if w else None
            return r
        if k == 'LambdaExpr':
            for c in n.get('caps', ()):
                pass
            return Val(lam=n.get('lam'))
        if k in ('CXXThisExpr', 'CXXNullPtrLiteralExpr', 'StringLiteral', 'IntegerLiteral', 'CXXBoolLiteralExpr', 'CharacterLiteral', 'FloatingLiteral', 'UnaryExprOrTypeTraitExpr'):
            return Val(const=n.ev, w=self.bits_of(n.ev))
        if k in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr', 'CXXDynamicCastExpr'):
            v = self.eval(n.c[0])
            if self.role == 'r' and width(n.t) and v.items:
                v = v.copy(w=min(v.w or 64, width(n.t) * 8))
            self.narrowing(n, n.c[0], v)
            return v
        if k == 'UnaryOperator':
            op = n.get('op')
            if op in ('++', '--'):
                key = self.lv(n.c[0])
                self.advance(n, key, 1)
                if op == '++' and key:
                    for s in self.streams.values():
                        s.append(Inc(n, key))
                return self.eval(n.c[0])
            v = self.eval(n.c[0])
            if op == '*':
                w = width(n.t)
                for i in v.items:
                    it = self.items[i]
                    if it.pend_w is None and it.n == 'pend' and w:
                        it.pend_w = w
                v = v.copy(w=w * 8 if w else None, cond=None)
            if op in ('!', '~', '-'):
                c = n.ev
                if op == '!' and c is None and v.const is not None:
                    c = int(not v.const)
                return Val(v.srcs, v.items, v.bits, const=c, ops=v.ops | ({('neg' if op == '-' else op, None)} if op in ('~', '-') else frozenset()))
            return v
        if k == 'BinaryOperator':
            op = n.get('op')
            if op == '=':
                return self.assign(n, n.c[0], n.c[1])
            if op == ',':
                self.eval(n.c[0])
                return self.eval(n.c[1])
            a, b = self.eval(n.c[0]), self.eval(n.c[1])
            if n.ev is not None:
                return Val(const=n.ev, w=self.bits_of(n.ev))
            r = union(a, b)
            if op in ('+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>') and (r.srcs or r.items):
                r.ops |= {(op, n.c[1].ev if n.c[1].ev is not None else n.c[0].ev)}
            if op in ('<', '>', '<=', '>=', '==', '!=', '&&', '||') and a.const is not None and b.const is not None:
                r.const = int(eval('%d %s %d' % (a.const, {'&&': 'and', '||': 'or'}.get(op, op), b.const)))
            if op == '&':
                x, m = (n.c[0], n.c[1].ev) if n.c[1].ev is not None else (n.c[1], n.c[0].ev)
                if m is not None:
                    vx = a if x is n.c[0] else b
                    r.w = min(self.bits_of(m), vx.w or 64)
                    if vx.items:
                        r.bits = frozenset([(vx.items, ubits(n.c[0] if x is n.c[1] else n.c[1]))])
            elif op == '>>' and b.const is not None and a.w:
                r.w = max(a.w - b.const, 1)
            elif op in ('|', '^', '+', '-', '*'):
                r.w = max([x for x in (a.w, b.w) if x] or [None]) if (a.w or b.w) else None
            elif op in ('!=', '==') and (n.c[1].ev == 0 or n.c[0].ev == 0):
                r.bits = a.bits | b.bits
            return r
        if k == 'CompoundAssignOperator':
            op = n.get('op')
            key = self.lv(n.c[0])
            v = self.eval(n.c[1])
            if op == '|=' and key and n.c[1].ev is not None:
                self.bitdefs.setdefault((key, ubits(n.c[1])), set()).add(tuple(self.gates))
            elif op == '|=' and key and key[0] == 'v' and self.role == 'w' and n.c[1].k == 'ConditionalOperator' and n.c[1].c[1].ev is not None and n.c[1].c[2].ev == 0:
                self.bitdefs.setdefault((key, ubits(n.c[1].c[1])), set()).add(tuple(self.gates) + ((self.cond_key(n.c[1].c[0]), True),))
            if op == '+=':
                if key in self.cursor:
                    self.advance(n, key, n.c[1].ev if n.c[1].ev is not None else None)
                    return Val()
                if n.c[1].ev == 1 and key:
                    for s in self.streams.values():
                        s.append(Inc(n, key))
            self.eval(n.c[0])
            if op != '|=' or self.role == 'r':
                v = v.copy(ops=v.ops | {(op[:-1], n.c[1].ev)})
            self.taint_key(key, v)
            return v
        if k == 'ConditionalOperator':
            c = self.eval(n.c[0])
            key = self.cond_key(n.c[0])
            if any(x.k in CALLS and x.get('fid') in self.touch for m in n.c[1:3] if m is not None for x in m.walk()):
                # one of the two is only read or written under the condition
                pol = True
                if key[0] == 'not':
                    key, pol = key[1], False
                got = []
                s1, t1, e1 = self.branch(lambda: got.append(self.eval(n.c[1])), (key, pol))
                s2, t2, e2 = self.branch(lambda: got.append(self.eval(n.c[2])), (key, not pol))
                self.gate(n, key, pol, t1, t2)
                self.env = self.merge_env(e1, e2)
                return union(*got)
            a, b = self.eval(n.c[1]), self.eval(n.c[2])
            r = union(c, a, b)
            return r
        if k in CALLS:
            return self.call(n)
        if k == 'ArraySubscriptExpr':
            b = self.eval(n.c[0])
            i = self.eval(n.c[1])
            key = self.lv(n.c[0])
            return union(b, i)
        if k == 'DeclStmt' or k == 'VarDecl':
            self.exec(n)
            return Val()
        if k == 'CXXNewExpr':
            return union(*[self.eval(c) for c in n.c])
        if k == 'InitListExpr':
            return union(*[self.eval(c) for c in n.c])
        if k == 'CXXThrowExpr':
            return Val()
        vs = [self.eval(c) for c in n.c if c is not None]
        r = union(*vs) if vs else Val()
        if n.ev is not None:
            r.const = n.ev
        return r

    @staticmethod
    def bits_of(c):
        if c is None:
            return None
        return max(int(c).bit_length(), 1) if c >= 0 else 64

    def advance(self, n, key, amount):
        """cursor variable moves by amount: the bytes looked at since the last move are consumed."""
        buf = self.cursor.get(key)
        if buf is None:
            return
        it = self.pending.pop(buf, None)
        if it is None:
            it = self.new_item(None, n)
        it.n = amount
        if it.pend_w is not None and amount is not None and it.pend_w != amount:
            self.problems.append((n, 'cursor', 'reads %d byte(s) but advances the cursor by %d' % (it.pend_w, amount)))
        if it.pend_w is not None and amount is None:
            self.problems.append((n, 'cursor', 'reads %d byte(s) but advances the cursor by a variable amount' % it.pend_w))
        self.emit(buf, it)

    def assign(self, n, lhs, rhs):
        v = self.eval(rhs)
        # index values on the left are destinations too (map keys)
        comp = False
        for m in lhs.walk():
            if m.k == 'CXXOperatorCallExpr' and m.get('op') == '[]' and len(m.c) > 2:
                key = self.lv(m.c[1])
                iv = self.eval(m.c[2])
                if key and key[0] == 'f' and key[1].split('.')[0] in self.sem and iv.items and ('map' in m.c[1].t):
                    self.dest(key[1] + '@first', iv)
                    self.dest(key[1] + '@second', v)
                elif iv.items and self.lv(lhs) and self.lv(lhs)[0] == 'f' and not ('f' == self.lv(lhs)[0] and self.lv(lhs)[1].split('.')[0] in self.sem):
                    pass
        key = self.lv(lhs)
        if key is None:
            return v
        plain = lhs.k in ('DeclRefExpr',)
        self.taint_key(key, v, weak=not plain)
        if plain and v.const is None and v.items and self.role == 'r':
            for i in v.items:
                if self.items[i].flag is None:
                    self.items[i].flag = key
        return v

    def stream_of(self, n):
        """stream key an expression denotes, or None"""
        if n is None:
            return None
        if self.is_stream_node(n):
            key = self.lv(n)
            return key
        return None

    # ---------- calls
    def call(self, n):
        fs = n.get('fs') or ''
        if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            vs = [self.eval(a) for a in n.c if a is not None]
            r = union(*vs)
            if len(vs) == 1:
                return vs[0]
            return r
        if n.get('nr') and SKIP_FN.match(fs) or SKIP_FN.match(fs):
            return Val()
        A = args(n)
        R = recv(n)
        # primitive reads / writes
        if n.k == 'CXXMemberCallExpr' and fs in ('write', 'read') and self.is_stream_node(R):
            return self.prim(n, fs, R, A)
        if n.k == 'CXXMemberCallExpr' and fs == 'put' and self.is_stream_node(R):
            v = self.eval(A[0])
            self.raw_write(self.lv(R), 1, n, v, A[0])
            return Val()
        if n.k == 'CXXMemberCallExpr' and fs == 'get' and self.is_stream_node(R):
            it = self.new_item(1, n)
            self.emit(self.lv(R), it)
            return Val(items={it.uid})
        if n.k == 'CXXMemberCallExpr' and fs == 'str' and self.is_stream_node(R):
            key = self.lv(R)
            if A:
                self.streams[key] = []
                v = self.eval(A[0])
                if v.strref is not None and self.role == 'r':
                    self.streams[key] = v.strref
                return Val()
            return Val(strref=self.sink(key))
        if n.k == 'CXXMemberCallExpr' and fs in ('clear', 'seekg', 'exceptions', 'eof', 'good', 'flush', 'fail', 'operator bool') and self.is_stream_node(R):
            return Val()
        # string buffers
        if n.get('op') == '+=' and STRING_T.match(A[0].t):
            return self.append_str(n, A[0], A[1])
        if n.k == 'CXXMemberCallExpr' and R is not None and STRING_T.match(R.t.replace(' *', '')) and fs in ('append', 'push_back') and self.role == 'w':
            return self.append_str(n, R, A[0])
        if n.get('op') == '[]':
            key = self.lv(A[0])
            buf = key if key in self.streams and self.role == 'r' and STRING_T.match(A[0].t) else None
            idx = A[1]
            if buf is not None and idx.k == 'DeclRefExpr' and idx.get('dk') in ('Var', 'ParmVar'):
                ck = self.lv(idx)
                self.cursor[ck] = buf
                it = self.pending.get(buf)
                if it is None:
                    it = self.new_item('pend', n)
                    self.pending[buf] = it
                return Val(items={it.uid})
            b = self.eval(A[0])
            i = self.eval(A[1])
            if self.role == 'r' and i.items and key and key[0] == 'f' and key[1].split('.')[0] in self.sem and 'map' in A[0].t:
                self.dest(key[1] + '@first', Val(items=i.items))
            return union(b, i).copy(w=(width(n.t) or 0) * 8 or None)
        if n.get('op') == '=':
            key = self.lv(A[0])
            v = self.eval(A[1])
            if key is not None and A[0].k == 'DeclRefExpr' and v.strref is not None:
                self.env[key] = v
                return v
            return self.assign(n, A[0], A[1]) if not v.items else (self.assign_val(A[0], v))
        if n.get('op') in ('*', '->') and n.k == 'CXXOperatorCallExpr' and len(A) == 1:
            return self.eval(A[0])
        if n.get('op') == '()':
            f = self.eval(A[0])
            if f.lam and f.lam in self.P.funcs:
                return self.inline(n, self.P.funcs[f.lam], A[1:])
            key = self.lv(A[0])
            fid = n.get('fid')
            if fid in self.P.funcs:
                return self.inline(n, self.P.funcs[fid], A[1:])
        fid = n.get('fid')
        tg = self.P.funcs.get(fid) if fid else None
        if tg is not None and (tg.id in self.touch or self.passes_buffer(n, tg)):
            return self.inline(n, tg, A)
        # conversions
        if fs in ('UI8', 'UI16', 'UI32', 'UI64', 'SI8', 'SI32', 'SI64', 'UIZ', 'DBL') and A:
            v = self.eval(A[0])
            if self.role == 'r' and width(n.t) and v.items:
                v = v.copy(w=min(v.w or 64, width(n.t) * 8))
            self.narrowing(n, A[0], v)
            return v
        pts0 = n.get('pt') or []
        off = 1 if (n.k == 'CXXOperatorCallExpr' and n.get('cls')) else 0
        vs = []
        for i, a in enumerate(A):
            v = self.eval(a) if a is not None else Val()
            if tg is None and 0 <= i - off < len(pts0) and re.match(r'^(char|char16_t|int|UChar|unsigned int) \*$', pts0[i - off]):
                v = Val(const=v.const)     # out buffer of a library call: its old content is not an input
            vs.append(v)
        rv = self.eval(R) if R is not None and R not in A else None
        allv = union(*(vs + ([rv] if rv is not None else [])))
        if n.ev is not None:
            allv.const = n.ev
        elif ENDIAN.match(fs) and len(vs) == 1:
            allv.const = vs[0].const     # byte order does not change which constant it is
            allv.w = vs[0].w
        if n.k == 'CXXMemberCallExpr' and fs in ('size', 'length'):
            r = rv.copy()
            r.size = True
            r.strref = None
            r.w = 64
            return r
        if n.k == 'CXXMemberCallExpr' and fs in ('data', 'c_str', 'begin', 'end', 'find', 'back', 'front', 'get', 'at', 'count', 'empty'):
            r = union(rv, *vs)
            r.strref = rv.strref if rv is not None else None
            if r.strref is None and R is not None:
                key = self.lv(R)
                if key in self.streams and self.role == 'w':
                    r.strref = self.streams[key]
            return r
        # reset of a local buffer
        if n.k == 'CXXMemberCallExpr' and fs == 'clear' and R is not None and R.k == 'DeclRefExpr':
            key = self.lv(R)
            if key in self.streams:
                self.streams[key] = []
            return Val()
        # side effects: containers and out-parameters receive what the arguments carry
        t_in = union(*vs) if vs else Val()
        if n.k == 'CXXMemberCallExpr' and R is not None and not n.get('cm'):
            if tg is None:
                self.taint_key(self.lv(R), t_in)
            else:
                if (tg.cls or '').split('<')[0] not in self.sem:
                    self.taint_key(self.lv(R), t_in)      # a container of the repository
                for f in written_fields(self.P, tg):
                    if f.split('.')[0] in self.sem:
                        self.dest(f, t_in)
        elif tg is not None:
            for f in written_fields(self.P, tg):
                if f.split('.')[0] in self.sem:
                    self.dest(f, t_in)
        pts = n.get('pt') or []
        for i, a in enumerate(A):
            if a is None or i >= len(pts):
                continue
            pt = pts[i]
            if ('&' in pt or '*' in pt) and not pt.startswith('const ') and not NO_TAINT.search(pt):
                others = union(*[v for j, v in enumerate(vs) if j != i and not NO_TAINT.search(pts[j] if j < len(pts) else '')]) if len(vs) > 1 else Val()
                key = self.lv(a)
                if key is not None and (others.items or others.srcs):
                    # objects handed to functions are not overwritten by them, buffers and scalars are
                    if re.search(r'(UChar|char16_t|char|int|long|double|basic_string<|vector<|TagList|list<|set<|map<)', pt):
                        self.taint_key(key, Val(others.srcs, others.items, ops=others.ops), weak=False if (a.k == 'UnaryOperator' or key[0] == 'v') and not key[0] == 'f' else True)
        return Val(allv.srcs, allv.items, const=allv.const, strref=None, size=allv.size, w=allv.w if ENDIAN.match(fs) else None, ops=allv.ops | ({('call', fs)} if fs in ('abs', 'labs', 'llabs', 'min', 'max', 'frexp', 'ldexp') else frozenset()))

    def assign_val(self, lhs, v):
        for m in lhs.walk():
            if m.k == 'CXXOperatorCallExpr' and m.get('op') == '[]' and len(m.c) > 2:
                self.eval(m.c[2])
        self.taint_key(self.lv(lhs), v, weak=lhs.k != 'DeclRefExpr')
        return v

    def passes_buffer(self, n, tg):
        """a repo function that is handed a byte buffer (std::string&) it may append to"""
        if self.role != 'w':
            return False
        for p, a in zip(tg.params, args(n)):
            if a is not None and re.match(r'^std::(__cxx11::)?basic_string<char.*&$', p['t']):
                return True
        return False

    def append_str(self, n, dst, src):
        key = self.lv(dst)
        v = self.eval(src)
        if re.match(r'^(const )?(unsigned |signed )?char$', src.t):
            self.raw_write(key, 1, n, v, src)
        else:
            sk = self.lv(src)
            if sk in self.streams:
                self.sink(key).extend(self.streams[sk])
            elif v.strref is not None:
                self.sink(key).extend(v.strref)
            else:
                self.raw_write(key, None, n, v, src)
        return Val()

    def raw_write(self, key, nbytes, n, v, node):
        it = self.new_item(nbytes, n)
        it.srcs = v.srcs
        it.const = v.const
        it.size = v.size
        base = node
        while base is not None and (base.k in ('UnaryOperator', 'CXXReinterpretCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'ArraySubscriptExpr')):
            base = base.c[0]
        it.flag = self.flagkey(self.lv(base)) if base is not None else None
        it.flagv = v.key if v.key and v.key[0] == 'v' else None
        it.w = v.w
        it.ops = v.ops
        self.emit(key, it)
        return it

    def prim(self, n, fs, R, A):
        key = self.lv(R)
        cnt = A[1].ev if len(A) > 1 else None
        if fs == 'write':
            v = self.eval(A[0])
            if len(A) > 1:
                self.eval(A[1])
            if self.role == 'r':
                # in-memory re-parsing of bytes already taken from the input
                self.taint_key(('s',) + (key or ()), Val(items=v.items), weak=False)
                return Val()
            if v.strref is not None:
                self.sink(key).extend(v.strref)
                return Val()
            sk = self.lv(A[0])
            if sk in self.streams and not self.is_stream_key(sk):
                self.sink(key).extend(self.streams[sk])
                return Val()
            if A[0].k == 'StringLiteral':
                it = self.new_item(cnt, n)
                it.lit = A[0].get('v')[:cnt]
                self.emit(key, it)
                return Val()
            it = self.raw_write(key, cnt, n, v, A[0])
            return Val()
        # read
        mem = self.env.get(('s',) + (key or ()))
        dst = self.lv(A[0])
        nv = self.eval(A[1]) if len(A) > 1 else Val()
        if mem is not None and mem.items:
            self.taint_key(dst, Val(items=mem.items), weak=False)
            return Val(items=mem.items)
        it = self.new_item(cnt, n)
        it.bound = nv.items
        toplevel = not self.gates and not getattr(self, 'looped', False)
        c = None
        if toplevel and self.role == 'r':
            idx = sum(1 for x in self.items if x.n != 'pend') - 1
            if idx < len(self.consts):
                c = self.consts[idx]
        it.flag = dst
        self.emit(key, it)
        v = Val(items={it.uid}, const=c, key=None)
        if cnt is None and dst is not None:
            # dst may be re-parsed as a nested buffer
            it.sub = []
            self.streams[dst] = it.sub
            v.strref = it.sub
        self.taint_key(dst, v, weak=False)
        return Val(items={it.uid})

    def is_stream_key(self, k):
        return False

    def inline(self, n, fn, A):
        if fn in self.stack:
            # recursion: one token into every stream handed over / captured
            keys = [self.lv(a) for a in A if self.is_stream_node(a)]
            for a in A:
                self.eval(a)
            for k in keys or [k for k in list(self.streams)]:
                self.emit(k, Rec(n, fn))
            return Val()
        if len(self.stack) > 30:
            raise Broken('inlining too deep at %s' % n.where())
        self.functions.add(fn)
        self.frame_no = getattr(self, 'frame_no', 0) + 1
        saved_frame = self.frame
        binds = []
        for p, a in zip(fn.params, A):
            if a is None:
                continue
            t = p['t']
            pk = ('v', p['id'])
            getattr(self, 'falias', {}).pop(pk, None)
            if '&' in t or ('*' in t and a.k == 'UnaryOperator' and a.get('op') == '&'):
                key = self.lv(a)
                v = self.eval(a)
                if key is not None:
                    if '&' in t and not t.startswith('const '):
                        binds.append((pk, Val(srcs=v.srcs, alias=key, w=v.w, lam=v.lam)))
                    else:
                        x = v.copy(cond=None)
                        if x.key is None and key[0] == 'v':
                            x.key = None
                        x.strref = v.strref
                        x.alias = None
                        if self.is_stream_node(a) or key in self.streams:
                            x.alias = key
                        binds.append((pk, x))
                        if key[0] == 'v' and self.env.get(key) is not None and x.alias is None:
                            self.flag_alias(pk, key)
                        elif key[0] == 'v':
                            self.flag_alias(pk, key)
                else:
                    binds.append((pk, v))
            else:
                v = self.eval(a)
                x = v.copy(cond=None)
                key = self.lv(a) if a.k in ('DeclRefExpr',) else None
                if self.is_stream_node(a):
                    x.alias = self.lv(a)
                binds.append((pk, x))
                if key is not None and key[0] == 'v':
                    self.flag_alias(pk, key)
        for pk, v in binds:
            self.env[pk] = v
        self.frame = self.frame_no
        self.stack.append(fn)
        self.rets = getattr(self, 'rets', [])
        self.rets.append([])
        self.exec(fn.body)
        rv = self.rets.pop()
        self.stack.pop()
        self.frame = saved_frame
        r = union(*rv) if rv else Val()
        if len(rv) == 1:
            r = rv[0].copy()
        return r

    def flag_alias(self, pk, key):
        if not hasattr(self, 'falias'):
            self.falias = {}
        self.falias[pk] = self.falias.get(key, key)

    def flagkey(self, key):
        return getattr(self, 'falias', {}).get(key, key)

    # ---------- statements
    def exec(self, n):
        """returns completion: 'next' | 'return' | 'break' | 'continue' | 'quit' """
        if n is None:
            return 'next'
        k = n.k
        if k == 'CompoundStmt':
            return self.exec_seq(list(n.c))
        if k == 'DeclStmt':
            for c in n.c:
                self.exec(c)
            return 'next'
        if k == 'VarDecl':
            key = ('v', n.get('id'))
            init = n.c[0] if n.c else None
            v = Val()
            if STREAM_T.search(n.t) and '&' not in n.t and '*' not in n.t:
                self.streams[key] = []
                self.env.pop(('s',) + key, None)
                if init is not None:
                    iv = self.eval(init)
                    if iv.strref is not None and self.role == 'r':
                        self.streams[key] = iv.strref
                    else:
                        for a in (init.c if init.k in CALLS else ()):
                            if a is None:
                                continue
                            ak = self.lv(a)
                            if ak in self.streams and self.role == 'r':
                                self.streams[key] = self.streams[ak]
                self.env[key] = Val()
                return 'next'
            if init is not None:
                v = self.eval(init)
                if n.t in ('bool', 'const bool'):
                    v = v.copy(cond=self.cond_key(init))
                elif n.t.rstrip().endswith('&'):
                    ak = self.lv(init)
                    if ak is not None and v.strref is None and (ak in self.streams or ak[0] == 'f' or ak[0] == 'v'):
                        # plain reference to an object
                        if init.k in ('DeclRefExpr', 'MemberExpr'):
                            self.env[key] = Val(alias=ak, srcs=v.srcs, w=v.w)
                            return 'next'
                if self.role == 'w' and v.srcs and v.key is None and n.t.replace('const ', '') in ('int', 'unsigned int', 'unsigned short', 'unsigned char', 'unsigned long', 'double') and False:
                    pass
            self.env[key] = v.copy(const=None if not n.t.startswith('const') and v.items == frozenset() else v.const) if v.items == frozenset() else v.copy()
            if self.role == 'r' and len(v.items) == 1 and init is not None:
                it = self.items[next(iter(v.items))]
                it.flag = key
            if n.get('bind'):
                for i, (nm, bid) in enumerate(n.get('bind')):
                    self.env[('v', bid)] = Val(v.srcs | {'pair.first' if i == 0 else 'pair.second'}, v.items)
            return 'next'
        if k == 'IfStmt':
            return self.exec_if(n, None)
        if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            return self.exec_loop(n)
        if k == 'ReturnStmt':
            v = self.eval(n.c[0]) if n.c else Val()
            if getattr(self, 'rets', None):
                self.rets[-1].append(v)
            return 'return'
        if k == 'BreakStmt':
            return 'break'
        if k == 'ContinueStmt':
            return 'continue'
        if k == 'SwitchStmt':
            return self.exec_switch(n)
        if k in ('CXXTryStmt',):
            return self.exec(n.c[0])
        if k in ('LabelStmt', 'AttributedStmt'):
            return self.exec(n.c[0])
        if k in ('NullStmt', 'GotoStmt'):
            return 'next'
        if k == 'CXXThrowExpr':
            return 'quit'
        self.eval(n)
        if k in CALLS and n.get('nr') or (k in CALLS and n.get('fs') in ('CG3Quit', 'exit', 'abort')):
            return 'quit'
        return 'next'

    def exec_seq(self, st):
        i = 0
        while i < len(st):
            s = st[i]
            if s is not None and s.k == 'IfStmt':
                r = self.exec_if(s, st[i + 1:])
                if r == 'consumed':
                    return 'return'
            else:
                r = self.exec(s)
            if r != 'next':
                return r
            i += 1
        return 'next'

    def branch(self, fn, gate):
        saved = dict(self.streams)
        env = dict(self.env)
        fresh = {}
        for k in saved:
            fresh[k] = []
        self.streams = dict(fresh)
        if gate:
            self.gates.append(gate)
        st = fn()
        if gate:
            self.gates.pop()
        toks = {k: self.streams.get(k, []) for k in saved}
        # buffers created inside stay visible through strrefs only
        env_out = self.env
        for k, v in self.streams.items():
            if k not in saved:
                saved[k] = v
        self.streams = saved
        self.env = env
        return st, toks, env_out

    def merge_env(self, e1, e2):
        out = {}
        for k in set(e1) | set(e2):
            a, b = e1.get(k), e2.get(k)
            if a is None or b is None or a is b:
                out[k] = a if a is not None else b
                continue
            v = union(a, b)
            v.alias = a.alias or b.alias
            v.lam = a.lam or b.lam
            v.strref = a.strref if a.strref is not None else b.strref
            v.const = a.const if a.const == b.const else None
            v.w = max([x for x in (a.w, b.w) if x] or [0]) or None
            v.key = a.key if a.key == b.key else None
            v.cond = a.cond if a.cond == b.cond else None
            out[k] = v
        return out

    gate_returns = False

    def exec_if(self, n, rest):
        if n.c[0] is not None:
            self.exec(n.c[0])
        if n.get('cv') is not None and n.get('cv') >= 0:
            self.exec(n.fn.nodes[n.get('cv')])
        cv = self.eval(n.c[1])
        c = cv.const if cv.const is not None else n.c[1].ev
        if c is not None and (cv.items or n.get('cx')):
            if c:
                return self.exec(n.c[2])
            return self.exec(n.c[3]) if n.c[3] is not None else 'next'
        key = self.cond_key(n.c[1])
        then = n.c[2]
        for m in flow.nested(n):
            # if (a) if (b) is if (a && b)
            mv = self.eval(m.c[1])
            mc = mv.const if mv.const is not None else m.c[1].ev
            if mc is not None and (mv.items or m.get('cx')):
                break
            k2 = self.cond_key(m.c[1])
            key = ('and',) + tuple(sorted((list(key[1:]) if key[0] == 'and' else [key]) + (list(k2[1:]) if k2[0] == 'and' else [k2]), key=repr))
            then = m.c[2]
        pol = True
        if key[0] == 'not':
            key, pol = key[1], False
        s1, t1, e1 = self.branch(lambda: self.exec(then), (key, pol))
        if n.c[3] is not None:
            s2, t2, e2 = self.branch(lambda: self.exec(n.c[3]), (key, not pol))
        else:
            s2, t2, e2 = 'next', {}, dict(self.env)
        leave = ('return', 'quit', 'break', 'continue')
        if s1 == 'quit':
            self.assumed.add((key, not pol))
        if s2 == 'quit':
            self.assumed.add((key, pol))

        def real(t):
            return any(not isinstance(x, Inc) for v in t.values() for x in v)
        if s1 in leave and s2 in leave:
            if s1 == 'quit':
                self.apply(t2)
                self.env = e2
                return s2
            if s2 == 'quit':
                self.apply(t1)
                self.env = e1
                return s1
        if s1 == 'return' and self.gate_returns and len(self.stack) > 1 and not real(t1) and s2 not in leave and rest is not None:
            # a helper that returns early leaves out the rest of what it does
            def go1():
                self.apply(t2)
                self.env = e2
                return self.exec_seq(rest)
            s3, t3, e3 = self.branch(go1, (key, not pol))
            if s3 != 'quit':
                self.gate(n, key, pol, t1, t3)
                self.env = self.merge_env(e1, e3)
                return 'consumed'
        if s1 == 'quit' or (s1 in leave and not real(t1) and s2 not in leave):
            self.apply(t2)
            self.env = e2
            return s2
        if s2 == 'quit' or (s2 in leave and not real(t2) and s1 not in leave):
            self.apply(t1)
            self.env = e1
            return s1
        if s1 in leave and s2 not in leave and rest is not None:
            # tokens then leave: the rest of the block is the alternative
            def go():
                self.apply(t2)
                self.env = e2
                return self.exec_seq(rest)
            s3, t3, e3 = self.branch(go, (key, not pol))
            self.gate(n, key, pol, t1, t3)
            self.env = self.merge_env(e1, e3)
            return 'consumed'
        self.gate(n, key, pol, t1, t2)
        self.env = self.merge_env(e1, e2)
        if s1 == s2:
            return s1
        return 'next'

    def apply(self, toks):
        for k, ts in toks.items():
            if ts:
                self.sink(k).extend(ts)

    def gate(self, n, key, pol, t1, t2):
        for k in list(self.streams):
            a, b = t1.get(k, []), t2.get(k, [])
            if a or b:
                if not pol:
                    a, b = b, a
                self.emit(k, Gate(n, key, a, b))

    def exec_loop(self, n):
        items, srcs = frozenset(), frozenset()
        if n.k == 'CXXForRangeStmt':
            ri = n.fn.nodes[n.get('ri')]
            v = self.eval(ri)
            srcs, items = v.srcs, v.items
            lv = ('v', n.get('lv'))
            self.env[lv] = Val(v.srcs, v.items)
            for d in n.walk():
                if d.k == 'VarDecl' and d.get('id') == n.get('lv') and d.get('bind'):
                    for i, (nm, bid) in enumerate(d.get('bind')):
                        self.env[('v', bid)] = Val(v.srcs | {'pair.first' if i == 0 else 'pair.second'}, v.items)
            body, inc = n.c[6], None
        elif n.k == 'ForStmt':
            self.exec(n.c[0])
            if n.c[1] is not None:
                v = self.eval(n.c[1])
                srcs, items = v.srcs, v.items
            body, inc = n.c[3], n.c[2]
        elif n.k == 'WhileStmt':
            v = self.eval(n.c[0])
            srcs, items = v.srcs, v.items
            body, inc = n.c[1], None
        else:
            body, inc = n.c[0], None
        ol = getattr(self, 'looped', False)
        self.looped = True

        def go():
            r = self.exec(body)
            if inc is not None:
                # the iteration step is not a counter of emitted elements
                save = self.streams
                self.streams = {}
                self.eval(inc)
                self.streams = save
            return r
        st, toks, e = self.branch(go, None)
        self.looped = ol
        for k in list(self.streams):
            if toks.get(k):
                L = Loop(n)
                L.body = toks[k]
                L.srcs, L.items = srcs, items
                self.emit(k, L)
        self.env = self.merge_env(self.env, e)
        # taints that were created in the body flow around the loop: variables only
        return 'next'

    def exec_switch(self, n):
        if n.c[0] is not None:
            self.exec(n.c[0])
        self.eval(n.c[1])
        ck = self.canon(n.c[1])
        segs = []
        cur = None
        body = n.c[2]
        for s in (body.c if body is not None and body.k == 'CompoundStmt' else [body]):
            labels = []
            while s is not None and s.k in ('CaseStmt', 'DefaultStmt'):
                if s.k == 'CaseStmt':
                    labels.append(s.c[0].ev)
                    s = s.c[2]
                else:
                    labels.append('default')
                    s = s.c[0] if s.c else None
            if labels:
                if cur is not None and cur[1] and all(x is None for x in cur[1]):
                    cur[0].extend(labels)
                    cur[1].append(s)
                else:
                    cur = (labels, [s])
                    segs.append(cur)
            elif cur is not None:
                cur[1].append(s)
        for labels, st in segs:
            s1, t1, e1 = self.branch(lambda: self.exec_seq([x for x in st if x is not None]), (('case', ck, tuple(labels)), True))
            for k in list(self.streams):
                if t1.get(k):
                    self.emit(k, Gate(n, ('case', ck, tuple(labels)), t1[k], []))
            self.env = self.merge_env(self.env, e1)
        return 'next'

    def run(self, fn):
        self.functions.add(fn)
        for p in fn.params:
            self.env[('v', p['id'])] = Val()
            if STREAM_T.search(p['t']):
                self.sink(('v', p['id']))
        self.stack.append(fn)
        self.rets = [[]]
        self.exec(fn.body)
        self.stack.pop()
        return self


def neg(k):
    if k[0] == 'not':
        return k[1]
    return ('not', k)


_touch = {}


def touching(P):
    """ids of functions that transitively read from / write to a stream with the raw primitives."""
    if id(P) in _touch:
        return _touch[id(P)]
    direct = set()
    callers = {}
    for f in P.funcs.values():
        if f.file.endswith(('uextras.cpp', 'uextras.hpp', 'process.hpp', 'popen_plus.cpp', 'streambuf.hpp')):
            continue
        for n in f.walk():
            if n.k == 'CXXMemberCallExpr' and n.get('fs') in ('write', 'read') and STREAM_T.search((recv(n).t if recv(n) is not None else '')):
                direct.add(f.id)
            if n.k == 'CallExpr' and n.get('fid') not in P.funcs and (n.get('fs') or '').startswith('ucnv_'):
                direct.add(f.id)       # fills a conversion buffer for its caller
            if n.k in CALLS and n.get('fid') in P.funcs:
                callers.setdefault(n.get('fid'), set()).add(f.id)
            if n.k == 'LambdaExpr' and n.get('lam') in P.funcs:
                callers.setdefault(n.get('lam'), set()).add(f.id)
    res = set(direct)
    work = list(direct)
    while work:
        x = work.pop()
        for c in callers.get(x, ()):
            if c not in res:
                res.add(c)
                work.append(c)
    _touch[id(P)] = res
    return res


_wf = {}


def written_fields(P, fn, depth=0, seen=None):
    """'Class.field' names a function may modify, transitively."""
    key = (id(P), fn.id)
    if key in _wf:
        return _wf[key]
    seen = seen or set()
    if fn.id in seen or depth > 8:
        return set()
    seen = seen | {fn.id}
    out = set()

    def base_field(n):
        while n is not None:
            if n.k == 'MemberExpr':
                if n.get('dk') == 'Field' and n.get('m') not in ('first', 'second'):
                    return '%s.%s' % (n.get('mc'), n.get('m'))
                n = n.c[0] if n.c else None
            elif n.k in ('ArraySubscriptExpr', 'UnaryOperator') and n.c:
                n = n.c[0]
            elif n.k == 'CXXOperatorCallExpr' and n.get('op') in ('[]', '*', '->'):
                n = n.c[1]
            else:
                return None
        return None
    for n in fn.walk():
        t = None
        if n.k in ('BinaryOperator',) and n.get('op') == '=':
            t = base_field(n.c[0])
        elif n.k == 'CompoundAssignOperator':
            t = base_field(n.c[0])
        elif n.k == 'UnaryOperator' and n.get('op') in ('++', '--'):
            t = base_field(n.c[0])
        elif n.k == 'CXXOperatorCallExpr' and n.get('op') in ('=', '|=', '+=', '&='):
            t = base_field(n.c[1])
        elif n.k == 'CXXMemberCallExpr' and not n.get('cm'):
            r = recv(n)
            if r is not None and n.get('fid') not in P.funcs:
                t = base_field(r)
        if t:
            out.add(t)
        if n.k in CALLS and n.get('fid') in P.funcs:
            out |= written_fields(P, P.funcs[n.get('fid')], depth + 1, seen)
    if depth == 0:
        _wf[key] = out
    return out


# ------------------------------------------------------------------ normal form
def normalise(toks, walker, drop_inc=True):
    """splice nested buffers, coalesce bytes of one primitive, factor gates, flatten loops"""
    out = []
    for t in toks:
        if isinstance(t, Inc):
            if not drop_inc:
                out.append(t)
            continue
        if isinstance(t, Raw):
            if t.sub:
                out.extend(normalise(t.sub, walker, drop_inc))
                continue
            if out and isinstance(out[-1], Raw) and t.frame and out[-1].frame == t.frame and t.n is not None and out[-1].n is not None \
                    and out[-1].srcs == t.srcs and t.lit is None and out[-1].lit is None and t.n == 1:
                m = merge_raw(out[-1], t)
                out[-1] = m
                continue
            out.append(t)
        elif isinstance(t, Loop):
            b = normalise(t.body, walker, drop_inc)
            real = [x for x in b if not isinstance(x, Inc)]
            if not b:
                continue
            if len(real) == 1 and isinstance(real[0], Loop):
                L = real[0]
                L2 = Loop(L.node)
                L2.body = L.body
                L2.srcs = L.srcs | t.srcs
                L2.items = L.items | t.items
                out.append(L2)
                out.extend(x for x in b if isinstance(x, Inc))
                continue
            L2 = Loop(t.node)
            L2.body, L2.srcs, L2.items = b, t.srcs, t.items
            out.append(L2)
        elif isinstance(t, Gate):
            a, b = normalise(t.then, walker, drop_inc), normalise(t.els, walker, drop_inc)
            pre = []
            while a and b and same_shape(a[0], b[0]):
                pre.append(join(a[0], b[0], t.key))
                a, b = a[1:], b[1:]
            suf = []
            while a and b and same_shape(a[-1], b[-1]):
                suf.insert(0, join(a[-1], b[-1], t.key))
                a, b = a[:-1], b[:-1]
            out.extend(pre)
            if a or b:
                if not [x for x in a if not isinstance(x, (Loop, Inc))] and not [x for x in b if not isinstance(x, (Loop, Inc))] and not (a and b):
                    # zero or more repetitions anyway
                    out.extend(a or b)
                else:
                    out.append(Gate(t.node, t.key, a, b))
            out.extend(suf)
        else:
            out.append(t)
    return out


def merge_raw(x, y):
    m = Raw(x.n + y.n, x.node, x.frame)
    m.srcs = x.srcs | y.srcs
    m.dests = x.dests | y.dests
    m.flag = x.flag
    m.const = x.const
    m.uid = x.uid
    m.gates = getattr(x, 'gates', ())
    m.parts = getattr(x, 'parts', [x]) + getattr(y, 'parts', [y])
    m.size = x.size
    m.w = getattr(x, 'w', None)
    m.flagv = getattr(x, 'flagv', None)
    return m


def same_shape(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, Raw):
        return a.n == b.n and a.lit == b.lit
    if isinstance(a, Inc):
        return a.key == b.key
    if isinstance(a, Loop):
        return len(a.body) == len(b.body) and all(same_shape(x, y) for x, y in zip(a.body, b.body))
    if isinstance(a, Gate):
        return a.key == b.key and len(a.then) == len(b.then) and len(a.els) == len(b.els) and \
            all(same_shape(x, y) for x, y in zip(a.then + a.els, b.then + b.els))
    if isinstance(a, Rec):
        return True
    return False


def join(a, b, key):
    if isinstance(a, Raw):
        m = Raw(a.n, a.node, a.frame)
        m.srcs = a.srcs | b.srcs
        m.dests = a.dests | b.dests
        m.lit = a.lit
        m.flag = a.flag if a.flag == b.flag else None
        m.const = a.const if a.const == b.const else None
        m.uid = a.uid
        m.gates = getattr(a, 'gates', ())
        m.parts = getattr(a, 'parts', [a]) + getattr(b, 'parts', [b])
        m.size = a.size or b.size
        m.w = max(getattr(a, 'w', 0) or 0, getattr(b, 'w', 0) or 0) or None
        m.flagv = getattr(a, 'flagv', None)
        return m
    return a


def show(toks, ind=0):
    out = []
    for t in toks:
        p = '  ' * ind
        if isinstance(t, Gate):
            out.append('%sif %s   [%s]' % (p, t.key, t.where()))
            out += show(t.then, ind + 1)
            if t.els:
                out.append(p + 'else')
                out += show(t.els, ind + 1)
        elif isinstance(t, Loop):
            out.append('%sloop over %s %s   [%s]' % (p, sorted(t.srcs), sorted(t.items), t.where()))
            out += show(t.body, ind + 1)
        elif isinstance(t, Raw):
            out.append('%s%r lit=%s const=%s uid=%s [%s]' % (p, t, t.lit, t.const, t.uid, t.where()))
        else:
            out.append('%s%r' % (p, t))
    return out
