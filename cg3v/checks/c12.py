"""C12: nothing is left over: recycled objects, scratch variables that live on, and printers start afresh in every use."""
from ..cdep import direct
from ..effects import Effects
from ..extract import Broken
from ..ir import CALLS, args, byref_args, recv, strip
from .c05 import param_reset
from ..model import short

# scratch that is meant to hold something over from one call to the next
KEPT = {
    'cps': 'second half of a character that takes two units, kept per stream until it is asked for',
}
EMPTYING = ('clear', 'assign', 'operator=', 'reset', 'remove', 'setTo')
# members of the applicators that printing may keep
MEMBERS = {
    ('BinaryApplicator', 'header_done'): 'the header of the stream is written once',
    ('SingleWindow', 'nested_rule_to_cohorts'): 'emptied and filled when the rules inside a WITH take it up',
    ('GrammarApplicator', 'dep_highest_seen'): 'MweSplit makes new cohorts in the window, which count on',
}
# what only the programs and the start and end of the library change
STARTERS = ('main', 'cg3_init', 'cg3_cleanup')


def check(ctx):
    P = ctx.P
    ctx.rule('recycled', 'every member of an object that is used again is as in a new one', 30)
    ctx.rule('same', 'a copy made in a recycled object is the copy a new object would be', 15)
    ctx.rule('fresh', 'a scratch variable that outlives the call is emptied before it is used, on every path', 8)
    ctx.rule('reenter', 'a scratch variable that outlives the call is not used across a call that can come back to its function', 8)
    ctx.rule('carry', 'what a printer keeps in its object is made anew for each window', 1)
    ctx.rule('thread', 'what library code changes outside of objects belongs to one thread', 10)
    recycled(ctx, P)
    stacks(ctx, P)
    scratch(ctx, P)
    carry(ctx, P)
    threads(ctx, P)


# ---------------------------------------------------------------- recycled objects
def pooled(P):
    res = []
    for q in P.records:
        if q.startswith('pool<') and q.endswith('>'):
            c = short_name(q[5:-1])
            if c in P.records:
                res.append(c)
    if len(res) < 3:
        raise Broken('pools of recycled objects not found')
    return sorted(set(res))


def short_name(s):
    return s.replace('CG3::', '').strip(' *')


def own(n, f):
    """the member of *this that an expression stands for"""
    m = strip(n)
    if m is not None and m.k == 'MemberExpr' and m.get('dk') == 'Field' and m.c and strip(m.c[0]) is not None and strip(m.c[0]).k == 'CXXThisExpr':
        return m.get('m')
    return None


def const(n):
    m = strip(n)
    if m is None:
        return None
    if m.ev is not None:
        return m.ev
    if m.k == 'CXXNullPtrLiteralExpr':
        return 0
    if m.k == 'CXXBoolLiteralExpr':
        return int(m.get('v') in (True, 1, 'true'))
    if m.k == 'BinaryOperator' and m.get('op') == '=':
        return const(m.c[1])
    return None


def loop(n):
    """the parts of a range-for: (what comes before the body, body)"""
    c = [x for x in n.c if x is not None]
    return c[:-1], c[-1]


def is_empty(n):
    m = strip(n)
    if m is None:
        return False
    if m.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr', 'CXXScalarValueInitExpr'):
        return not [x for x in m.c if x is not None and x.k != 'CXXDefaultArgExpr' and not is_empty(x)]
    return False


class Resets:
    """members of *this that have the value of a new object when a method is left"""

    def __init__(self, P, cls):
        self.P, self.cls = P, cls
        self.memo = {}
        self.fresh = {}
        ctors = [f for f in P.funcs.values() if f.d.get('ctor') and f.q == '%s::%s' % (cls, cls)]
        fields = P.fields(cls)
        self.fields = [x['d'] for x in fields]
        self.types = {x['d']: x['t'] for x in fields}
        for x in fields:
            if x.get('iv') is not None:
                self.fresh[x['d']] = x['iv']
            elif x.get('ini') and x['t'].endswith('*'):
                self.fresh[x['d']] = 0
        for f in ctors:
            if f.params and cls in f.params[0]['t'] and '&' in f.params[0]['t']:
                continue
            for i in f.d.get('inits', ()):
                if i.get('w') and i.get('m') in self.types:
                    v = const(f.nodes[i['init']])
                    if v is not None:
                        self.fresh[i['m']] = v
                    else:
                        self.fresh[i['m']] = None       # depends on what it is made for
                        
    def element(self, n, f, st):
        """members set anew and members changed otherwise by one element"""
        if n.k == 'BinaryOperator' and n.get('op') == '=':
            m = own(n.c[0], f)
            if m:
                v = const(n.c[1])
                want = self.fresh.get(m, 0)
                if v is not None and (want is None or int(v) == int(want) or {int(v) & 0xffffffff} == {int(want) & 0xffffffff}):
                    st.add(m)
                else:
                    st.discard(m)
        elif n.k in ('CompoundAssignOperator',) or n.k == 'UnaryOperator' and n.get('op') in ('++', '--'):
            m = own(n.c[0], f)
            if m:
                st.discard(m)
        elif n.k in CALLS and n.k not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            fs = n.get('fs')
            rc = recv(n)
            for t, a in byref_args(n):
                m = own(a, f)
                if m and fs != 'operator=' and param_reset(self.P, n, a):
                    st.add(m)
            if n.k == 'CXXOperatorCallExpr' and fs == 'operator=':
                m = own(n.c[1], f)
                if m:
                    (st.add if is_empty(n.c[2]) or const(n.c[2]) == 0 else st.discard)(m)
                return
            if rc is not None:
                m = own(rc, f)
                if m:
                    if fs in ('clear', 'reset') and not [x for x in args(n) if x is not None and x.k != 'CXXDefaultArgExpr' and const(x) != 0]:
                        st.add(m)
                    elif fs in ('push_back', 'insert', 'emplace', 'emplace_back', 'assign', 'append', 'resize', 'swap', 'operator[]') and n.k == 'CXXMemberCallExpr':
                        st.discard(m)
                    return
                if strip(rc) is not None and strip(rc).k == 'CXXThisExpr':
                    for t in self.P.targets(n):
                        if t.body is not None:
                            a, b = self.of(t)
                            st -= b
                            st |= a

    def elements_too(self, f):
        """statements that empty each element of a member: as good as new"""
        res = set()
        for st in f.body.c:
            if st is None or st.k in ('IfStmt', 'SwitchStmt'):
                continue
            ms = {own(x, f) for x in st.walk() if own(x, f)}
            inner = [st]
            if st.k in CALLS:
                inner += [self.P.funcs[x.get('lam')].body for x in st.walk() if x.k == 'LambdaExpr' and x.get('lam') in self.P.funcs]
            elif st.k not in ('CXXForRangeStmt', 'ForStmt', 'WhileStmt'):
                continue
            ns = [x for s in inner for x in s.walk()]
            if any(x.k in ('IfStmt', 'ContinueStmt', 'BreakStmt', 'ReturnStmt', 'ConditionalOperator') for x in ns):
                continue
            for x in ns:
                if x.k == 'CXXMemberCallExpr' and x.get('fs') == 'clear' and recv(x) is not None and len(ms) == 1 and own(recv(x), f) is None:
                    m = next(iter(ms))
                    if short((recv(x).t or '').split('<')[0].strip(' &')) in self.types[m] or (recv(x).t or '').replace('CG3::', '').strip(' &') in self.types[m].replace('CG3::', ''):
                        res.add(m)
        return res

    def of(self, f, depth=0):
        """(set anew at the end, possibly changed otherwise)"""
        if f.id in self.memo:
            return self.memo[f.id]
        self.memo[f.id] = (set(), set())
        ins = {f.cfg.entry: set()}
        work = [f.cfg.entry]
        touched = set()
        while work:
            b = work.pop()
            st = set(ins[b])
            B = f.cfg.b[b]
            for e in B.els:
                if not isinstance(e, tuple):
                    for n in ([e] if e.k != 'DeclStmt' else list(e.walk())):
                        was = set(st)
                        self.element(n, f, st)
                        touched |= was - st
            if B.nr:
                continue
            for t in B.succ:
                if t < 0:
                    continue
                new = st if t not in ins else ins[t] & st
                if t not in ins or new != ins[t]:
                    ins[t] = set(new)
                    work.append(t)
        end = set(ins.get(f.cfg.exit, set()))
        end |= self.elements_too(f)
        r = (end, touched)
        self.memo[f.id] = r
        return r


def every_path(f, node):
    """an element is executed on every path through a function"""
    work, seen = [f.cfg.entry], set()
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        if any(not isinstance(e, tuple) and e.i == node.i for e in f.cfg.b[b].els):
            continue
        if b == f.cfg.exit:
            return False
        if f.cfg.b[b].nr:
            continue
        work += [t for t in f.cfg.b[b].succ if t >= 0]
    return True


def reuse(P, cls):
    """functions that take an object out of the pool, and the variable that holds it"""
    res = []
    for f in P.funcs.values():
        if f.body is None:
            continue
        for n in f.walk():
            if n.k == 'VarDecl' and n.c and n.c[0] is not None:
                i = strip(n.c[0])
                if i is not None and i.k in CALLS and i.get('fs') == 'get' and (i.get('cls') or '').startswith('pool<') and short_name((i.get('cls') or '')[5:-1]) == cls:
                    res.append((f, n.get('id')))
    return res


def assigned(P, f, vid, depth=0):
    """member -> (right side as text, node, controlling branches) for what is put in the members of an object"""
    cd = direct(f.cfg)
    blk = {e.i: b for b, B in f.cfg.b.items() for e in B.els if not isinstance(e, tuple)}

    def stands(n):
        m = strip(n)
        while m is not None and m.k == 'UnaryOperator' and m.get('op') in ('*', '&'):
            m = strip(m.c[0])
        if m is None:
            return False
        return m.k == 'CXXThisExpr' if vid == 'this' else m.k == 'DeclRefExpr' and m.get('id') == vid
    out = {}
    for n in f.walk():
        here = frozenset(cd.get(blk.get(n.i), ()))
        if n.k == 'BinaryOperator' and n.get('op') == '=':
            l, r = strip(n.c[0]), n.c[1]
        elif n.k == 'CXXOperatorCallExpr' and n.get('fs') == 'operator=' and len(n.c) > 2:
            l, r = strip(n.c[1]), n.c[2]
        else:
            l = None
        if l is not None and l.k == 'MemberExpr' and l.get('dk') == 'Field' and l.c and stands(l.c[0]):
            out.setdefault(l.get('m'), []).append((text(r, f), n, here))
            continue
        if n.k in CALLS and depth < 2:
            ts = [t for t in P.targets(n) if t.body is not None and t.cfg is not None and t.id != f.id]
            if len(ts) != 1:
                continue
            t, who = ts[0], None
            if n.k == 'CXXOperatorCallExpr' and n.get('fs') == 'operator=' and len(n.c) > 1 and stands(n.c[1]) or recv(n) is not None and stands(recv(n)):
                who = 'this'
            else:
                for i, x in enumerate(args(n)):
                    if x is not None and stands(x) and i < len(t.params):
                        who = t.params[i]['id']
            if who is not None and t.file.startswith('src/'):
                for m, l in assigned(P, t, who, depth + 1).items():
                    for tx, nd, cs in l:
                        out.setdefault(m, []).append((tx, nd, here if not cs else here | {('in', t.id)} | cs))
    return out


def text(n, f):
    """expression with the (only) parameter of the function called o"""
    m = strip(n)
    if m is None:
        return ''
    if m.k in ('CXXConstructExpr',) and len([x for x in m.c if x is not None]) == 1:
        return text(m.c[0], f)
    if m.k == 'DeclRefExpr':
        v = next((x for x in f.walk() if x.k == 'VarDecl' and x.get('id') == m.get('id')), None)
        if v is not None and v.c and v.c[0] is not None and (v.t or '').endswith('&'):
            return text(v.c[0], f)
        return 'o' if any(p['id'] == m.get('id') for p in f.params) else m.get('d') or ''
    if m.k == 'MemberExpr':
        return (text(m.c[0], f) + '.' if m.c else '') + (m.get('m') or '')
    if m.k == 'CXXBoolLiteralExpr' or m.ev is not None:
        return str(const(m))
    if m.k == 'CXXNullPtrLiteralExpr':
        return '0'
    return '%s%s(%s)' % (m.k, m.get('op') or m.get('fs') or '', ','.join(text(x, f) for x in m.c if x is not None))


def recycled(ctx, P):
    for cls in pooled(P):
        R = Resets(P, cls)
        cl = P.fn(cls + '::clear')
        ctx.saw(cl)
        done, _ = R.of(cl)
        # handed back: emptied; or emptied when taken out
        called = False
        for nm in ('put', 'get'):
            for f in P.funcs.values():
                if f.body is not None and f.q.endswith('::' + nm) and f.q.startswith('pool<') and short_name(f.q[5:].split('>')[0]) == cls:
                    ctx.saw(f)
                    for n in f.walk():
                        if n.k in CALLS and any(t.id == cl.id for t in P.targets(n)) and every_path(f, n):
                            called = True
        ctx.check(called, 'recycled', cls + ':clear', '%s:%d' % (cl.file, cl.line), 'a %s is emptied when it is handed back' % cls, '%s objects are not emptied between two uses' % cls)
        allocs = reuse(P, cls)
        if not allocs:
            raise Broken('no function takes %s objects from the pool' % cls)
        for m in R.fields:
            ok = m in done
            if not ok:
                ok = all(assigned(P, f, v).get(m) for f, v in allocs)
            if not ok and (cls, m) in MEMBERS:
                ctx.note('%s.%s: %s' % (cls, m, MEMBERS[cls, m]))
                continue
            ctx.check(bool(ok), 'recycled', '%s.%s' % (cls, m), '%s:%d' % (cl.file, cl.line), '%s.%s is as new after clear() or when taken again' % (cls, m), '%s.%s of a recycled object keeps what it held before' % (cls, m))
            # made for something: set when taken again
            if R.fresh.get(m, 0) is None:
                for f, v in allocs:
                    a = assigned(P, f, v).get(m)
                    ctx.saw(f)
                    ctx.check(bool(a), 'same', '%s.%s:%s:%d' % (cls, m, f.q, len(f.params)), '%s:%d' % (f.file, f.line), 'set when a recycled object is taken', '%s.%s is not set when a recycled object is taken' % (cls, m))
        # copies
        copy = [f for f in P.funcs.values() if f.d.get('ctor') and f.q == '%s::%s' % (cls, cls) and f.params and cls in f.params[0]['t'] and '&' in f.params[0]['t'] and f.d.get('inits')]
        for f, v in allocs:
            if not (f.params and cls in f.params[0]['t'] and '&' in f.params[0]['t']):
                continue
            asg = assigned(P, f, v)
            for c in copy:
                for i in c.d['inits']:
                    m = i.get('m')
                    if m not in R.types:
                        continue
                    want = text(c.nodes[i['init']], c)
                    all_got = asg.get(m)
                    all_cs = [cs for l in asg.values() for _, _, cs in l]
                    base = max(set(all_cs), key=all_cs.count) if all_cs else frozenset()
                    got = [x for x in all_got or () if x[2] == base] or all_got
                    ok = got is not None and got[-1][0] == want and got[-1][2] == base
                    if not ok and not i.get('w') and got is None:
                        ok = True       # default in both
                    ctx.check(ok, 'same', '%s.%s:copy' % (cls, m), got[-1][1].where() if got else '%s:%d' % (f.file, f.line), 'copied as in a new object', '%s.%s is %s in a recycled copy, and %s in a new one' % (cls, m, got[-1][0] if got else 'not set', want))


def stacks(ctx, P):
    """containers that are lent out and come back: emptied when lent or when handed back"""
    fam = {}
    for f in P.funcs.values():
        if f.body is not None and f.q.startswith('scoped_stack<') and '::proxy' in f.q:
            fam.setdefault(f.q.split('>::proxy')[0] + '>', []).append(f)
    for q, fs in sorted(fam.items()):
        ok = False
        for f in fs:
            if f.q.endswith('::proxy::proxy') or '~proxy' in f.q:
                ctx.saw(f)
                for n in f.walk():
                    if n.k == 'CXXMemberCallExpr' and n.get('fs') in EMPTYING and recv(n) is not None and any(x.k == 'MemberExpr' and x.get('m') == 'cs' or x.k == 'MemberExpr' and 'vector' in (x.t or '') for x in recv(n).walk()) and every_path(f, n):
                        ok = True
        ctx.check(ok, 'recycled', 'lent:' + q, '%s:%d' % (fs[0].file, fs[0].line), 'what %s lends is empty' % q, '%s lends a container that still holds what an earlier borrower put in it' % q)


# ---------------------------------------------------------------- scratch variables
def uses(f, vid):
    return [n for n in f.walk() if n.k == 'DeclRefExpr' and n.get('id') == vid]


def top_call(n):
    """what is done with a variable: the call it is the receiver or the left side of"""
    a = n
    p = a.p
    while p is not None and p.k in ('ImplicitCastExpr', 'ParenExpr'):
        a, p = p, p.p
    if p is not None and p.k == 'MemberExpr' and p.p is not None and p.p.k == 'CXXMemberCallExpr' and strip(p.p.c[0]) is not None and p.p.c[0].i == p.i:
        return p.p
    if p is not None and p.k == 'CXXOperatorCallExpr' and len(p.c) > 1 and p.c[1] is not None and any(x.i == n.i for x in p.c[1].walk()):
        return p
    return None


def emptied(n, vid):
    """the variable a node mentions gets a value that does not depend on what it held"""
    c = top_call(n)
    if c is None:
        p = n.p
        while p is not None and p.k in ('ImplicitCastExpr', 'ParenExpr'):
            p = p.p
        return p is not None and p.k == 'BinaryOperator' and p.get('op') == '=' and strip(p.c[0]) is not None and strip(p.c[0]).i == n.i and not any(x.k == 'DeclRefExpr' and x.get('id') == vid for x in p.c[1].walk())
    fs = c.get('fs')
    others = [x for a in args(c) if a is not None for x in a.walk() if x.k == 'DeclRefExpr' and x.get('id') == vid and x.i != n.i]
    if fs == 'resize' and args(c) and const(args(c)[0]) == 0:
        return True
    if fs == 'str' and args(c):
        return not others
    if fs in EMPTYING and not others:
        return fs != 'remove' or not args(c)
    return False


def scratch(ctx, P):
    stat = {}
    for g in P.globals.values():
        if g.get('sl') and not g.get('const'):
            stat.setdefault(g['id'], g)
    comes = Comes(P)
    seen = set()
    for f in P.funcs.values():
        if f.body is None or f.cfg is None:
            continue
        vids = {n.get('id') for n in f.walk() if n.k == 'DeclRefExpr' and n.get('id') in stat}
        for vid in sorted(vids):
            g = stat[vid]
            if (f.file, g['line'], g['d']) in seen:
                continue
            seen.add((f.file, g['line'], g['d']))
            ctx.saw(f)
            name = '%s:%s' % (f.q.split('<')[0].rsplit('::', 1)[-1] if '<' in f.q else f.q.rsplit('::', 1)[-1], g['d'])
            if '<' in f.q:
                name = f.q.split('<')[0] + '::' + f.q.rsplit('::', 1)[-1] + ':' + g['d']
            where = '%s:%d' % (g['file'], g['line'])
            if g['d'] in KEPT:
                ctx.note('%s: %s' % (name, KEPT[g['d']]))
                continue
            bad = first_use(f, vid)
            ctx.check(bad is None, 'fresh', name, (bad or f.body).where() if bad is not None else where, '%s is emptied before it is used' % g['d'], '%s is used here with what an earlier call left in it' % g['d'])
            bad = across(P, f, vid, comes)
            ctx.check(bad is None, 'reenter', name, bad[1].where() if bad else where, 'nothing that can come back to %s is called while %s is in use' % (f.q, g['d']), '%s is used after a call that can come back to %s and change it (%s)' % (g['d'], f.q, bad[1].get('fs') if bad else ''))


def first_use(f, vid):
    """a use of a variable that is reached without its having been emptied first"""
    work, seen = [f.cfg.entry], set()
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        stop = False
        for e in f.cfg.b[b].els:
            if isinstance(e, tuple) or e.k == 'DeclStmt':
                continue
            if e.k == 'DeclRefExpr' and e.get('id') == vid:
                if emptied(e, vid):
                    stop = True
                    break
                if not aliasing(e):
                    return e
        if not stop:
            work += [t for t in f.cfg.b[b].succ if t >= 0]
    return None


def aliasing(e):
    return False


class Comes:
    """functions from which a function can be entered"""

    def __init__(self, P):
        self.P = P
        self.callees = {}

    def out(self, f):
        if f.id not in self.callees:
            s = set()
            for n in f.walk():
                if n.k in CALLS:
                    s |= {t.id for t in self.P.targets(n) if t.body is not None}
                elif n.k == 'LambdaExpr' and n.get('lam') in self.P.funcs:
                    s.add(n.get('lam'))
            self.callees[f.id] = s
        return self.callees[f.id]

    def to(self, fid):
        """ids of functions that may enter fid"""
        ch = True
        res = {fid}
        fs = [f for f in self.P.funcs.values() if f.body is not None]
        while ch:
            ch = False
            for f in fs:
                if f.id not in res and self.out(f) & res:
                    res.add(f.id)
                    ch = True
        return res


def across(P, f, vid, comes):
    """(use, call): the variable is used after a call that may come back to its function, not emptied in between"""
    back = comes.to(f.id)
    # state: None, or the call that came back since the variable was filled
    start = (f.cfg.entry, None)
    work, seen = [start], set()
    nodes = {}
    while work:
        b, hot = work.pop()
        if (b, hot) in seen:
            continue
        seen.add((b, hot))
        for e in f.cfg.b[b].els:
            if isinstance(e, tuple):
                continue
            if e.k == 'DeclRefExpr' and e.get('id') == vid:
                if emptied(e, vid):
                    hot = None
                elif hot is not None:
                    return e, nodes[hot]
            elif e.k in CALLS and any(t.id in back for t in P.targets(e)):
                nodes[e.i] = e
                hot = e.i
        # iterators and references into the variable: a range-for holds them across its body
        work += [(t, hot) for t in f.cfg.b[b].succ if t >= 0]
    # iterated over: a call in the body that comes back
    for n in f.walk():
        if n.k == 'CXXForRangeStmt' and any(x.k == 'DeclRefExpr' and x.get('id') == vid for c in loop(n)[0] for x in c.walk()):
            for x in loop(n)[1].walk():
                if x.k in CALLS and any(t.id in back for t in P.targets(x)):
                    return n, x
    return None


# ---------------------------------------------------------------- printers
def carry(ctx, P):
    E = Effects(P, lambda f: f.q.rsplit('::', 1)[-1] in ('mergeMappings', 'mergeReadings', 'error', 'addTag'))
    fam = [f for f in P.funcs.values() if f.body is not None and f.q.rsplit('::', 1)[-1] == 'printSingleWindow']
    if len(fam) < 6:
        raise Broken('printSingleWindow of the formats not found')
    for f in sorted(fam, key=lambda f: f.file):
        cls = f.q.rsplit('::', 1)[0]
        if cls in ('FormatConverter',):
            continue
        ctx.saw(f)
        out, seen = E.effects([f])
        ms = sorted({a for a, n, g in out if a[0].endswith('Applicator') and not (a[0] != cls and a[0] in [x.q.rsplit('::', 1)[0] for x in fam] and a[0] != 'GrammarApplicator')})
        for a in ms:
            if a[1].startswith('did_warn'):
                continue
            if a in MEMBERS:
                ctx.note('%s.%s: %s' % (a[0], a[1], MEMBERS[a]))
                continue
            bad = first_member(P, f, a, E)
            ctx.check(bad is None, 'carry', '%s:%s.%s' % (cls, a[0], a[1]), (bad or f.body).where() if bad is not None else '%s:%d' % (f.file, f.line), '%s is emptied for each window' % a[1], '%s.%s is used here with what an earlier window left in it' % a)
    ctx.assumptions.append('what a variable points to is not followed: streams and converters handed to the library belong to who made them')
    ctx.check(True, 'carry', 'family', fam[0].file, '%d printers looked at' % len(fam), '')


def first_member(P, f, a, E):
    uses_it = {}

    def mentions(g, depth=0):
        if g.id not in uses_it:
            uses_it[g.id] = False
            uses_it[g.id] = any(n.k == 'MemberExpr' and n.get('m') == a[1] and short(n.get('mc') or '') == a[0] or n.k in CALLS and any(t.body is not None and mentions(t, depth + 1) for t in P.targets(n)) for n in g.walk()) if depth < 8 else False
        return uses_it[g.id]
    work, seen = [f.cfg.entry], set()
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        stop = False
        for e in f.cfg.b[b].els:
            if isinstance(e, tuple):
                continue
            if e.k == 'MemberExpr' and e.get('m') == a[1] and short(e.get('mc') or '') == a[0]:
                if emptied_member(e, a):
                    stop = True
                    break
                return e
            if e.k in CALLS and any(t.body is not None and mentions(t) for t in P.targets(e)):
                return e
        if not stop:
            work += [t for t in f.cfg.b[b].succ if t >= 0]
    return None


def emptied_member(e, a):
    p = e.p
    while p is not None and p.k in ('ImplicitCastExpr', 'ParenExpr'):
        p = p.p
    if p is not None and p.k == 'MemberExpr' and p.p is not None and p.p.k == 'CXXMemberCallExpr':
        return p.p.get('fs') in EMPTYING
    if p is not None and p.k == 'CXXOperatorCallExpr' and p.get('fs') == 'operator=' and any(x.i == e.i for x in p.c[1].walk()):
        return True
    return p is not None and p.k == 'BinaryOperator' and p.get('op') == '=' and any(x.i == e.i for x in p.c[0].walk())


# ---------------------------------------------------------------- threads
def threads(ctx, P):
    E = Effects(P)
    roots = [f for f in P.funcs.values() if f.body is not None and (f.q.rsplit('::', 1)[-1] in ('runGrammarOnText', 'runGrammarOnWindow', 'parse_grammar', 'readBinaryGrammar', 'printSingleWindow') or f.q.startswith('cg3_') and f.q not in STARTERS)]
    if len(roots) < 40:
        raise Broken('functions of the library not found')
    seen = E.reach(roots)
    gl = {g['id']: g for g in P.globals.values() if not g.get('const') and g['file'].startswith('src/')}
    used = {}
    for fid, (f, _, _) in seen.items():
        ctx.saw(f)
        for n in f.walk():
            if n.k == 'DeclRefExpr' and n.get('id') in gl:
                used.setdefault(n.get('id'), []).append((n, f))
    written = {}
    for gid, ns in used.items():
        for n, f in ns:
            if writes(P, n, f):
                written.setdefault(gid, []).append((n, f))
    for gid, ns in sorted(written.items(), key=lambda kv: gl[kv[0]]['d']):
        g = gl[gid]
        n, f = ns[0]
        ctx.check(bool(g.get('tls')), 'thread', '%s%s' % (g['d'], ':' + f.q.split('<')[0].rsplit('::', 1)[-1] if g.get('sl') else ''), n.where(), '%s is kept for each thread' % g['d'], '%s is changed by library code (%s) and shared by all threads' % (g['d'], E.chain(seen, f.id)))
    ctx.note('%d library functions, %d variables with static storage used in them, %d changed' % (len(seen), len(used), len(written)))


CONST = ('size', 'empty', 'begin', 'end', 'find', 'count', 'at', 'c_str', 'data', 'operator[]', 'get', 'front', 'back', 'length', 'cbegin', 'cend', 'good', 'operator*', 'operator->', 'operator bool')


def writes(P, n, f):
    """a mention of a variable that may change it"""
    a, p = n, n.p
    if 'const ' in (n.t or '') and not (n.t or '').endswith('*'):
        return False
    while p is not None:
        if p.k in ('ImplicitCastExpr', 'ParenExpr', 'ArraySubscriptExpr') or p.k == 'MemberExpr' and p.get('dk') == 'Field':
            if p.k == 'ImplicitCastExpr' and p.get('ck') == 'LValueToRValue':
                return False
            if p.k == 'ArraySubscriptExpr' and p.c[0] is not None and not any(x.i == n.i for x in p.c[0].walk()):
                return False
            a, p = p, p.p
            continue
        break
    if p is None:
        return False
    if p.k in ('BinaryOperator', 'CompoundAssignOperator'):
        return (p.get('op') or '').endswith('=') and p.get('op') not in ('==', '!=', '<=', '>=') and any(x.i == n.i for x in p.c[0].walk())
    if p.k == 'UnaryOperator':
        return p.get('op') in ('++', '--', '&')
    if p.k == 'MemberExpr':
        c = p.p
        if c is not None and c.k in CALLS:
            return not (c.get('fs') in CONST and not (c.get('fs') in ('operator[]', 'data', 'front', 'back', 'at') and writes_result(c)))
        return False
    if p.k == 'CXXOperatorCallExpr':
        if p.get('fs') == 'operator*':
            return False                    # what it points to
        if p.get('fs') in ('operator=', 'operator+=', 'operator++', 'operator--', 'operator<<', 'operator>>'):
            return p.c[1] is not None and any(x.i == n.i for x in p.c[1].walk())
        if p.get('fs') in ('operator[]', 'operator*', 'operator->'):
            return writes_result(p)
        return False
    if p.k in CALLS:
        pt = p.get('pt') or []
        if 'unique_ptr<std::' in (n.t or '') or 'unique_ptr<std::' in (n.get('t') or ''):
            return False                    # a stream that is written to
        ar = args(p)
        for i, x in enumerate(ar):
            if x is not None and any(y.i == n.i for y in x.walk()):
                t = pt[i] if i < len(pt) else ''
                return t.endswith('&') and 'const ' not in t or t.endswith('*') and 'const ' not in t and '[' in (n.t or '')
        return False
    return False


def writes_result(c):
    """what an access gives is changed"""
    a, p = c, c.p
    while p is not None and (p.k in ('ImplicitCastExpr', 'ParenExpr', 'ArraySubscriptExpr') or p.k == 'MemberExpr' and p.get('dk') == 'Field' or p.k == 'CXXOperatorCallExpr' and p.get('fs') == 'operator[]' or p.k == 'UnaryOperator' and p.get('op') == '&'):
        if p.k == 'ImplicitCastExpr' and p.get('ck') == 'LValueToRValue':
            return False
        if p.k == 'UnaryOperator':
            return True
        a, p = p, p.p
    if p is None:
        return False
    if p.k in ('BinaryOperator', 'CompoundAssignOperator'):
        return (p.get('op') or '').endswith('=') and p.get('op') not in ('==', '!=', '<=', '>=') and any(x.i == a.i for x in p.c[0].walk())
    if p.k == 'UnaryOperator':
        return p.get('op') in ('++', '--')
    if p.k == 'MemberExpr' and p.p is not None and p.p.k in CALLS:
        return p.p.get('fs') not in CONST
    if p.k == 'CXXOperatorCallExpr':
        return p.get('fs') in ('operator=', 'operator+=')
    return False
