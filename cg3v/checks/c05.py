"""C05: recycled readings, cohorts, windows and scratch containers are indistinguishable from new ones."""
import re
from ..extract import Broken
from ..ir import CALLS, N, args, byref_args, canon, is_call, recv, strip
from .. import flow
from ..cdep import transitive

# fields whose old content is never looked at
EXEMPT_CLEAR = {
    ('SingleWindow', 'nested_rule_to_cohorts'): 'scratch set: every user clears it right after obtaining it',
}
# copies start with fresh match results
FRESH_IN_COPY = {('Reading', 'matched_target'), ('Reading', 'matched_tests')}


def this_field(n, cls, names=None):
    """field name when n is this->f / f of cls, None otherwise"""
    n = strip(n)
    if n is not None and n.k == 'MemberExpr' and n.get('dk') == 'Field' and n.c and strip(n.c[0]).k == 'CXXThisExpr':
        return n.get('m')
    return None


class ClearAnalysis:
    """must-analysis of which members of *this hold their initial value at each point of a member function"""

    def __init__(self, P, f, cls, init):
        self.P, self.f, self.cls, self.init = P, f, cls, init
        self.fields = {x['d']: x for x in P.fields(cls)}
        self.loopvars = {}
        for n in f.walk():
            if n.k == 'CXXForRangeStmt':
                rng = [this_field(m, cls) for m in n.walk() if m.k == 'MemberExpr']
                rng = [r for r in rng if r in self.fields]
                lv = [v for v in n.walk() if v.k == 'VarDecl' and not (v.get('d') or '').startswith('__')]
                if rng and lv:
                    # the range is a member, or a list of addresses of members
                    head = [c for c in n.c if c is not None and c.k != 'CompoundStmt']
                    hd = [this_field(m, cls) for h in head for m in h.walk() if m.k == 'MemberExpr']
                    hd = [r for r in hd if r in self.fields]
                    if hd:
                        self.loopvars[lv[0].get('id')] = (hd[0], lv[0], n, hd)
        # nested loops over a member the outer loop variable points to
        for n in f.walk():
            if n.k == 'CXXForRangeStmt':
                lv = [v for v in n.walk() if v.k == 'VarDecl' and not (v.get('d') or '').startswith('__')]
                if lv and lv[0].get('id') not in self.loopvars:
                    for c in n.c:
                        if c is None or c.k == 'CompoundStmt':
                            continue
                        for m in c.walk():
                            if m.k == 'DeclRefExpr' and m.get('id') in self.loopvars:
                                o = self.loopvars[m.get('id')]
                                self.loopvars[lv[0].get('id')] = (o[0], lv[0], n, o[3])
        # ranges of range-for statements over a field are exempt from "read after reset" (empty containers)
        self.late = []       # reads after reset
        self.freed = set()   # containers whose elements are handed back, and pointers handed back
        self.other = []      # calls on other objects: deregistrations

    def equals_init(self, name, v):
        v = strip(v)
        iv = self.init.get(name)
        if v.k == 'CXXNullPtrLiteralExpr' and iv in (0, None, 'null'):
            return True
        if v.ev is not None and iv is not None and iv != 'null':
            return int(v.ev) == int(iv)
        if v.ev is not None and int(v.ev) == 0 and iv in ('null', 0):
            return True
        # f = {} / f = T()
        if v.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr', 'CXXScalarValueInitExpr') and not v.c:
            return True
        return False

    def transfer(self, s, e):
        if s is None or not isinstance(e, N):
            return s
        if e.k == 'BinaryOperator' and e.get('op') == '=':
            # chained: a = b = c
            name = this_field(e.c[0], self.cls)
            if name:
                v = strip(e.c[1])
                while v.k == 'BinaryOperator' and v.get('op') == '=':
                    v = strip(v.c[1])
                return s | {name} if self.equals_init(name, v) else s - {name}
        elif e.k == 'CompoundAssignOperator':
            name = this_field(e.c[0], self.cls)
            if name and not (e.get('op') == '&=' and name in s):
                return s - {name}
        elif e.k == 'CXXOperatorCallExpr' and e.get('op') == '=' and len(e.c) >= 2:
            name = this_field(e.c[1], self.cls)
            if name:
                v = strip(e.c[2])
                return s | {name} if self.equals_init(name, v) else s - {name}
        elif e.k == 'CXXMemberCallExpr':
            r = recv(e)
            name = this_field(r, self.cls) if r is not None else None
            if name and (e.get('fs') == 'clear' or e.get('fs') == 'reset' and not args(e)):
                return s | {name}
            if name and e.get('fs') == 'resize' and args(e) and strip(args(e)[0]).ev == 0:
                return s | {name}
            if name and name in s and e.get('fs') == 'resize' and '<' in self.cls:
                return s      # container filled with empty slots again
            if name and e.get('fs') in ('insert', 'push_back', 'emplace_back', 'emplace', 'resize', 'assign', 'append'):
                return s - {name}
            if r is not None and strip(r).k == 'CXXThisExpr':
                for t in self.P.targets(e):
                    sub = must_reset(self.P, t, self.cls, self.init)
                    return s | sub
        if e.k in CALLS:
            fr = freeing(self.P, e)
            for t, a in byref_args(e):
                name = this_field(a, self.cls)
                if name and (fr or param_reset(self.P, e, a)):
                    return s | {name}
        return s

    def run(self):
        f = self.f
        fields = frozenset(self.fields)

        def join(a, b):
            return a & b
        ins = flow.forward(f, frozenset(), self.transfer, None, join)
        self.ins = ins
        out = ins.get(f.cfg.exit)
        if out is None:
            raise Broken('%s never returns' % f.q)
        # elementwise resets: for (auto& x : field) x.clear();
        for vid, (name, v, st, names) in self.loopvars.items():
            for n in st.walk():
                if is_call(n, 'clear') and recv(n) is not None:
                    r = strip(recv(n))
                    if r.k == 'UnaryOperator' and r.get('op') == '*':
                        r = strip(r.c[0])
                    if r.k == 'DeclRefExpr' and r.get('id') == vid and ('&' in (v.t or '') or '*' in (v.t or '')):
                        out = out | set(names)
        # reads after reset
        for b, s in ins.items():
            for e in f.cfg.b[b].els:
                if isinstance(e, N) and e.k == 'MemberExpr':
                    name = this_field(e, self.cls)
                    if name in s and not self.write_context(e):
                        self.late.append((name, e))
                if isinstance(e, N) and e.k in CALLS:
                    fr = freeing(self.P, e)
                    if fr:
                        for t, a in byref_args(e):
                            nm = this_field(a, self.cls)
                            a2 = strip(a)
                            got = set()
                            if nm:
                                got = {nm}
                            elif a2.k == 'DeclRefExpr' and a2.get('id') in self.loopvars:
                                got = set(self.loopvars[a2.get('id')][3])
                            if got and self.depends(b, got):
                                got = set()
                            self.freed |= got
                        # the recycled object reads our members through its back pointer
                        for nm in fr & set(s):
                            self.late.append((nm, e))
                s = self.transfer(s, e)
        return out

    def depends(self, b, names):
        """is the block reached only under a condition on something else than the members handed back?"""
        if not hasattr(self, 'cd'):
            self.cd = transitive(self.f.cfg)
        for a, _ in self.cd.get(b, ()):
            B = self.f.cfg.b[a]
            if B.cond is None or B.term is None or B.term.k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
                continue
            here = {this_field(m, self.cls) for m in B.cond.walk() if m.k == 'MemberExpr'} & set(self.fields)
            if here and not here & names:
                return True
        return False

    def write_context(self, e):
        p = e.p
        while p is not None and p.k in ('ParenExpr', 'ImplicitCastExpr', 'CXXStaticCastExpr'):
            p = p.p
        if p is None:
            return False
        if p.k == 'BinaryOperator' and p.get('op') == '=' and strip(p.c[0]) is e:
            return True
        if p.k == 'CXXOperatorCallExpr' and p.get('op') == '=' and len(p.c) > 1 and strip(p.c[1]) is e:
            return True
        if p.k == 'CompoundAssignOperator' and strip(p.c[0]) is e:
            return True
        if p.k == 'MemberExpr' and p.get('m') in ('clear', 'reset', 'shrink_to_fit', 'resize'):
            return True
        if p.k in CALLS and freeing(self.P, p):
            return True
        return False


_must = {}


def must_reset(P, f, cls, init):
    if f.id in _must:
        return _must[f.id]
    _must[f.id] = frozenset()
    if f.cfg and f.cls == cls:
        _must[f.id] = frozenset(ClearAnalysis(P, f, cls, init).run())
    return _must[f.id]


def pools(P):
    res = {}
    for g in P.globals.values():
        m = re.match(r'(?:CG3::)?pool<(?:CG3::)?(\w+)>$', g['t'].replace('const ', ''))
        if m:
            res[m.group(1)] = g
    return res


def param_reset(P, call, a):
    """does the callee empty the container it is given by reference?"""
    for t in P.targets(call):
        if not t.cfg:
            continue
        i = args(call).index(a) - (len(args(call)) - len(t.params))
        if not 0 <= i < len(t.params):
            continue
        pid = t.params[i]['id']

        def tr(s, e):
            if isinstance(e, N) and is_call(e, 'clear') and recv(e) is not None and strip(recv(e)).k == 'DeclRefExpr' and strip(recv(e)).get('id') == pid:
                return True
            return s
        ins = flow.forward(t, False, tr, None, lambda x, y: x and y)
        if ins.get(t.cfg.exit):
            return True
    return False


_fr = {}


def freeing(P, call):
    """non-empty set when the call recycles its argument through pool<T>::put: ('' plus the members of the owner class the recycled object reads)"""
    out = set()
    for t in P.targets(call):
        if t.id not in _fr:
            r = set()
            _fr[t.id] = r
            for n in t.walk():
                if n.k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') and t.n not in ('clear', 'put') and not is_call(n, 'put') and any(True for _ in byref_args(n)):
                    r |= freeing(P, n)
                if is_call(n, 'put') and 'pool<' in (n.get('cls') or n.get('fn') or ''):
                    r.add('')
                    m = re.search(r'pool<(?:CG3::)?(\w+)>', n.get('cls') or n.get('fn'))
                    if m:
                        # members of other classes read while clearing
                        todo = [x for x in P.fns(m.group(1) + '::clear')]
                        seen = set()
                        while todo:
                            c = todo.pop()
                            if c.id in seen:
                                continue
                            seen.add(c.id)
                            for y in c.walk():
                                if y.k == 'MemberExpr' and y.get('dk') == 'Field' and y.get('mc') != m.group(1):
                                    r.add(y.get('m'))
            _fr[t.id] = r
        out |= _fr[t.id]
    return out


def initial(P, cls, ctor):
    """field -> initial value ('null' for default-constructed, int, or expression node) after construction without regard to arguments"""
    res = {}
    for f in P.fields(cls):
        iv = f.get('iv')
        res[f['d']] = iv if iv is not None else ('null' if not f.get('bits') else 0)
    return res


def check(ctx):
    P = ctx.P
    _must.clear()
    _fr.clear()
    ctx.rule('clear', 'on every path through clear() every member of the recycled class gets back the value a new object has', 60)
    ctx.rule('order', 'clear() reads no member after that member was reset (directly or through the back pointer of an object it recycles)', 20)
    ctx.rule('teardown', 'what the destructor gives back or deregisters, clear() gives back or deregisters as well', 8)
    ctx.rule('alloc', 'an object taken from the pool gets the same member values as one built by the constructor', 60)
    ctx.rule('copy', 'copying covers every member', 50)
    ctx.rule('pool', 'objects are cleared before they enter the pool and leave the pool when handed out', 4)

    pl = pools(P)
    if len(pl) < 3:
        raise Broken('only %d pools found' % len(pl))
    for cls in sorted(pl):
        fields = {f['d']: f for f in P.fields(cls)}
        init = initial(P, cls, None)
        cl = P.fn(cls + '::clear')
        ctx.saw(cl)
        A = ClearAnalysis(P, cl, cls, init)
        out = A.run()
        w = '%s:%d' % (cl.file, cl.line)
        for f in fields:
            if (cls, f) in EXEMPT_CLEAR:
                ctx.note('%s.%s: %s' % (cls, f, EXEMPT_CLEAR[(cls, f)]))
                continue
            ctx.check(f in out, 'clear', '%s.%s' % (cls, f), w, '%s::clear resets %s' % (cls, f),
                      '%s::clear() does not reset %s on every path: a recycled object keeps the value of its previous life' % (cls, f))
        late = {}
        for nm, e in A.late:
            late.setdefault(nm, e)
        for f in fields:
            if f in late:
                ctx.bad('order', '%s.%s' % (cls, f), late[f].where(), '%s::clear() uses %s after resetting it' % (cls, f))
            else:
                ctx.ok('order', w, '%s.%s is not used after its reset' % (cls, f))
        # nested by-value members of repository classes with a clear of their own
        for f, d in fields.items():
            t = re.sub(r'^(const )?(CG3::)?', '', d['t'])
            t0 = re.sub(r'<.*', '', t)
            sub = [x for x in P.funcs.values() if x.n == 'clear' and x.cls and re.sub(r'<.*', '', x.cls) == t0 and (x.cls == t or '<' in t)]
            if t in P.records and t not in pl and sub:
                s0 = sub[0]
                ctx.saw(s0)
                subinit = initial(P, t, None)
                if s0.cls == t:
                    o2 = ClearAnalysis(P, s0, t, subinit).run()
                    for g in P.fields(t):
                        if g['d'] == 'comp':
                            continue       # stateless comparator
                        ctx.check(g['d'] in o2 or whole_fill(s0, g['d']), 'clear', '%s.%s' % (t, g['d']), '%s:%d' % (s0.file, s0.line), '%s::clear resets %s' % (t, g['d']),
                                  '%s::clear() does not reset %s' % (t, g['d']))
        # destructor against clear
        dt = P.fn(cls + '::~' + cls)
        ctx.saw(dt)
        D = ClearAnalysis(P, dt, cls, init)
        D.run()
        for f in sorted(D.freed | A.freed):
            ctx.check(f in A.freed, 'teardown', '%s.%s' % (cls, f), w, '%s::clear recycles %s' % (cls, f), '%s::clear() does not recycle %s as the destructor does' % (cls, f))
            ctx.check(f in D.freed, 'teardown', '~%s.%s' % (cls, f), '%s:%d' % (dt.file, dt.line), '~%s recycles %s' % (cls, f),
                      '~%s does not recycle %s as clear() does' % (cls, f))
        ed, ec = effects(P, dt, cls), effects(P, cl, cls)
        for x in sorted(set(ed) | set(ec)):
            ctx.check(x in ec, 'teardown', '%s:%s' % (cls, x), w, '%s::clear does %s' % (cls, x), '%s::clear() lacks %s, which the destructor does' % (cls, x))
            ctx.check(x in ed, 'teardown', '~%s:%s' % (cls, x), '%s:%d' % (dt.file, dt.line), '~%s does %s' % (cls, x), '~%s lacks %s, which clear() does' % (cls, x))

        alloc(ctx, P, cls, fields, init, pl)
        copies(ctx, P, cls, fields)

    # pool itself
    for f in P.funcs.values():
        if f.cls and re.match(r'pool<', f.cls) and f.n == 'put' and f.cfg:
            ctx.saw(f)
            ok = must_before(f, lambda e: is_call(e, 'clear') and strip(recv(e)).k == 'DeclRefExpr' and strip(recv(e)).get('id') == f.params[0]['id'],
                             lambda e: is_call(e, 'insert', 'push_back', 'emplace_back', 'emplace'))
            ctx.check(ok, 'pool', f.cls + '.put', '%s:%d' % (f.file, f.line), '%s::put clears before storing' % f.cls, '%s::put stores an object without clearing it first' % f.cls)
        if f.cls and re.match(r'pool<', f.cls) and f.n == 'get' and f.cfg:
            ctx.saw(f)
            ok = must_before(f, lambda e: is_call(e, 'back', 'front', 'begin'), lambda e: is_call(e, 'pop_back', 'erase', 'pop_front')) and \
                removes(f)
            ctx.check(ok, 'pool', f.cls + '.get', '%s:%d' % (f.file, f.line), '%s::get removes what it hands out' % f.cls, '%s::get hands out an object that stays in the pool' % f.cls)
    n = 0
    for f in P.funcs.values():
        if f.cls and 'scoped_stack<' in f.cls and f.n.startswith('~') and f.cfg:
            ctx.saw(f)
            n += 1
            ok = must_before(f, lambda e: is_call(e, 'clear'), lambda e: e.k == 'UnaryOperator' and e.get('op') == '--')
            ctx.check(ok, 'pool', f.q, '%s:%d' % (f.file, f.line), 'scratch container cleared before its slot is given back', 'a scratch container is given back uncleared')
    for f in P.funcs.values():
        if f.n in ('free_reading', 'free_cohort', 'free_swindow'):
            ctx.saw(f)
            # nulls the owner's pointer after handing the object back
            ok = False
            for e in f.walk():
                if e.k == 'BinaryOperator' and e.get('op') == '=' and strip(e.c[0]).k == 'DeclRefExpr' and strip(e.c[0]).get('id') == f.params[0]['id']:
                    v = strip(e.c[1])
                    ok = v.k == 'CXXNullPtrLiteralExpr' or v.ev is not None and int(v.ev) == 0
            isref = f.params[0]['t'].replace(' ', '').endswith('*&')
            ctx.check(ok and isref, 'pool', f.n, '%s:%d' % (f.file, f.line), '%s nulls the pointer it was given' % f.n, '%s leaves the caller a pointer to a recycled object' % f.n)
    ctx.assumptions.append('clear() of standard containers, ICU strings and boost containers empties them')


def whole_fill(f, name):
    """std::fill / loop assignment over an array member"""
    for n in f.walk():
        if is_call(n, 'fill', 'fill_n', 'memset') and any(m.k == 'MemberExpr' and m.get('m') == name for m in n.walk()):
            return True
        if n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]).k == 'ArraySubscriptExpr' and any(
                m.k == 'MemberExpr' and m.get('m') == name for m in n.c[0].walk()):
            return any(a.k in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt') for a in n.ancestors())
        if n.k == 'CXXForRangeStmt' and any(m.k == 'MemberExpr' and m.get('m') == name for m in n.walk()):
            return any(x.k == 'BinaryOperator' and x.get('op') == '=' for x in n.walk())
    return False


def must_before(f, first, second):
    """on every path, an element satisfying `first` occurs before any satisfying `second`; and `second` occurs"""
    hit = [0]
    bad = [False]

    def tr(s, e):
        if not isinstance(e, N):
            return s
        if first(e):
            return True
        if second(e):
            hit[0] += 1
            if not s:
                bad[0] = True
        return s
    ins = flow.forward(f, False, tr, None, lambda a, b: a and b)
    hit[0] = 0
    bad[0] = False
    for b, s in ins.items():
        for e in f.cfg.b[b].els:
            s = tr(s, e)
    return hit[0] > 0 and not bad[0]


def removes(f):
    """every path that reads an element also removes one"""
    bad = [False]

    def tr(s, e):
        if not isinstance(e, N):
            return s
        if is_call(e, 'back', 'front', 'begin'):
            return 'owed'
        if is_call(e, 'pop_back', 'erase', 'pop_front'):
            return 'paid'
        return s
    ins = flow.forward(f, 'paid', tr, None, lambda a, b: 'owed' if 'owed' in (a, b) else 'paid')
    return ins.get(f.cfg.exit) == 'paid'


def effects(P, f, cls):
    """erasures from containers of other objects and relinking of neighbours, as text with members resolved"""
    res = set()
    todo, seen = [f], set()
    while todo:
        g = todo.pop()
        if g.id in seen:
            continue
        seen.add(g.id)
        for n in g.walk():
            if is_call(n, 'erase') and recv(n) is not None:
                r = strip(recv(n))
                if r.k == 'MemberExpr' and this_field(r, cls) is None and r.get('dk') == 'Field':
                    res.add('erase from %s.%s' % (r.get('mc'), r.get('m')))
            if n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]).k == 'MemberExpr' and strip(n.c[0]).get('dk') == 'Field' \
                    and this_field(n.c[0], cls) is None and strip(strip(n.c[0]).c[0]).k == 'MemberExpr':
                base = strip(strip(n.c[0]).c[0])
                if this_field(base, cls):
                    rv = strip(n.c[1])
                    rt = this_field(rv, cls) or ('null' if rv.k == 'CXXNullPtrLiteralExpr' or rv.ev is not None else '?')
                    res.add('relink %s.%s = %s' % (base.get('m'), strip(n.c[0]).get('m'), rt))
            if n.k == 'CXXMemberCallExpr' and recv(n) is not None and strip(recv(n)).k == 'CXXThisExpr':
                todo += [t for t in P.targets(n) if t.cls == cls]
    return res


def subst(n, m):
    """canonical text with declaration ids replaced"""
    s = canon(n)
    for a, b in m.items():
        s = s.replace('d:' + a, b)
    return s


def alloc(ctx, P, cls, fields, init, pl):
    for f in list(P.funcs.values()):
        gets = [n for n in f.walk() if is_call(n, 'get') and re.search(r'pool<(CG3::)?%s>' % cls, (n.get('cls') or n.get('fn') or ''))] if f.cfg else []
        if not gets or f.cls:
            continue
        ctx.saw(f)
        w = '%s:%d' % (f.file, f.line)
        news = [n for n in f.walk() if n.k == 'CXXNewExpr']
        if len(news) != 1:
            raise Broken('%s: no unique fresh construction' % f.q)
        ce = [n for n in news[0].walk() if n.k == 'CXXConstructExpr' and n.get('cls') == cls]
        if not ce:
            raise Broken('%s: constructor not found' % f.q)
        ct = P.funcs.get(ce[0].get('fid'))
        if ct is None:
            raise Broken('%s: constructor body not found' % f.q)
        # object variable
        var = None
        for a in gets[0].ancestors():
            if a.k == 'VarDecl':
                var = a.get('id')
                break
            if a.k == 'BinaryOperator' and a.get('op') == '=':
                var = strip(a.c[0]).get('id')
                break
        # constructor values
        argmap = {p['id']: canon(a) for p, a in zip(ct.params, args(ce[0]))}
        fresh = {}
        for i in ct.d.get('inits', ()):
            if i.get('m') in fields:
                if i['init'] >= 0 and not i.get('ic'):
                    nd = ct.nodes[i['init']]
                    fresh[i['m']] = norm(subst(nd, argmap), nd)
        fresh_body = body_assigns(P, ct, lambda b: strip(b).k == 'CXXThisExpr')
        # pooled values: assignments through the variable
        pooled = {}
        pooled_body = set()
        for n in f.walk():
            nm, val = assign_to(n, var)
            if nm in fields:
                if depends_on_self(val, var):
                    pooled_body.add(nm)
                else:
                    pooled[nm] = norm(canon(val), val)
        # must happen on every path on which the pool gave an object
        missing = must_assign(f, var, set(pooled), news[0])
        for nm in fields:
            iv = init[nm]
            dflt = '0' if iv in ('null', 0) else str(iv)
            a = fresh.get(nm, dflt)
            b = pooled.get(nm, dflt)
            ctx.check(a == b and nm not in missing, 'alloc', '%s:%s.%s' % (f.id.split('#')[-2] if '#' in f.id else '', cls, nm), w,
                      '%s(%s): %s = %s' % (f.n, f.params[0]['t'], nm, short(a)),
                      '%s: %s is %s in a new %s but %s in a recycled one' % (f.n, nm, short(a), cls, short(b) if nm not in missing else 'not always set'))
        if fresh_body or pooled_body:
            for nm in sorted(fresh_body | pooled_body):
                ctx.check(nm in fresh_body and nm in pooled_body, 'alloc', 'body:%s.%s' % (cls, nm), w, '%s is deep-copied in both' % nm,
                          '%s is deep-copied only %s' % (nm, 'by the constructor' if nm in fresh_body else 'for recycled objects'))


def short(s):
    return re.sub(r'd:/[^,() ]*/', '', s)[:80]


def norm(s, nd):
    v = strip(nd)
    if v is not None and v.ev is not None:
        return str(int(v.ev))
    if v is not None and (v.k == 'CXXNullPtrLiteralExpr' or s == 'CXXNullPtrLiteralExpr()'):
        return '0'
    if v is not None and v.k in ('CXXConstructExpr', 'CXXScalarValueInitExpr', 'ImplicitValueInitExpr') and not v.c:
        return '0'
    if v is not None and v.k == 'CXXBoolLiteralExpr':
        return str(int(v.ev or 0))
    return s


def assign_to(n, var):
    """(field, value) for var->field = value"""
    l = None
    if n.k == 'BinaryOperator' and n.get('op') == '=':
        l, r = strip(n.c[0]), n.c[1]
    elif n.k == 'CXXOperatorCallExpr' and n.get('op') == '=' and len(n.c) == 3:
        l, r = strip(n.c[1]), n.c[2]
    if l is None or l.k != 'MemberExpr' or not l.c:
        return None, None
    b = strip(l.c[0])
    if b.k == 'DeclRefExpr' and b.get('id') == var:
        return l.get('m'), r
    return None, None


def depends_on_self(v, var):
    return any(m.k == 'DeclRefExpr' and m.get('id') == var for m in v.walk())


def body_assigns(P, ct, isself):
    res = set()
    if ct.body is None:
        return res
    for n in ct.body.walk():
        if n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]).k == 'MemberExpr' and strip(n.c[0]).c and isself(strip(n.c[0]).c[0]):
            res.add(strip(n.c[0]).get('m'))
    return res


def must_assign(f, var, names, new):
    """names not assigned on some path on which the object came from the pool"""
    def tr(s, e):
        if not isinstance(e, N):
            return s
        if e is new:
            return None
        nm, v = assign_to(e, var)
        if nm:
            return s | {nm}
        return s
    ins = flow.forward(f, frozenset(), tr, None, lambda a, b: a & b)
    out = ins.get(f.cfg.exit, frozenset())
    return {n for n in names if n not in out}


def copies(ctx, P, cls, fields):
    """copy constructor and copy assignment"""
    for f in P.funcs.values():
        if f.cls != cls or len(f.params) != 1 or not re.match(r'const (CG3::)?%s &$' % cls, f.params[0]['t']):
            continue
        if not (f.ctor or f.n == 'operator='):
            continue
        ctx.saw(f)
        w = '%s:%d' % (f.file, f.line)
        src = 'd:' + f.params[0]['id']
        vals = {}
        for i in f.d.get('inits', ()):
            if i['init'] >= 0 and not i.get('ic'):
                vals[i.get('m')] = f.nodes[i['init']]
        for n in f.walk():
            nm = None
            if n.k == 'BinaryOperator' and n.get('op') == '=':
                nm, v = this_field(n.c[0], cls), n.c[1]
            elif n.k == 'CXXOperatorCallExpr' and n.get('op') == '=' and len(n.c) == 3:
                nm, v = this_field(n.c[1], cls), n.c[2]
            if nm and nm not in vals:
                vals[nm] = v
        for nm in fields:
            v = vals.get(nm)
            good = v is not None and any(m.k == 'MemberExpr' and m.get('m') == nm and m.c and canon(m.c[0]) == src for m in v.walk())
            others = v is not None and [m.get('m') for m in v.walk() if m.k == 'MemberExpr' and m.c and canon(m.c[0]) == src and m.get('m') != nm and m.get('dk') == 'Field']
            if (cls, nm) in FRESH_IN_COPY and f.ctor and v is not None:
                good = True
            ctx.check(good and not others, 'copy', '%s:%s.%s' % (f.n, cls, nm), w, '%s copies %s' % (f.q, nm), '%s does not copy %s' % (f.q, nm))
