"""Path-set effect analysis.

For one function (under an assumption such as "the rule is of type K") it computes, for every CFG point, the set of
distinct effect histories a path from the entry can have: which effect atoms happened (and were not undone), and the
values of the local bool variables and once-initialised sentinels that decide later branches.  Calls are applied through
summaries of the same shape (one entry per distinct history and returned truth value), lambdas included."""
from collections import defaultdict
from .ir import N, CALLS, is_call, args, recv, strip, canon, byref_args
from .extract import Broken

MUT = {'push_back', 'emplace_back', 'insert', 'erase', 'clear', 'swap', 'resize', 'assign', 'pop_back', 'emplace', 'push_front', 'pop_front',
       'operator=', 'operator+=', 'append', 'remove', 'replace', 'insert_or_assign', 'try_emplace', 'sort', 'reset', 'set', 'unset', 'flip', 'erase_n', 'put'}
ELEM = {'begin', 'end', 'rbegin', 'rend', 'back', 'front', 'at', 'find', 'operator[]', 'lower_bound', 'upper_bound', 'operator*', 'operator->', 'data', 'base', 'get', 'value', 'second',
        'operator++', 'operator--', 'operator+', 'operator-', 'find_n', 'cbegin', 'cend', 'begin_', 'operator+=', 'operator-='}
MAX_STATES = 20000


class Root:
    """what an lvalue expression denotes: a field (of a class), a local variable or a parameter; deep: an element of it"""
    __slots__ = ('kind', 'cls', 'field', 'base', 'deep', 'id', 'node')

    def __init__(self, kind, cls=None, field=None, base=None, deep=False, id=None, node=None):
        self.kind, self.cls, self.field, self.base, self.deep, self.id, self.node = kind, cls, field, base, deep, id, node

    def __repr__(self):
        return '<%s %s.%s %s%s>' % (self.kind, self.cls, self.field, self.id or '', ' deep' if self.deep else '')


class FnInfo:
    def __init__(self, f):
        self.f = f
        self.decl = {}
        self.assigned = defaultdict(int)
        for n in f.walk():
            if n.k == 'VarDecl':
                self.decl[n.get('id')] = n
        self.params = {p['id']: i for i, p in enumerate(f.params)}
        self.ptypes = [p['t'] for p in f.params]
        for n in f.walk():
            t = None
            if n.k in ('BinaryOperator', 'CompoundAssignOperator') and (n.get('op') or '').endswith('=') and n.get('op') not in ('==', '!=', '<=', '>='):
                t = strip(n.c[0])
            elif n.k == 'UnaryOperator' and n.get('op') in ('++', '--', '&'):
                t = strip(n.c[0])
            if t is not None and t.k == 'DeclRefExpr':
                self.assigned[t.get('id')] += 1


class Spec:
    """what to track.  Override the hooks."""
    name = ''

    def fold(self, n, fn):
        """constant truth value of a leaf condition, or None"""
        return None

    def fold_env(self, n, env, fn, A):
        """as fold, with the history at hand"""
        return None

    def tracks(self, d):
        """follow the constant value of this local (through value())"""
        return False

    def value(self, n, env, fn, A):
        return None

    def mut(self, root, op, node, fn):
        """effect atoms [(sign, atom)] of a mutation `op` of what `root` denotes"""
        return ()

    def node(self, n, fn):
        """effect atoms of evaluating element n (after its operands)"""
        return ()

    def env_node(self, n, env, fn, A):
        """as node, with the history at hand"""
        return ()

    def assume(self, n, val, fn):
        """effect atoms of branching on leaf condition n with value val"""
        return ()

    def infeasible(self, n, val, env, fn):
        """leaf condition n cannot have value val on a path with history env"""
        return False

    def call(self, n, fn):
        """[Fn] override of call targets, or None"""
        return None

    def bind(self, atom, call, target, fn, A):
        """what an atom of a called function is called in the caller (None: it does not matter there)"""
        return atom

    def once(self, B, fn):
        """paths on which the loop decided by block B is not entered at all are left out"""
        return False

    def skip(self, target):
        """do not look into this function"""
        return False

    def dtor(self, e, fn):
        return ()

    def param_type(self, t):
        """whether mutating a reference parameter of this type can matter to the caller"""
        return True


class Analysis:
    def __init__(self, P, spec):
        self.P, self.spec = P, spec
        self.sums = {}
        self.active = set()
        self.rec = set()
        self.infos = {}
        self.visited = set()
        self.reach = None
        self.at = {}            # fn id -> {block: set of states} (of the last run)

    def info(self, f):
        if f.id not in self.infos:
            self.infos[f.id] = FnInfo(f)
        return self.infos[f.id]

    # ---- lvalues
    def root(self, n, f, depth=0):
        n = strip(n)
        if n is None or depth > 24:
            return Root('?')
        if n.k == 'MemberExpr':
            if n.get('dk') in ('CXXMethod', 'Function'):
                return Root('?')
            c = n.get('mc') or ''
            if c.startswith('std::pair') and n.c:
                r = self.root(n.c[0], f, depth + 1)
                r.deep = True
                return r
            return Root('field', c, n.get('m'), n.c[0] if n.c else None, node=n)
        if n.k == 'DeclRefExpr':
            i = self.info(f)
            vid = n.get('id')
            if vid in i.decl:
                d = i.decl[vid]
                t = (d.t or '').strip()
                isref = t.endswith('&')
                isit = 'iterator' in t or t.endswith('*')
                if d.c and d.c[0] is not None and (isref or (isit)):
                    r = self.root(d.c[0], f, depth + 1)
                    if r.kind != '?':
                        if isit and not isref:
                            if t.endswith('*') and not r.deep and r.kind != '?':
                                # pointer copy: the variable itself, not what it was read from
                                return Root('local', id=vid, node=n)
                            r.deep = True
                        return r
                return Root('local', id=vid, node=n)
            if vid in i.params:
                return Root('param', id=vid, field=i.params[vid], node=n)
            return Root('outer', id=vid, node=n)
        if n.k == 'UnaryOperator' and n.get('op') in ('*', '&', '++', '--'):
            r = self.root(n.c[0], f, depth + 1)
            if n.get('op') == '*':
                r.deep = True
            return r
        if n.k == 'ArraySubscriptExpr':
            r = self.root(n.c[0], f, depth + 1)
            r.deep = True
            return r
        if n.k in CALLS:
            fs = n.get('fs')
            rc = recv(n)
            if rc is not None and (fs in ELEM):
                r = self.root(rc, f, depth + 1)
                r.deep = True
                return r
            if n.k == 'CXXOperatorCallExpr' and len(n.c) > 1 and fs in ELEM:
                r = self.root(n.c[1], f, depth + 1)
                r.deep = True
                return r
            if fs in ('find', 'find_if', 'move', 'forward', 'begin', 'end', 'next', 'prev', 'reversed', 'lower_bound', 'remove', 'remove_if', 'ref', 'unique', 'get'):
                a = args(n)
                if a:
                    r = self.root(a[0], f, depth + 1)
                    if fs not in ('move', 'forward', 'ref'):
                        r.deep = True
                    return r
            if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(n.c) == 1:
                return self.root(n.c[0], f, depth + 1)
            # accessor returning a reference: a function whose every return is the same root
            if n.t and (n.t.endswith('&') or True):
                ts = self.P.targets(n)
                if len(ts) == 1 and ts[0].body is not None:
                    rets = [x for x in ts[0].walk() if x.k == 'ReturnStmt' and x.c and x.c[0] is not None]
                    if rets and len(list(ts[0].body.c)) <= 4:
                        rs = [self.root(x.c[0], ts[0], depth + 4) for x in rets]
                        if all(x.kind == 'field' and (x.cls, x.field) == (rs[0].cls, rs[0].field) for x in rs):
                            return rs[0]
        if n.k == 'ConditionalOperator':
            a, b = self.root(n.c[1], f, depth + 1), self.root(n.c[2], f, depth + 1)
            if (a.kind, a.cls, a.field) == (b.kind, b.cls, b.field) or a.kind == b.kind == 'field' and a.cls == b.cls:
                return a          # one of several members of the same kind of object: stands for either
        if n.k == 'InitListExpr' and len(n.c) == 1:
            return self.root(n.c[0], f, depth + 1)
        return Root('?')

    def target_root(self, target, op, f):
        tt = strip(target)
        if tt is not None and tt.k == 'DeclRefExpr' and op in ('=', '++', '--', '+=', '-=', 'operator=', 'operator++', 'operator--', 'operator+=', 'operator-=') \
                and tt.get('id') in self.info(f).decl and not (self.info(f).decl[tt.get('id')].t or '').strip().endswith('&'):
            return Root('local', id=tt.get('id'), node=tt)      # the variable itself (an iterator, a pointer), not what it stands at
        return self.root(target, f)

    # ---- raw effects of one element
    def raw(self, n, f):
        """list of ('A', sign, atom) or ('P', param index, op) of evaluating n itself"""
        res = [('A', s, a) for s, a in self.spec.node(n, f)]

        def mut(target, op):
            r = self.target_root(target, op, f)
            for s, a in self.spec.mut(r, op, n, f):
                res.append(('A', s, a))
            if r.kind == 'param' and self.param_ok(f, r.field):
                res.append(('P', r.field, op))
        k = n.k
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            op = n.get('op') or ''
            if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                mut(n.c[0], op)
        elif k == 'UnaryOperator' and n.get('op') in ('++', '--'):
            mut(n.c[0], n.get('op'))
        elif k in CALLS and k not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            fs = n.get('fs')
            rc = recv(n)
            ext = not self.targets(n, f) or not (n.get('fid') in self.P.funcs) or self.container_cls(n.get('cls'))
            if rc is not None and ext:
                if fs in MUT or (fs == 'operator[]' and self.maplike(n.get('cls'))):
                    mut(rc, fs)
            if k == 'CXXOperatorCallExpr' and rc is None and fs in ('operator=', 'operator|=', 'operator+='):
                mut(n.c[1], fs)
            if rc is not None and ext and fs in ('operator|=', 'operator&='):
                mut(rc, fs)
            if ext and fs not in ('get', 'find'):
                for t, a in byref_args(n):
                    if rc is not None and fs in ('swap',):
                        mut(a, 'swap')
                    elif rc is None and fs not in ('move', 'forward', 'begin', 'end', 'reversed', 'ref', 'get', 'distance', 'advance', 'operator<<', 'operator>>', 'operator=='):
                        mut(a, fs)
            if rc is None and ext and fs in ('sort', 'stable_sort', 'fill', 'reverse', 'rotate', 'iter_swap'):
                a = args(n)
                if a:
                    mut(a[0], fs)
        return res

    def param_ok(self, f, i):
        t = (f.params[i]['t'] or '').strip()
        if not t.endswith('&') or t.endswith('&&') or t.startswith('const '):
            return False
        return self.spec.param_type(t[:-1].strip())

    @staticmethod
    def container_cls(c):
        c = c or ''
        return c.startswith(('std::', 'boost::')) or 'sorted_vector<' in c or 'flat_unordered' in c or 'interval_vector<' in c or 'bloom' in c or 'sorted_vector' in c

    @staticmethod
    def maplike(c):
        c = c or ''
        return 'map<' in c

    def targets(self, n, f):
        o = self.spec.call(n, f)
        if o is not None:
            return o
        if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return []
        ts = self.P.targets(n)
        if self.container_cls(n.get('cls')):
            return []
        return [t for t in ts if not self.spec.skip(t)]

    # ---- relevance
    def relevant(self, f):
        if self.reach is None:
            self.reach = {}
        if f.id in self.reach:
            return self.reach[f.id]
        # iterative DFS over the call graph; a function is relevant if it or a callee has an own effect
        own, succ, order, stack, seen = {}, {}, [], [f], {f.id}
        while stack:
            g = stack.pop()
            order.append(g)
            o = False
            ss = []
            for n in (g.walk() if g.body is not None else ()):
                if not o and self.raw(n, g):
                    o = True
                if n.k in CALLS:
                    for t in self.targets(n, g):
                        if t.id != g.id:
                            ss.append(t)
                            if t.id not in seen and t.id not in self.reach:
                                seen.add(t.id)
                                stack.append(t)
            own[g.id], succ[g.id] = o, [t.id for t in ss]
        rel = {g for g in own if own[g] or any(self.reach.get(t) for t in succ[g])}
        ch = True
        while ch:
            ch = False
            for g in own:
                if g not in rel and any(t in rel for t in succ[g]):
                    rel.add(g)
                    ch = True
        for g in own:
            self.reach[g] = g in rel
        return self.reach[f.id]

    # ---- truth
    def truth(self, n, env, f):
        n0 = n
        n = strip(n)
        if n is None:
            return None
        if n.k == 'CXXBoolLiteralExpr':
            return bool(n.get('v') if n.get('v') is not None else n.ev)
        if ('e', n.i) in env:
            return env[('e', n.i)]
        if n.k == 'UnaryOperator' and n.get('op') == '!':
            v = self.truth(n.c[0], env, f)
            return None if v is None else not v
        if n.k == 'BinaryOperator' and n.get('op') in ('&&', '||'):
            a, b = self.truth(n.c[0], env, f), self.truth(n.c[1], env, f)
            if n.get('op') == '&&':
                if a is False or b is False:
                    return False
                return True if a and b else None
            if a is True or b is True:
                return True
            return False if a is False and b is False else None
        if n.k == 'DeclRefExpr':
            k = ('v', n.get('id'))
            if k in env and env[k] in (True, False):
                return env[k]
            # const bool initialised once
            i = self.info(f)
            d = i.decl.get(n.get('id'))
            if d is not None and d.t.replace('const ', '') == 'bool' and not i.assigned[n.get('id')] and d.c and d.c[0] is not None:
                return self.spec_truth(d.c[0], env, f)
        if n.k in CALLS and ('c', n.i) in env:
            return env[('c', n.i)]
        v = self.spec.fold(n, f)
        if v is None:
            v = self.spec.fold_env(n, env, f, self)
        if v is not None:
            return v
        if n.ev is not None and n.k in ('IntegerLiteral', 'ConstantExpr'):
            return bool(int(n.ev))
        op, a, b = cmp_parts(n)
        if op in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if x is not None and x.k == 'DeclRefExpr':
                    i = self.info(f)
                    d = i.decl.get(x.get('id'))
                    if d is not None and d.c and d.c[0] is not None and canon(d.c[0]) == canon(y) and y.k != 'DeclRefExpr':
                        s = env.get(('s', x.get('id')))
                        if s is not None:
                            return (s == 'init') == (op == '==')
        return None

    def spec_truth(self, n, env, f):
        n = strip(n)
        if n.k == 'UnaryOperator' and n.get('op') == '!':
            v = self.spec_truth(n.c[0], env, f)
            return None if v is None else not v
        if n.k == 'BinaryOperator' and n.get('op') in ('&&', '||'):
            a, b = self.spec_truth(n.c[0], env, f), self.spec_truth(n.c[1], env, f)
            if n.get('op') == '&&':
                return False if (a is False or b is False) else (True if a and b else None)
            return True if (a is True or b is True) else (False if a is False and b is False else None)
        return self.spec.fold(n, f)

    def facts(self, n, val, f):
        """[(leaf, value)] implied by expression n having truth value val"""
        n = strip(n)
        if n is None:
            return []
        if n.k == 'UnaryOperator' and n.get('op') == '!':
            return self.facts(n.c[0], not val, f)
        if n.k == 'BinaryOperator' and n.get('op') == '&&':
            return self.facts(n.c[0], True, f) + self.facts(n.c[1], True, f) if val else []
        if n.k == 'BinaryOperator' and n.get('op') == '||':
            return self.facts(n.c[0], False, f) + self.facts(n.c[1], False, f) if not val else []
        return [(n, val)]

    # ---- interpretation
    def setvar(self, env, n, val, f):
        """assignment to a variable reference n (bool value val or None)"""
        k = ('v', n.get('id'))
        if val is None:
            env.pop(k, None)
        elif n.get('id') in self.tracked(f):
            env[k] = val

    def tracked(self, f):
        """bool variables worth tracking: everything bool that is used in a condition or returned (captured ones included)"""
        i = self.info(f)
        if not hasattr(i, 'tr'):
            s = set()
            for n in f.walk():
                if n.k == 'DeclRefExpr' and n.t.replace('const ', '') == 'bool':
                    s.add(n.get('id'))
            i.tr = s
        return i.tr

    def sentinels(self, f):
        i = self.info(f)
        if not hasattr(i, 'sn'):
            s = set()
            for n in f.walk():
                op, a, b = cmp_parts(n)
                if op in ('==', '!='):
                    for x, y in ((a, b), (b, a)):
                        if x is not None and x.k == 'DeclRefExpr' and y.k != 'DeclRefExpr':
                            d = i.decl.get(x.get('id'))
                            if d is not None and d.c and d.c[0] is not None and canon(d.c[0]) == canon(y) and ('iterator' in d.t or d.t.strip().endswith('*') or fixed(d.c[0])):
                                s.add(x.get('id'))
            i.sn = s
        return i.sn

    def step(self, st, n, f):
        """state (frozenset of items) x element -> list of states"""
        env = dict(st)
        if isinstance(n, tuple):
            for s, a in self.spec.dtor(n, f):
                env[('a', a)] = s
            return [frozenset(env.items())]
        k = n.k
        out = None
        dirty = False
        if k == 'DeclStmt':
            for d in n.c:
                if d is None or d.k != 'VarDecl':
                    continue
                vid = d.get('id')
                if d.t.replace('const ', '') == 'bool' and vid in self.tracked(f):
                    v = self.truth(d.c[0], env, f) if d.c and d.c[0] is not None else None
                    env.pop(('v', vid), None)
                    if v is not None:
                        env[('v', vid)] = v
                    dirty = True
                if vid in self.sentinels(f):
                    env[('s', vid)] = 'init'
                    dirty = True
                if self.spec.tracks(d):
                    v = self.spec.value(d.c[0], env, f, self) if d.c and d.c[0] is not None else None
                    env.pop(('k', vid), None)
                    if v is not None:
                        env[('k', vid)] = v
                    dirty = True
        elif k in ('BinaryOperator', 'CompoundAssignOperator'):
            op = n.get('op') or ''
            if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                t = strip(n.c[0])
                if t is not None and t.k == 'DeclRefExpr':
                    vid = t.get('id')
                    if vid in self.tracked(f) and t.t == 'bool':
                        v = self.truth(n.c[1], env, f)
                        old = env.get(('v', vid))
                        if op == '|=':
                            v = True if (v or old) else (False if v is False and old is False else None)
                        elif op == '&=':
                            v = False if (v is False or old is False) else (True if v and old else None)
                        env.pop(('v', vid), None)
                        if v is not None:
                            env[('v', vid)] = v
                        dirty = True
                    d = self.info(f).decl.get(vid)
                    if d is not None and self.spec.tracks(d):
                        v = self.spec.value(n.c[1], env, f, self) if op == '=' else None
                        env.pop(('k', vid), None)
                        if v is not None:
                            env[('k', vid)] = v
                        dirty = True
                    if vid in self.sentinels(f):
                        env[('s', vid)] = 'init' if canon(n.c[1]) == canon(d.c[0]) and op == '=' else 'other'
                        dirty = True
        elif k == 'UnaryOperator' and n.get('op') in ('++', '--'):
            t = strip(n.c[0])
            if t is not None and t.k == 'DeclRefExpr' and t.get('id') in self.sentinels(f) and ('s', t.get('id')) in env:
                # stepping a sentinel keeps "not the initial value"
                env[('s', t.get('id'))] = 'other'
                dirty = True
        elif k == 'ReturnStmt':
            if n.c and n.c[0] is not None:
                v = self.truth(n.c[0], env, f)
                env.pop(('r',), None)
                if v is not None:
                    env[('r',)] = v
                    dirty = True
                elif (n.c[0].t or '') == 'bool':
                    # both outcomes, each with what it implies
                    outs = []
                    for v in (True, False):
                        e2 = dict(env)
                        e2[('r',)] = v
                        for leaf, lv in self.facts(n.c[0], v, f):
                            for sg, at in self.spec.assume(leaf, lv, f):
                                put(e2, sg, at)
                        outs.append(frozenset(e2.items()))
                    return outs
        for sg, at in self.spec.env_node(n, env, f, self):
            env[('a', at)] = sg
            dirty = True
        eff = self.effects(n, f)
        for x in eff:
            if x[0] == 'A':
                if env.get(('a', x[2])) != x[1]:
                    env[('a', x[2])] = x[1]
                    dirty = True
            elif x[0] == 'P':
                env[('p', x[1], x[2])] = '+'
                dirty = True
        if k in CALLS:
            ts = self.targets(n, f)
            ts = [t for t in ts if t.body is not None and t.cfg is not None]
            if ts:
                outs = set()
                base = dict(env)
                for t in ts:
                    for s in self.summary(t):
                        e = dict(base)
                        self.apply(e, s, n, f, t)
                        outs.add(frozenset(e.items()))
                return outs
        return [frozenset(env.items())] if dirty else [st]

    def apply(self, e, s, n, f, t):
        e.pop(('c', n.i), None)
        for key, val in sorted(s, key=lambda x: (x[0][0] != 'p', x[1] == '+', str(x[0]))):
            if key[0] == 'a':
                at = self.spec.bind(key[1], n, t, f, self)
                if at is not None:
                    e[('a', at)] = val
            elif key[0] in ('v', 's', 'k'):
                if key[0] == 'v' and val is None:
                    e.pop(key, None)
                else:
                    e[key] = val
            elif key[0] == 'r':
                e[('c', n.i)] = val
            elif key[0] == 'p':
                a = args(n)
                if n.k == 'CXXOperatorCallExpr' and n.get('cls'):
                    a = a[1:]
                if key[1] < len(a):
                    r = self.target_root(a[key[1]], key[2], f)
                    for sg, at in self.spec.mut(r, key[2], n, f):
                        e[('a', at)] = sg
                    if r.kind == 'param' and self.param_ok(f, r.field):
                        e[('p', r.field, key[2])] = '+'

    def effects(self, n, f):
        i = self.info(f)
        if not hasattr(i, 'eff'):
            i.eff = {}
        if n.i not in i.eff:
            i.eff[n.i] = self.raw(n, f)
        return i.eff[n.i]

    def summary(self, f):
        if f.id in self.sums:
            if f.id in self.active:
                self.rec.add(f.id)
            return self.sums[f.id]
        if not self.relevant(f):
            r = self.sums[f.id] = frozenset([frozenset()])
            return r
        self.sums[f.id] = frozenset()          # no path yet: recursion adds its base cases by iteration
        self.active.add(f.id)
        for _ in range(8):
            self.rec.discard(f.id)
            ins = self.run(f)
            new = self.exits(f, ins)
            same = new == self.sums[f.id]
            self.sums[f.id] = new
            if same or f.id not in self.rec:
                break
            # callees summarised against the old value must be redone
            for g in [g for g in self.sums if g not in self.active and g in self.touched(f)]:
                del self.sums[g]
        self.active.discard(f.id)
        self.visited.add(f)
        if not self.sums[f.id]:
            # never returns normally
            pass
        return self.sums[f.id]

    def touched(self, f):
        return set()

    def local_ids(self, f):
        return self.info(f).decl.keys()

    def exits(self, f, ins):
        res = set()
        loc = self.local_ids(f)
        par = self.info(f).params
        for st in self.exit_states(f, ins):
            items = []
            for key, val in st:
                if key[0] in ('e', 'c', 'l'):
                    continue
                if key[0] in ('v', 's', 'k') and (key[1] in loc or key[1] in par):
                    continue
                items.append((key, val))
            res.add(frozenset(items))
        return frozenset(res)

    def exit_states(self, f, ins):
        return ins.get(f.cfg.exit, set())

    def run_from(self, f, node, init=frozenset()):
        """states per block of all paths that start right behind element `node`"""
        for B in f.cfg.b.values():
            for j, e in enumerate(B.els):
                if e is node:
                    sts = [init]
                    for x in B.els[j + 1:]:
                        sts = list({t for s in sts for t in self.step(s, x, f)})
                    return self.run(f, init=[(t, s2) for s in sts for t, s2 in self.branch(s, B, f)])
        raise Broken('no CFG element for a call in %s' % f.q)

    def run(self, f, init=frozenset(), start=None):
        cfg = f.cfg
        start = cfg.entry if start is None else start
        ins = defaultdict(set)
        work = [(start, init)] if isinstance(init, frozenset) else list(init)
        for b, s in work:
            ins[b].add(s)
        # variables captured by this lambda and possibly unknown are left symbolic
        while work:
            b, s0 = work.pop()
            B = cfg.b[b]
            sts = [s0]
            for e in B.els:
                nx = []
                sn = set()
                for s in sts:
                    for t in self.step(s, e, f):
                        if t not in sn:
                            sn.add(t)
                            nx.append(t)
                sts = nx
                if not sts:
                    break
            if B.nr:
                continue
            for s in sts:
                for t, s2 in self.branch(s, B, f):
                    if s2 not in ins[t]:
                        ins[t].add(s2)
                        if len(ins[t]) > MAX_STATES:
                            raise Broken('path sets of %s grow too large' % f.q)
                        work.append((t, s2))
        self.at[f.id] = ins
        return ins

    def branch(self, s, B, f):
        succ = B.succ
        logical = B.term is not None and B.term.k == 'BinaryOperator' and B.term.get('op') in ('&&', '||')
        if len(succ) == 2 and B.cond is not None and not (B.term is not None and B.term.k == 'SwitchStmt'):
            env = dict(s)
            c = B.cond
            cn = strip(c)
            # for a logical operator, the block decides its left operand
            if logical and cn is B.term:
                cn = strip(cn.c[0])
            elif not logical and cn is not None and cn.k == 'BinaryOperator' and cn.get('op') in ('&&', '||'):
                pass
            v = self.truth(cn, env, f)
            once = B.term is not None and B.term.k in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt') and self.spec.once(B, f)
            for i, t in enumerate(succ):
                if t < 0:
                    continue
                val = (i == 0)
                if v is not None and v != val:
                    continue
                e2 = dict(env)
                if once:
                    if val:
                        e2[('l', B.id, f.id)] = True
                    elif e2.pop(('l', B.id, f.id), None) is None:
                        continue
                bad = False
                for leaf, lv in self.facts(cn, val, f):
                    lt = self.truth(leaf, env, f)
                    if self.spec.infeasible(leaf, lv, e2, f):
                        bad = True
                        break
                    if lt is not None and lt != lv:
                        bad = True
                        break
                    for sg, at in self.spec.assume(leaf, lv, f):
                        put(e2, sg, at)
                    l = strip(leaf)
                    if l.k == 'DeclRefExpr' and l.get('id') in self.tracked(f):
                        e2[('v', l.get('id'))] = lv
                    if logical:
                        e2[('e', l.i)] = lv
                if bad:
                    continue
                if logical:
                    e2[('e', cn.i)] = val
                else:
                    for q in [q for q in e2 if q[0] in ('e', 'c')]:
                        del e2[q]
                yield t, frozenset(e2.items())
            return
        if B.term is not None and B.term.k == 'SwitchStmt':
            yield from self.switch(s, B, f)
            return
        drop = [q for q, _ in s if q[0] in ('e', 'c')]
        if drop and not (B.cond is not None) and B.term is not None and B.term.k not in ('BinaryOperator',):
            env = dict(s)
            for q in drop:
                del env[q]
            s = frozenset(env.items())
        for t in succ:
            if t >= 0:
                yield t, s

    def switch(self, s, B, f):
        sel = self.spec.switch(B.term, f) if hasattr(self.spec, 'switch') else None
        lab = {}
        dflt = None
        for t in B.succ:
            if t < 0:
                continue
            L = f.cfg.b[t].label
            vals = []
            while L is not None and L.k in ('CaseStmt', 'DefaultStmt'):
                if L.k == 'CaseStmt' and L.c and L.c[0] is not None:
                    v = L.c[0].ev if L.c[0].ev is not None else strip(L.c[0]).ev
                    vals.append(int(v) if v is not None else None)
                else:
                    dflt = t
                L = L.c[-1] if L.c and L.c[-1] is not None and L.c[-1].k in ('CaseStmt', 'DefaultStmt') else None
            if not vals and dflt is None:
                dflt = t
            for v in vals:
                lab[v] = t
        if sel is None or None in lab:
            for t in B.succ:
                if t >= 0:
                    yield t, s
            return
        t = lab.get(sel, dflt)
        if t is None:
            t = [x for x in B.succ if x >= 0 and x not in lab.values()]
            t = t[0] if t else None
        if t is not None:
            yield t, s


def fixed(n):
    """an expression whose value cannot change: constants and static calls without arguments"""
    return n.ev is not None or not any(x.k in ('MemberExpr', 'CXXThisExpr') and x.get('dk') == 'Field' or x.k == 'DeclRefExpr' and x.get('dk') in ('Var', 'ParmVar') or x.k == 'CXXMemberCallExpr' for x in n.walk())


def put(env, sign, atom):
    """sign '0' forgets the atom (as if it had not happened here)"""
    if sign == '0':
        env.pop(('a', atom), None)
    else:
        env[('a', atom)] = sign


def cmp_parts(n):
    """(op, lhs, rhs) of a comparison, rewritten and overloaded ones included"""
    n = strip(n)
    if n is None:
        return None, None, None
    if n.k == 'CXXRewrittenBinaryOperator' and n.c:
        neg = False
        m = strip(n.c[0])
        if m is not None and m.k == 'UnaryOperator' and m.get('op') == '!':
            neg = True
            m = strip(m.c[0])
        op, a, b = cmp_parts(m)
        if neg:
            op = {'==': '!=', '!=': '=='}.get(op, op)
        return op, a, b
    if n.k == 'BinaryOperator' and n.get('op') in ('==', '!=', '<', '>', '<=', '>='):
        return n.get('op'), strip(n.c[0]), strip(n.c[1])
    if n.k == 'CXXOperatorCallExpr' and (n.get('fs') or '').replace('operator', '') in ('==', '!=', '<', '>', '<=', '>='):
        a = n.c[1:]
        if len(a) == 2:
            return n.get('fs').replace('operator', ''), strip(a[0]), strip(a[1])
    return None, None, None


def atoms(state):
    return {k[1] for k, v in state if k[0] == 'a' and v == '+'}
