"""C14: no word that is read is lost; every window is run once and printed once.

Each stream reader is a small protocol machine: a word is allocated, gets its readings, is appended to the window being filled; a full window
is moved up (shuffleWindowsDown), run (runGrammarOnWindow), and at a flush and at the end everything still held is run, printed, freed and taken
off.  The readers are interpreted path by path over an abstract state (what each window / word variable denotes, whether a word is still
pending, whether the current window has been run, whether windows are still held)."""
from ..ir import CALLS, args, recv, strip, is_call, boolval
from ..extract import Broken
from ..flow import leafcond
from .. import stream

WIN, COH = 'CG3::SingleWindow *', 'CG3::Cohort *'
EVENTS = {'alloc_cohort', 'appendCohort', 'allocAppendSingleWindow', 'shuffleWindowsDown', 'runGrammarOnWindow', 'free_cohort', 'free_swindow', 'printSingleWindow'}
# not entered: what they do to words and windows is their own business (other checks), and they keep the reader's protocol state
OPAQUE = {'runGrammarOnWindow', 'delimitAt', 'initEmptySingleWindow', 'initEmptyCohort', 'splitAllMappings', 'splitMappings', 'printCohort', 'printSingleWindow', 'reflowDependencyWindow',
          'reflowReading', 'doesSetMatchCohortNormal', 'addTagToReading', 'alloc_reading', 'runGrammarOnText', 'free_swindow', 'free_cohort', 'alloc_cohort',
          'appendCohort', 'allocAppendSingleWindow', 'shuffleWindowsDown', 'back', 'index', 'resetIndexes', 'appendReading', 'runGrammarOnTextWrapperNullFlush'}
LIMIT = 400000


def kind(t):
    t = (t or '').replace('const', '').replace('class ', '').replace('struct ', '').strip()
    t = t.rstrip('&').strip()
    if t.endswith('*') and 'SingleWindow' in t and t.count('*') == 1:
        return 'w'
    if t.endswith('*') and 'Cohort' in t and t.count('*') == 1 and 'CohortSet' not in t:
        return 'c'
    return None


class _Empty:
    """X.size(), asked whether it is 0"""
    def __init__(self, n):
        self.n, self.k, self.c, self.fn, self.l, self.i, self.t, self.p = n, 'CXXMemberCallExpr', n.c, n.fn, n.l, n.i, 'bool', n.p

    def get(self, k, d=None):
        return 'empty' if k == 'fs' else self.n.get(k, d)

    def walk(self):
        return self.n.walk()


class State:
    __slots__ = ('v', 'f', '_k')
    FLAGS = {'pend': False, 'tagP': False, 'tagA': True, 'run': 'R', 'nx': 'U', 'pv': 'U', 'cur': 'N', 'dirty': False, 'two': False, 'exit': False, 'ret': None, 'prt': False}

    def __init__(self, v=None, f=None):
        self.v = dict(v or {})
        self.f = dict(f or self.FLAGS)
        self._k = None

    def copy(self):
        return State(self.v, self.f)

    def key(self):
        return (tuple(sorted(self.v.items())), tuple(self.f[k] for k in sorted(self.f)))


def is_endtag(n):
    n = strip(n)
    return n is not None and n.k in ('MemberExpr', 'DeclRefExpr') and (n.get('m') or n.get('d')) == 'endtag'


def endtag_call(x):
    return is_call(x, 'addTagToReading') and any(is_endtag(a) for a in args(x))


def name_of(n):
    n = strip(n)
    return (n.get('m') if n.k == 'MemberExpr' else n.get('d') if n.k == 'DeclRefExpr' else None) if n is not None else None


class Reader:
    def __init__(self, ctx, P, root):
        self.ctx, self.P, self.root = ctx, P, root
        self.memo = {}
        self.found = {}
        self.count = 0
        self.alias = {}
        self.fill = set()
        self.obl = {}
        self.entered = set()
        self.stack = []
        self.bools = set()
        self.objs = set()
        self.known = set()
        self.collect(root, set())
        self.correlated(root)

    # which variables windows are filled through
    def collect(self, f, seen):
        if f.id in seen or f.body is None:
            return
        seen.add(f.id)
        for n in f.walk():
            if is_call(n, 'appendCohort') and recv(n) is not None and strip(recv(n)).k == 'DeclRefExpr':
                self.fill.add(strip(recv(n)).get('id'))
            if is_call(n, 'alloc_cohort') and args(n) and strip(args(n)[0]).k == 'DeclRefExpr':
                self.fill.add(strip(args(n)[0]).get('id'))
            if n.k in CALLS:
                t = self.enters(n)
                if t is not None:
                    self.collect(t, seen)
                    # the caller's variable behind a parameter the callee fills
                    for p, a in zip(t.params, args(n)):
                        if p['id'] in self.fill and strip(a) is not None and strip(a).k == 'DeclRefExpr':
                            self.fill.add(strip(a).get('id'))

    # local bools set next to a window or word variable, and bool fields that decide about words: later branches on them are correlated
    def correlated(self, f):
        if f.cfg is None:
            return
        for B in f.cfg.b.values():
            els = [e for e in B.els if not isinstance(e, tuple)]
            ptr = any(e.k == 'BinaryOperator' and e.get('op') == '=' and strip(e.c[0]) is not None and kind(strip(e.c[0]).t) for e in els) or any(e.k in CALLS and e.get('fs') in EVENTS for e in els)
            if ptr:
                for e in els:
                    if e.k == 'BinaryOperator' and e.get('op') == '=' and strip(e.c[0]) is not None and strip(e.c[0]).k == 'DeclRefExpr' and strip(e.c[0]).t == 'bool' and boolval(e.c[1]) is not None:
                        self.bools.add(strip(e.c[0]).get('id'))
        assigned = {strip(e.c[0]).get('m') for e in f.walk() if e.k in ('BinaryOperator', 'CompoundAssignOperator') and (e.get('op') or '').endswith('=') and strip(e.c[0]) is not None and strip(e.c[0]).k == 'MemberExpr'}
        for e in f.walk():
            if e.k == 'IfStmt' and e.c[1] is not None and e.c[2] is not None and any(x.k in CALLS and x.get('fs') in EVENTS for x in e.c[2].walk()):
                for x in e.c[1].walk():
                    if x.k == 'MemberExpr' and x.t == 'bool' and (not x.c or x.c[0] is None or strip(x.c[0]).k == 'CXXThisExpr') and x.get('m') not in assigned:
                        self.known.add(x.get('m'))

    def enters(self, n):
        """the function a call is followed into, None if it is opaque"""
        if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return None
        ts = self.P.targets(n)
        if len(ts) != 1:
            return None
        t = ts[0]
        if t.body is None or t.n in OPAQUE or t.q.startswith(('std::', 'boost::')):
            return None
        return t if self.relevant(t) else None

    def relevant(self, t, depth=0, seen=None):
        k = ('rel', t.id)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        r = False
        if t.body is not None:
            for n in t.walk():
                if n.k in CALLS and (n.get('fs') in EVENTS or endtag_call(n)):
                    r = True
                elif n.k in CALLS and depth < 4 and n.k not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                    for u in self.P.targets(n):
                        if u.body is not None and u.n not in OPAQUE and (u.is_lambda or 'Applicator' in (u.cls or '') or 'Converter' in (u.cls or '')) and len(self.P.targets(n)) == 1:
                            r = r or self.relevant(u, depth + 1)
                if r:
                    break
        self.memo[k] = r
        return r

    def bad(self, rule, key, n, msg):
        self.found.setdefault((rule, '%s@%s' % (self.name, key)), ('%s:%d' % (n.fn.file, n.l) if n is not None else '%s:%d' % (self.root.file, self.root.line), msg))

    def ok(self, rule, n, msg):
        self.obl.setdefault((rule, '%s:%d' % (n.fn.file, n.l)), msg)

    def var(self, n):
        n = strip(n)
        if n is not None and n.k == 'UnaryOperator' and n.get('op') == '&' and strip(n.c[0]).k == 'DeclRefExpr' and strip(n.c[0]).get('id') in self.objs:
            n = strip(n.c[0])
        if n is not None and n.k == 'DeclRefExpr' and n.get('id') and (kind(n.t) or n.get('id') in self.objs):
            i = n.get('id')
            while i in self.alias:
                i = self.alias[i]
            return i
        return None

    def value(self, n, s):
        n = strip(n)
        if n is None:
            return ['n']
        if n.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or n.k == 'IntegerLiteral' and n.ev == 0 or n.k == 'ImplicitValueInitExpr' or n.k == 'InitListExpr' and not n.c:
            return ['n']
        v = self.var(n)
        if v is not None:
            return [s.v.get(v, '?')]
        if n.k == 'BinaryOperator' and n.get('op') == '=':
            return self.value(n.c[0], s)
        if n.k == 'BinaryOperator' and n.get('op') == ',':
            return self.value(n.c[1], s)
        if n.k == 'ConditionalOperator':
            return sorted(set(self.value(n.c[1], s)) | set(self.value(n.c[2], s)))
        if is_call(n, 'alloc_cohort'):
            return ['p']
        if is_call(n, 'allocAppendSingleWindow'):
            return ['l']
        if n.k in CALLS:
            if s.f['ret'] is not None and self.enters(n) is not None:
                return [s.f['ret']]
            fs = n.get('fs')
            if fs in ('back', 'front', 'operator[]', 'at', 'operator*'):
                r = strip(recv(n))
                if kind(n.t) == 'c':
                    return ['a'] if fs == 'back' and name_of(r) in ('cohorts', 'all_cohorts') else ['z']
                if kind(n.t) == 'w':
                    return ['l', 'n'] if (r is not None and 'Window' in (r.t or '') and name_of(r) == 'gWindow') else ['o']
            if kind(n.t) == 'w':
                return ['l', 'n'] if fs == 'back' else ['l']
            if kind(n.t) == 'c':
                return ['z']
        if kind(n.t) == 'w':
            return ['l']
        if kind(n.t) == 'c':
            return ['z']
        return ['?']

    def assign(self, var, vals, n, s, decl=False):
        out = []
        for val in vals:
            t = s.copy()
            old = t.v.get(var)
            t.v[var] = val
            if var in self.fill and not decl and old == 'l' and val == 'n' and not t.f['tagA'] and not t.f['exit']:
                self.bad('endtag', 'close', n, 'the window is closed (its variable is reset) on a path where the readings of its last word have not been given the end tag <<<')
            out.append(t)
        return out

    def eff(self, n, s):
        """states after evaluating element n"""
        f = s.f
        if n.k == 'DeclStmt':
            out = [s]
            for d in n.c:
                if d is not None and d.k == 'VarDecl' and kind(d.t):
                    out = [y for x in out for y in self.eff(d, x)]
                elif d is not None and d.k == 'VarDecl' and d.get('id') in self.bools and d.c and d.c[0] is not None:
                    out = [self.setbool(x, d.get('id'), d.c[0]) for x in out]
            return out
        if n.k == 'BinaryOperator' and n.get('op') == '=' and strip(n.c[0]) is not None and strip(n.c[0]).k == 'DeclRefExpr' and strip(n.c[0]).get('id') in self.bools:
            return [self.setbool(s, strip(n.c[0]).get('id'), n.c[1])]
        if n.k == 'VarDecl' and kind(n.t) and n.get('id'):
            if '&' in n.t and n.c and n.c[0] is not None and self.var(n.c[0]):
                self.alias[n.get('id')] = self.var(n.c[0])
                return [s]
            if n.c and n.c[0] is not None:
                return self.assign(n.get('id'), self.value(n.c[0], s), n, s, True)
            t = s.copy()
            t.v[n.get('id')] = '?'
            return [t]
        if n.k == 'BinaryOperator' and n.get('op') == '=' and kind(strip(n.c[0]).t if strip(n.c[0]) is not None else None):
            v = self.var(n.c[0])
            return self.assign(v, self.value(n.c[1], s), n, s) if v is not None else [s]
        if n.k == 'MemberExpr' and n.c:
            v = self.var(n.c[0])
            if v is not None and s.v.get(v) in ('s', 'f'):
                self.bad('stale', strip(n.c[0]).get('d'), n, '%s still points to a %s that has been freed, and its %s is used' % (strip(n.c[0]).get('d'), 'window' if kind(strip(n.c[0]).t) == 'w' else 'word', n.get('m')))
            if n.get('m') == 'readings':
                r = self.tagged(n, s)
                if r is not None:
                    return [r]
            return [s]
        if n.k == 'ReturnStmt' and n.c and n.c[0] is not None and kind(strip(n.c[0]).t):
            out = []
            for x in self.value(n.c[0], s):
                t = s.copy()
                t.f['ret'] = x
                out.append(t)
            return out
        if n.k not in CALLS:
            return [s]
        fs = n.get('fs')
        A = args(n)
        if fs == 'alloc_cohort' and A:
            t = s.copy()
            w = self.var(A[0])
            if f['pend'] and not f['exit']:
                self.bad('word', 'alloc', n, 'a new word is begun on a path where the word before it has not been added to a window')
            self.ok('word', n, 'every path to the next word has added the one before')
            if w is not None and s.v.get(w) == 'r':
                self.bad('open', 'alloc', n, 'a word is created for a window that has already been run')
            if w is not None and s.v.get(w) in ('s', 'f'):
                self.bad('stale', 'alloc', n, 'a word is created for a window that has been freed')
            t.f['pend'], t.f['tagP'], t.f['prt'] = True, False, False
            for k, x in list(t.v.items()):
                if x == 'p':
                    t.v[k] = 'z'
            return [t]
        if fs == 'appendCohort' and A:
            t = s.copy()
            w, c = self.var(recv(n)), self.var(A[0])
            if c is None:
                return [s]
            x = s.v.get(c, '?')
            if w is not None:
                y = s.v.get(w, '?')
                if y == 'r':
                    self.bad('open', 'append', n, 'a word is added to a window that has already been run (it gets no rules)')
                elif y in ('s', 'f'):
                    self.bad('stale', 'append', n, 'a word is added to a window that has been freed')
                elif y == 'n':
                    self.bad('word', 'append-null', n, 'a word is added through a window variable that is null')
                self.ok('open', n, 'the window a word is added to has not been run and is not freed')
            if x in ('a', 'z'):
                self.bad('word', 'append', n, 'the same word is added to a window twice')
            elif x == 'n':
                self.bad('word', 'append-null', n, 'a null word is added to a window')
            self.ok('word', n, 'the word added is the pending one')
            for k, z in list(t.v.items()):
                if z == 'a':
                    t.v[k] = 'z'
                elif z == 'p':
                    t.v[k] = 'a'
            if x == 'p':
                t.f['pend'] = False
                t.f['tagA'] = f['tagP']
            return [t]
        if fs == 'printCohort' and A:
            c = self.var(A[0])
            if c is not None and s.v.get(c) == 'p':
                t = s.copy()
                t.f['prt'] = True
                return [t]
            return [s]
        if fs == 'free_cohort' and A:
            c = self.var(A[0])
            if c is None:
                return [s]
            t = s.copy()
            x = s.v.get(c)
            if x == 'p':
                if not f['prt']:
                    self.bad('word', 'free', n, 'a pending word is freed without having been printed')
                self.ok('word', n, 'a word freed by the reader has been printed')
                t.f['pend'] = False
            elif x in ('a', 'z'):
                self.bad('word', 'free', n, 'a word that is in a window is freed by the reader')
            for k, z in list(t.v.items()):
                if z == x and x == 'p':
                    t.v[k] = 'f'
            t.v[c] = 'n'
            return [t]
        if fs == 'allocAppendSingleWindow':
            t = s.copy()
            t.f['dirty'], t.f['nx'], t.f['tagA'] = True, 'U', True
            for k, z in list(t.v.items()):
                if z == 'a':
                    t.v[k] = 'z'
                elif z == 'l' and k in self.fill and not f['tagA'] and not f['exit']:
                    self.bad('endtag', 'close', n, 'a new window is begun on a path where the readings of the last word of the window before have not been given the end tag <<<')
                if z == 'l':
                    t.v[k] = 'o' if k in self.fill else z
            self.ok('endtag', n, 'the last word of the window before has the end tag')
            return [t]
        if fs == 'shuffleWindowsDown':
            t = s.copy()
            if f['run'] == 'F':
                self.bad('runonce', 'skip', n, 'the next window is moved up on a path where the current one has been moved up but not run')
            self.ok('runonce', n, 'the current window has been run before it moves on')
            if f['nx'] == 'E':
                t.f['run'], t.f['cur'] = 'R', 'N'
            else:
                if not f['two'] and not f['tagA'] and any(k in self.fill and z == 'l' for k, z in s.v.items()):
                    self.bad('endtag', 'run', n, 'the window being filled is moved up to be run on a path where the readings of its last word have not been given the end tag <<<')
                t.f['run'], t.f['cur'] = 'F', 'U'
                if not f['two']:
                    for k, z in list(t.v.items()):
                        if z == 'l':
                            t.v[k] = 'r'
            t.f['nx'] = 'E' if f['nx'] == 'E' else 'U'
            t.f['pv'], t.f['two'] = 'U', False
            return [t]
        if fs == 'runGrammarOnWindow':
            t = s.copy()
            if f['run'] == 'R':
                self.bad('runonce', 'again', n, 'the rules are run on a path where the current window has already been run (no shuffleWindowsDown since)')
            self.ok('runonce', n, 'a window has been moved up since the last run')
            t.f['run'], t.f['pv'] = 'R', 'U'
            return [t]
        if fs == 'clear' and recv(n) is not None and strip(recv(n)).k == 'MemberExpr' and strip(recv(n)).get('m') == 'previous' and 'Window' in (strip(recv(n)).get('mc') or ''):
            t = s.copy()
            t.f['pv'] = 'E'
            self.drained(t)
            return [t]
        t = self.enters(n)
        if t is not None:
            return self.call(t, n, s)
        for a in A:
            v = self.var(a)
            if v is not None and s.v.get(v) in ('s', 'f') and fs not in ('free_swindow', 'free_cohort') and n.k in ('CallExpr', 'CXXMemberCallExpr'):
                self.bad('stale', 'arg', n, '%s is passed to %s although what it points to has been freed' % (strip(a).get('d'), fs))
        return [s]

    def setbool(self, s, i, e):
        t = s.copy()
        b = boolval(e)
        if b is None:
            t.v.pop(i, None)
        else:
            t.v[i] = 'T' if b else 'F'
        return t

    def tagged(self, n, s):
        """n is X->readings; inside a loop that gives every reading the end tag it marks X's word"""
        L = stream.loop_of(n)
        if L is not None and any(endtag_call(x) for x in stream.body_of(L).walk()):
            if stream.inside(n, stream.body_of(L)) and not any(endtag_call(a) for a in n.ancestors()):
                return None
        elif not any(a.k in CALLS and any(x.k == 'LambdaExpr' and x.get('lam') in self.P.funcs and any(endtag_call(y) for y in self.P.funcs[x.get('lam')].walk()) for x in a.walk()) for a in n.ancestors()):
            return None         # neither a loop nor std::for_each and the like
        b = strip(n.c[0])
        v = self.var(b)
        x = s.v.get(v) if v is not None else self.value(b, s)[0] if b is not None and b.k in CALLS else None
        if x == 'p':
            t = s.copy()
            t.f['tagP'] = True
            return t
        if x == 'a':
            t = s.copy()
            t.f['tagA'] = True
            return t
        return None

    def cond(self, n, s):
        """truth of leaf condition n in s: True, False or None; with the state for each outcome"""
        n = strip(n)
        flip = False
        while n is not None and (n.k == 'CXXRewrittenBinaryOperator' and n.c or n.k == 'UnaryOperator' and n.get('op') == '!'):
            flip = flip != (n.k == 'UnaryOperator')
            n = strip(n.c[0])
        if flip:
            r, a, b = self.cond(n, s)
            return (None if r is None else not r, b, a)
        v = self.var(n) if n is not None else None
        pos = True
        bk = n.get('id') if n is not None and n.k == 'DeclRefExpr' and n.get('id') in self.bools else 'm:' + n.get('m') if n is not None and n.k == 'MemberExpr' and n.get('m') in self.known and n.t == 'bool' else None
        if bk is not None:
            if bk in s.v:
                return (s.v[bk] == 'T', s, s)
            t, u = s.copy(), s.copy()
            t.v[bk], u.v[bk] = 'T', 'F'
            return (None, t, u)
        if v is None and n is not None and n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.get('op') in ('==', '!=') or n is not None and n.k == 'CXXOperatorCallExpr' and n.get('fs') in ('operator==', 'operator!='):
            ne = (n.get('op') == '!=') or n.get('fs') == 'operator!='
            a, b = (n.c[0], n.c[1]) if n.k == 'BinaryOperator' else (args(n) + [None, None])[:2]
            for x, y in ((a, b), (b, a)):
                if x is None or y is None:
                    continue
                m = strip(y)
                if self.var(x) is not None and m is not None and (m.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or m.k == 'IntegerLiteral' and m.ev == 0):
                    v, pos = self.var(x), ne
                    break
                if any(z.k == 'DeclRefExpr' and z.get('d') in ('STR_CMD_EXIT', 'BFC_EXIT') for z in y.walk()):
                    t = s.copy()
                    t.f['exit'] = True
                    return (None, s, t) if ne else (None, t, s)
                if m is not None and m.k == 'DeclRefExpr' and self.var(m) is not None and strip(x) is not None and is_call(strip(x), 'back') and name_of(recv(strip(x))) in ('cohorts', 'all_cohorts'):
                    if s.v.get(self.var(m)) == 'a':
                        return (not ne, s, s)
                if m is not None and m.k == 'IntegerLiteral' and m.ev == 0 and strip(x) is not None and is_call(strip(x), 'count') and any(is_endtag(z) for z in args(strip(x))):
                    t = s.copy()
                    t.f['tagA'] = True
                    return (None, t, s) if ne else (None, s, t)
        if v is None and n is not None and n.k == 'CXXMemberCallExpr' and n.get('fs') == 'count' and any(is_endtag(z) for z in args(n)):
            t = s.copy()
            t.f['tagA'] = True
            return (None, t, s)
        if v is not None:
            x = s.v.get(v, '?')
            r = False if x == 'n' else None if x == '?' else True
            if r is None:
                t, u = s.copy(), s.copy()
                t.v[v] = 'l' if self.wvar(n) else 'z'
                u.v[v] = 'n'
                return (None, t, u) if pos else (None, u, t)
            return (r == pos, s, s)
        if n is not None and n.k == 'BinaryOperator' and n.get('op') == '>' and strip(n.c[1]) is not None and strip(n.c[1]).ev == 1 and is_call(strip(n.c[0]), 'size'):
            r = strip(recv(strip(n.c[0])))
            if r is not None and r.k == 'MemberExpr' and r.get('m') in ('cohorts', 'all_cohorts') and r.c and self.var(r.c[0]) in self.fill and not s.f['tagA']:
                return (True, s, s)         # a word has been added to it, besides the one every window begins with
        em = self.emptiness(n)
        if em is not None and not em[1]:
            r, t, u = self.cond(em[0], s) if em[0] is not n else (None, s, s)
            return (None if r is None else not r, u, t)
        if em is not None:
            n = em[0]
            r = strip(recv(n))
            if r is not None and r.k == 'MemberExpr' and r.get('m') == 'next' and 'Window' in (r.get('mc') or ''):
                t, u = s.copy(), s.copy()
                t.f['nx'] = 'E'
                self.drained(t)
                return (None if s.f['nx'] != 'E' else True, t, u)
            if r is not None and r.k == 'MemberExpr' and r.get('m') == 'previous' and 'Window' in (r.get('mc') or ''):
                t, u = s.copy(), s.copy()
                t.f['pv'] = 'E'
                self.drained(t)
                return (None, t, u)
            if r is not None and r.k == 'MemberExpr' and r.get('m') in ('cohorts', 'all_cohorts') and r.c and self.var(r.c[0]) is not None:
                return (False, s, s)
        if n is not None and n.k == 'BinaryOperator' and n.get('op') in ('>', '>=', '<', '<='):
            a, b = strip(n.c[0]), strip(n.c[1])
            op = n.get('op')
            if op in ('<', '<='):
                a, b, op = b, a, {'<': '>', '<=': '>='}[op]
            if a is not None and is_call(a, 'size') and strip(recv(a)) is not None and strip(recv(a)).get('m') == 'next' and 'Window' in (strip(recv(a)).get('mc') or ''):
                k = self.least(b)
                k = (k or 0) + (op == '>')
                t = s.copy()
                t.f['two'] = k >= 2
                return (False if k >= 1 and s.f['nx'] == 'E' else None, t, s)
        return (None, s, s)

    def emptiness(self, n):
        """(X.empty() or X.size() call, True if n being true means X is empty)"""
        if n is None:
            return None
        if n.k == 'CXXMemberCallExpr' and n.get('fs') == 'empty':
            return (n, True)
        if n.k == 'CXXMemberCallExpr' and n.get('fs') == 'size':
            return (_Empty(n), False)
        if n.k == 'BinaryOperator' and n.get('op') in ('==', '!=', '>', '<', '>=', '<='):
            a, b, op = strip(n.c[0]), strip(n.c[1]), n.get('op')
            if b is not None and b.k == 'CXXMemberCallExpr' and b.get('fs') == 'size':
                a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if a is not None and a.k == 'CXXMemberCallExpr' and a.get('fs') == 'size' and b is not None and b.ev is not None:
                if (op, b.ev) in (('==', 0), ('<', 1), ('<=', 0)):
                    return (_Empty(a), True)
                if (op, b.ev) in (('!=', 0), ('>', 0), ('>=', 1)):
                    return (_Empty(a), False)
        return None

    def least(self, n):
        """least value an unsigned expression can have, as far as it is written down"""
        n = strip(n)
        if n is None:
            return None
        if n.ev is not None:
            return n.ev if n.ev >= 0 else 0
        if n.k == 'BinaryOperator' and n.get('op') == '+':
            return (self.least(n.c[0]) or 0) + (self.least(n.c[1]) or 0)
        if n.k == 'CallExpr' and n.get('fs') == 'max':
            return max([self.least(a) or 0 for a in args(n)])
        if n.k == 'DeclRefExpr' and n.get('id'):
            for y in n.fn.walk():
                if y.k == 'VarDecl' and y.get('id') == n.get('id') and 'const' in y.t and y.c and y.c[0] is not None:
                    return self.least(y.c[0])
        return 0

    def wvar(self, n):
        for x in n.walk():
            if x.k == 'DeclRefExpr' and kind(x.t):
                return kind(x.t) == 'w'
        return True

    def drained(self, t):
        if t.f['nx'] == 'E' and t.f['pv'] == 'E' and t.f['cur'] == 'N':
            t.f['dirty'] = False
            for k, z in list(t.v.items()):
                if z in ('l', 'r', 'o', 'a', 'z'):
                    t.v[k] = 's'

    def call(self, t, n, s):
        if len(self.stack) > 5 or t.id in self.stack:
            return [s]
        self.entered.add(t.q)
        k = (t.id, n.i, n.fn.id, s.key())
        if k in self.memo:
            return [x.copy() for x in self.memo[k]]
        before = dict(self.alias)
        ini = s.copy()
        ini.f['ret'] = None
        own = set()
        for p, a in zip(t.params, args(n)):
            if kind(p['t'].replace('&', '').strip() + ' *') and strip(a) is not None and strip(a).k == 'UnaryOperator' and strip(a).get('op') == '*':
                self.objs.add(p['id'])          # an object passed by reference: it is what the pointer denotes
                ini.v[p['id']] = self.value(strip(a).c[0], s)[0]
                own.add(p['id'])
                continue
            if not kind(p['t']):
                continue
            v = self.var(a)
            if '&' in p['t'] and v is not None:
                self.alias[p['id']] = v
            else:
                ini.v[p['id']] = self.value(a, s)[0]
                own.add(p['id'])
        self.stack.append(t.id)
        outs = self.run(t, ini)
        self.stack.pop()
        self.alias = before
        local = own | {x.get('id') for x in t.walk() if x.k == 'VarDecl' and kind(x.t)}
        res = {}
        for o in outs:
            u = o.copy()
            for i in local:
                u.v.pop(i, None)
            res[u.key()] = u
        self.memo[k] = list(res.values())
        return [x.copy() for x in res.values()]

    def run(self, f, init):
        """states at the normal end of f"""
        if f.cfg is None:
            raise Broken('%s has no flow graph' % f.q)
        seen = {f.cfg.entry: {init.key()}}
        work = [(f.cfg.entry, init)]
        ends = {}
        own = {x.get('id') for x in f.walk() if x.k == 'VarDecl' and kind(x.t)}
        while work:
            b, s = work.pop()
            self.count += 1
            if self.count > LIMIT:
                raise Broken('%s: too many states' % self.root.q)
            if b == f.cfg.exit:
                ends[s.key()] = s
                continue
            B = f.cfg.b[b]
            ss = [s]
            for e in B.els:
                if isinstance(e, tuple):
                    if e and e[0] == 'dtor':
                        pass
                    continue
                new = []
                for x in ss:
                    new += self.eff(e, x)
                ss = new
                if e.k in CALLS and e.get('nr'):
                    ss = []
            if B.nr or not ss:
                continue
            n, neg = leafcond(B)
            for x in ss:
                if x.f['ret'] is not None and n is None and not any(not isinstance(e, tuple) and e.k in ('ReturnStmt',) for e in B.els):
                    x = x.copy()
                    x.f['ret'] = None
                if n is None:
                    outs = [(t, x) for t in B.succ]
                else:
                    r, st, sf = self.cond(n, x)
                    outs = []
                    if r is not False:
                        outs.append((B.succ[1 if neg else 0], st))
                    if r is not True:
                        outs.append((B.succ[0 if neg else 1], sf))
                for t, y in outs:
                    if t < 0:
                        continue
                    k = y.key()
                    if k not in seen.setdefault(t, set()):
                        seen[t].add(k)
                        work.append((t, y))
        return list(ends.values())

    def check(self, whole=True):
        self.name = self.root.q.replace('CG3::', '')
        outs = self.run(self.root, State())
        if not outs:
            raise Broken('%s: no path reaches the end' % self.root.q)
        for s in outs:
            if s.f['exit']:
                continue
            if s.f['pend']:
                self.bad('word', 'end', None, 'there is a path to the end of the reader on which the last word has not been added to a window')
            if whole and s.f['dirty']:
                self.bad('drain', 'end', None, 'there is a path to the end of the reader on which windows are still held: not all of next has been run, or not all of previous printed')
            if s.f['run'] == 'F':
                self.bad('runonce', 'end', None, 'there is a path to the end of the reader on which a window has been moved up but not run')
        return outs


def reach(P, f, names, depth=0, seen=None):
    seen = set() if seen is None else seen
    if f.id in seen or f.body is None or depth > 4:
        return False
    seen.add(f.id)
    for n in f.walk():
        if n.k in CALLS and n.get('fs') in names:
            return True
    for n in f.walk():
        if n.k in CALLS and n.k not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            for t in P.targets(n):
                if t.is_lambda or 'Applicator' in (t.cls or '') and t.n not in ('runGrammarOnText', 'runGrammarOnTextWrapperNullFlush'):
                    if reach(P, t, names, depth + 1, seen):
                        return True
    return False


def taken(ctx, P):
    """every loop that takes windows off `previous`: each one printed, freed and erased exactly once"""
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not f.file.startswith('src/'):
            continue
        if not any(x.k == 'MemberExpr' and x.get('m') == 'previous' and 'Window' in (x.get('mc') or '') for x in f.walk()):
            continue
        for L in stream.loops_of(f):
            body = stream.body_of(L)
            own = [x for x in body.walk() if x.k in CALLS and stream.loop_of(x) is L]
            lv = {d.get('id') for c in L.c if c is not None for d in c.walk() if d.k == 'VarDecl' and kind(d.t)} if L.k == 'CXXForRangeStmt' and any(x.k == 'MemberExpr' and x.get('m') == 'previous' and 'Window' in (x.get('mc') or '') for c in L.c if c is not None and c is not body for x in c.walk()) else set()
            acts = {k for x in own for k in ('printSingleWindow', 'free_swindow') if is_call(x, k)} | {'erase' for x in own if is_call(x, 'erase', 'pop_front') and name_of(recv(x)) == 'previous'}
            if len(acts) < 2:
                continue

            def src(e, depth=0):
                """is e the front of previous?"""
                e = strip(e)
                if e is None or depth > 4:
                    return False
                if is_call(e, 'operator[]', 'at') and strip(args(e)[-1]).ev != 0:
                    return False
                if is_call(e, 'front', 'operator*', 'operator[]', 'at'):
                    return name_of(recv(e)) == 'previous' or is_call(e, 'operator*') and any(is_call(x, 'begin') and name_of(recv(x)) == 'previous' for x in e.walk())
                if e.k == 'DeclRefExpr' and e.get('id') in lv:
                    return True
                if e.k == 'DeclRefExpr':
                    for d in f.walk():
                        if d.k == 'VarDecl' and d.get('id') == e.get('id') and d.c and d.c[0] is not None:
                            return src(d.c[0], depth + 1)
                        if d.k == 'BinaryOperator' and d.get('op') == '=' and strip(d.c[0]).k == 'DeclRefExpr' and strip(d.c[0]).get('id') == e.get('id') and src(d.c[1], depth + 1):
                            return True
                return False

            def event(e):
                if is_call(e, 'printSingleWindow') and args(e) and src(args(e)[0]):
                    return 'print'
                if is_call(e, 'free_swindow') and args(e) and src(args(e)[0]):
                    return 'free'
                if is_call(e, 'erase', 'pop_front') and name_of(recv(e)) == 'previous':
                    return 'erase'
                return None
            if len({event(e) for e in own} - {None}) < 2:
                continue
            ends = stream.iteration(f, L, event)
            where = '%s:%d' % (f.file, L.l)
            host = f.q.replace('CG3::', '')
            for k, word in (('print', 'printed'), ('free', 'freed'), ('erase', 'taken off the list')):
                c = {dict(s).get(k, 0) for s in ends}
                if k == 'erase' and lv:
                    c = {1 if any(is_call(x, 'clear') and name_of(recv(x)) == 'previous' for x in f.walk()) else 0}
                ctx.check(c == {1}, 'taken', '%s/%s' % (host, k), where, 'each window is %s once' % word,
                          'in the loop that puts out the finished windows there is a path on which a window is %s %s' % ('not ' + word if 0 in c else word, '' if 0 in c else 'twice'))
            # in this order
            pos = {}
            for b in f.cfg.b.values():
                for i, e in enumerate(b.els):
                    if not isinstance(e, tuple) and stream.inside(e, L) and event(e):
                        pos.setdefault(event(e), (b.id, i))
            if len(pos) == 3:
                good = all(before(f, L, pos[a], pos[b]) for a, b in (('print', 'free'),))
                ctx.check(good, 'taken', '%s/order' % host, where, 'a window is printed before it is freed', 'a window is freed before it is printed')
            n += 1
    return n


def before(f, L, a, b):
    if a[0] == b[0]:
        return a[1] < b[1]
    h, first = stream.loop_region(f, L)
    seen, work = set(), [b[0]]
    while work:
        x = work.pop()
        for t in f.cfg.b[x].succ:
            if t >= 0 and t != h and t not in seen:
                seen.add(t)
                work.append(t)
    return a[0] not in seen


def check(ctx):
    P = ctx.P
    ctx.rule('word', 'in every stream reader, on every path, a word that is begun is added to a window exactly once (or printed and freed) before the next one begins and before the reader ends', 15)
    ctx.rule('open', 'a word is only added to a window that has not been run yet', 10)
    ctx.rule('runonce', 'a window that is moved up is run exactly once before the next one is moved up and before the reader ends', 15)
    ctx.rule('drain', 'at every end of a reader after it has begun a window, all windows have been run and printed (the EXIT command excepted: it discards them as documented)', 6)
    ctx.rule('taken', 'wherever finished windows are put out, each one is printed once, then freed, and taken off the list', 15)
    ctx.rule('stale', 'after all windows have been put out no variable that still points to one of them is used', 6)
    ctx.rule('endtag', 'before a window is closed or run, the readings of its last word have been given the end tag', 6)
    base = P.fn('GrammarApplicator::runGrammarOnText')
    roots = [base] + [P.funcs[o] for o in P.overriders(base.id) if o in P.funcs]
    readers = [f for f in roots if f.body is not None and reach(P, f, {'allocAppendSingleWindow'})]
    parts = []
    if len(readers) < 5:
        raise Broken('only %d stream readers found' % len(readers))
    for f in sorted(readers, key=lambda f: (f.file, f.line)):
        ctx.saw(f)
        R = Reader(ctx, P, f)
        R.check()
        name = R.name
        for (rule, key), (where, msg) in sorted(R.found.items()):
            ctx.bad(rule, key, where, msg)
        for (rule, where), msg in sorted(R.obl.items()):
            ctx.check(True, rule, '%s/%s' % (name, where), where, '%s: %s' % (name, msg), '')
        for rule in ('drain', 'stale', 'endtag'):
            if not any(k[0] == rule for k in R.found):
                ctx.check(True, rule, name, '%s:%d' % (f.file, f.line), '%s: holds on every path (%d states, %s)' % (name, R.count, ', '.join(sorted(R.entered)) or 'no helper'), '')
        ctx.note('%s: %d states, helpers followed: %s' % (name, R.count, ', '.join(sorted(R.entered)) or 'none'))
    ctx.note('%d loops put out finished windows' % taken(ctx, P))
