"""The rule engine's action callbacks, specialised per rule type."""
from .ir import CALLS, args, recv, strip, canon, is_call
from .extract import Broken
from .paths import Analysis, Spec, atoms, cmp_parts


def callbacks(P):
    """(host fn, reading callback Fn, cohort callback Fn, runSingleRule Fn)"""
    rs = P.fn('GrammarApplicator::runSingleRule')
    for f in P.funcs.values():
        if f.is_lambda or f.body is None:
            continue
        for n in f.walk():
            if is_call(n, 'runSingleRule') and n.get('fid') == rs.id:
                a = args(n)
                if len(a) != 4:
                    raise Broken('runSingleRule no longer takes a reading and a cohort callback')
                return f, lam(P, f, a[2]), lam(P, f, a[3]), rs
    raise Broken('no caller of runSingleRule')


def lam(P, f, n, depth=0):
    n = strip(n)
    for x in n.walk():
        if x.k == 'LambdaExpr':
            return P.funcs[x.get('lam')]
    for x in n.walk():
        if x.k == 'DeclRefExpr' and depth < 4:
            for d in f.walk():
                if d.k == 'VarDecl' and d.get('id') == x.get('id') and d.c and d.c[0] is not None:
                    r = lam(P, f, d.c[0], depth + 1)
                    if r is not None:
                        return r
    if depth == 0:
        raise Broken('callback of %s not resolved' % f.q)
    return None


def rule_types(P):
    """rule types the engine dispatches on: enumerators compared with (or switched on) Rule::type in the engine"""
    host, rc, cc, rs = callbacks(P)
    kw = P.enum('K_SELECT', 'K_REMOVE', 'K_SUBSTITUTE')
    res = set()
    for f in P.funcs.values():
        if not f.file.endswith('GrammarApplicator_runRules.cpp'):
            continue
        for n in f.walk():
            op, a, b = cmp_parts(n)
            if op in ('==', '!='):
                for x, y in ((a, b), (b, a)):
                    if is_rule_type(x) and y is not None and y.k == 'DeclRefExpr' and y.get('dk') == 'EnumConstant':
                        res.add(y.get('d'))
            if n.k == 'SwitchStmt':
                for c in n.walk():
                    if c.k == 'CaseStmt' and c.c and c.c[0] is not None:
                        for y in c.c[0].walk():
                            if y.k == 'DeclRefExpr' and y.get('d') in kw:
                                res.add(y.get('d'))
    return {k: kw[k] for k in sorted(res) if k in kw}


def is_rule_type(n):
    n = strip(n)
    return n is not None and n.k == 'MemberExpr' and n.get('m') == 'type' and (n.get('mc') or '').endswith('Rule')


class RuleSpec(Spec):
    """folds comparisons of Rule::type under the assumption that the rule has the given type"""

    def __init__(self, P, kname, flags=None):
        self.P = P
        self.kname = kname
        self.kw = P.enum('K_SELECT', 'K_REMOVE', 'K_SUBSTITUTE')
        self.kval = self.kw[kname]
        self.aliases = {}

    def is_type(self, n, fn):
        n = strip(n)
        if is_rule_type(n):
            return True
        return False

    def fold(self, n, fn):
        op, a, b = cmp_parts(n)
        if op not in ('==', '!='):
            return None
        for x, y in ((a, b), (b, a)):
            if self.is_type(x, fn) and y is not None:
                v = self.kw.get(y.get('d')) if y.k == 'DeclRefExpr' and y.get('dk') == 'EnumConstant' else (int(y.ev) if y.ev is not None else None)
                if v is not None:
                    return (v == self.kval) == (op == '==')
        return None

    def switch(self, term, fn):
        for c in term.c:
            if c is not None and self.is_type(c, fn):
                return self.kval
        return None

    def skip(self, t):
        return t.q == 'GrammarApplicator::runSingleRule'
