"""Control-flow helpers: leaf conditions of branches, path exploration, forward dataflow."""
from .ir import strip, N


def leafcond(B):
    """(expression, negated) deciding this block's two-way branch; (None, False) if there is none."""
    n = strip(B.cond)
    if n is None or len(B.succ) != 2 or (B.term is not None and B.term.k == 'SwitchStmt'):
        return None, False
    neg = False
    while n is not None:
        if n.k == 'UnaryOperator' and n.get('op') == '!':
            neg = not neg
            n = strip(n.c[0])
        elif n.k == 'BinaryOperator' and n.get('op') in ('&&', '||'):
            n = strip(n.c[1])
        else:
            break
    return n, neg


def topcond(n):
    """the outermost expression of the condition n is part of"""
    t = n
    for a in n.ancestors():
        if a.k in ('IfStmt', 'WhileStmt', 'ForStmt', 'DoStmt', 'ConditionalOperator', 'CompoundStmt', 'DeclStmt', 'ReturnStmt', 'CXXForRangeStmt', 'SwitchStmt'):
            break
        t = a
    return t


def contains(root, n):
    while n is not None:
        if n is root:
            return True
        n = n.p
    return False


def forced_true(n):
    """for leaf n of a condition: the sibling conjuncts that hold whenever the conjunction n stands in holds"""
    res = []
    m = n
    for a in n.ancestors():
        if a.k == 'BinaryOperator' and a.get('op') == '&&':
            res.append(a.c[1] if contains(a.c[0], n) else a.c[0])
        elif a.k in ('IfStmt', 'WhileStmt', 'ForStmt', 'DoStmt', 'ConditionalOperator', 'CompoundStmt', 'DeclStmt', 'ReturnStmt'):
            if a.k == 'IfStmt' and contains(a.c[1], n) and not negated(n, a):
                res += [x.c[1] for x in nested(a)]
            break
        m = a
    return res


def negated(n, top):
    return any(a.k == 'UnaryOperator' and a.get('op') == '!' or a.k == 'BinaryOperator' and a.get('op') == '||' for a in _upto(n, top))


def _upto(n, top):
    for a in n.ancestors():
        if a is top:
            return
        yield a


def nested(a):
    """the ifs that make up the whole of what an if does: if (a) if (b) is if (a && b)"""
    res = []
    while len(a.c) < 4 or a.c[3] is None:
        b = a.c[2]
        while b is not None and b.k == 'CompoundStmt':
            st = [x for x in b.c if x is not None and x.k != 'NullStmt']
            b = st[0] if len(st) == 1 else None
        if b is None or b.k != 'IfStmt' or b.c[0] is not None or (b.get('cv') is not None and b.get('cv') >= 0) or (len(b.c) > 3 and b.c[3] is not None):
            break
        res.append(b)
        a = b
    return res


def block_of(f, n):
    """(block id, index) of the CFG element that is node n"""
    for b in f.cfg.b.values():
        for i, e in enumerate(b.els):
            if e is n:
                return b.id, i
    return None


def forward(f, init, transfer, edge=None, join=None, start=None):
    """worklist dataflow; states are hashable or comparable values, join(a,b) merges, transfer(state, element)->state,
    edge(state, block, succ_index)->state or None (infeasible).  Returns {block id: in-state}."""
    cfg = f.cfg
    ins = {cfg.entry if start is None else start: init}
    work = list(ins)
    while work:
        b = work.pop()
        s = ins[b]
        B = cfg.b[b]
        for e in B.els:
            s = transfer(s, e)
            if s is None:
                break
        if s is None or B.nr:
            continue
        for i, t in enumerate(B.succ):
            if t < 0:
                continue
            s2 = edge(s, B, i) if edge else s
            if s2 is None:
                continue
            if t in ins:
                m = join(ins[t], s2)
                if m == ins[t]:
                    continue
                ins[t] = m
            else:
                ins[t] = s2
            work.append(t)
    return ins
