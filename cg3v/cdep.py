"""Post-dominators and control dependence over a function's CFG."""


def postdom(cfg):
    """{block: set of post-dominating blocks}; blocks that cannot reach the exit (noreturn) are left out"""
    exit_ = cfg.exit
    succ = {}
    for b, B in cfg.b.items():
        succ[b] = [] if B.nr else [s for s in B.succ if s >= 0]
    reach = {exit_}
    work = [exit_]
    while work:
        x = work.pop()
        for p in cfg.b[x].pred:
            if p not in reach and x in succ[p]:
                reach.add(p)
                work.append(p)
    full = set(reach)
    pd = {b: full for b in reach}
    pd[exit_] = {exit_}
    order = sorted(reach)
    ch = True
    while ch:
        ch = False
        for b in order:          # clang numbers blocks from the exit upwards
            if b == exit_:
                continue
            ss = [pd[s] for s in succ[b] if s in pd]
            n = set.intersection(*ss) if ss else set()
            n = n | {b}
            if n != pd[b]:
                pd[b] = n
                ch = True
    return pd


def direct(cfg):
    """{block: set of (branch block, successor index)} direct control dependence"""
    pd = postdom(cfg)
    cd = {b: set() for b in cfg.b}
    for a, A in cfg.b.items():
        ss = [s for s in A.succ]
        if A.nr or len([s for s in ss if s >= 0]) < 2:
            continue
        for i, s in enumerate(ss):
            if s < 0:
                continue
            if s in pd:
                # every block that post-dominates s but not (strictly) a
                ap = pd.get(a, {a}) - {a}
                for x in pd[s]:
                    if x not in ap:
                        cd[x].add((a, i))
            else:
                # s never reaches the exit: blocks reachable from s only that way depend on the edge
                seen, work = {s}, [s]
                while work:
                    x = work.pop()
                    if x in pd:
                        continue
                    cd[x].add((a, i))
                    if cfg.b[x].nr:
                        continue
                    for t in cfg.b[x].succ:
                        if t >= 0 and t not in seen:
                            seen.add(t)
                            work.append(t)
    return cd


def transitive(cfg):
    """{block: set of (branch block, successor index)} closed under control dependence of the branch blocks"""
    cd = direct(cfg)
    res = {}
    for b in cfg.b:
        seen = set()
        work = list(cd[b])
        while work:
            e = work.pop()
            if e in seen:
                continue
            seen.add(e)
            if e[0] == b:
                continue
            work.extend(cd[e[0]])
        res[b] = seen
    return res


def dominators(cfg):
    pred = {b: [p for p in B.pred if not cfg.b[p].nr] for b, B in cfg.b.items()}
    reach, work = {cfg.entry}, [cfg.entry]
    while work:
        x = work.pop()
        if cfg.b[x].nr:
            continue
        for s in cfg.b[x].succ:
            if s >= 0 and s not in reach:
                reach.add(s)
                work.append(s)
    dom = {b: set(reach) for b in reach}
    dom[cfg.entry] = {cfg.entry}
    ch = True
    order = sorted(reach, reverse=True)
    while ch:
        ch = False
        for b in order:
            if b == cfg.entry:
                continue
            ps = [dom[p] for p in pred[b] if p in reach]
            n = (set.intersection(*ps) if ps else set()) | {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    return dom
