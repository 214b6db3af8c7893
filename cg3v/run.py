"""python3 -m cg3v.run ID [--tier quick|thorough] [-v]

exit 0: property held on everything analysed; 1: VIOLATION line printed; 3: the analysis itself could not be carried out."""
import importlib, json, os, re, sys, time, traceback
from .extract import Broken, VERIF
from . import ir


class Ctx:
    def __init__(self, P, pid, tier, seed):
        self.P, self.pid, self.tier, self.seed = P, pid, tier, seed
        self.obl = []          # (rule, where, what, ok)
        self.viol = []         # (key, where, msg)
        self.funcs = set()
        self.rules = {}
        self.notes = []
        self.assumptions = []
        self.selftests = 0

    def rule(self, name, text, minimum=1):
        """declare a rule; fewer than `minimum` obligations of it means the analysis lost its anchors."""
        self.rules[name] = (text, minimum)

    def ok(self, rule, where, what):
        self.obl.append((rule, where, what, True))

    def bad(self, rule, key, where, msg):
        self.obl.append((rule, where, msg, False))
        self.viol.append(('%s/%s' % (rule, key), where, msg))

    def check(self, cond, rule, key, where, what, msg=None):
        if cond:
            self.ok(rule, where, what)
        else:
            self.bad(rule, key, where, msg or ('not satisfied: ' + what))
        return bool(cond)

    def saw(self, *fns):
        for f in fns:
            self.funcs.add(f)

    def note(self, s):
        self.notes.append(s)

    def selftest(self, cond, what):
        self.selftests += 1
        if not cond:
            raise Broken('self-test failed: ' + what)


def load_known(pid):
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3).strip()
    return res


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    verbose = '-v' in argv
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    sys.setrecursionlimit(20000)
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    try:
        mod = importlib.import_module('cg3v.checks.' + pid.lower())
        P = ir.Program()
        ctx = Ctx(P, pid, tier, seed)
        mod.check(ctx)
        cnt = {}
        for r, w, s, ok in ctx.obl:
            cnt[r] = cnt.get(r, 0) + 1
        for r, (text, minimum) in ctx.rules.items():
            if cnt.get(r, 0) < minimum:
                raise Broken('rule %s of %s found only %d instances (at least %d expected): anchors vanished' % (r, pid, cnt.get(r, 0), minimum))
        for r in cnt:
            if r not in ctx.rules:
                raise Broken('undeclared rule ' + r)
        if not ctx.obl:
            raise Broken('no obligations')
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 3
    except Exception:
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        traceback.print_exc()
        return 3
    known = load_known(pid)
    seen, new, old = set(), [], []
    for key, where, msg in ctx.viol:
        if key in seen:
            continue
        seen.add(key)
        (old if key in known else new).append((key, where, msg))
    nob = len(ctx.obl)
    nok = sum(1 for o in ctx.obl if o[3])
    samples = []
    per = {}
    for r, w, s, ok in ctx.obl:
        if per.get(r, 0) < 6:
            per[r] = per.get(r, 0) + 1
            samples.append('%s [%s] %s: %s' % ('ok' if ok else 'FAIL', r, w, s))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current sources; every obligation below was derived from /repo on this run. '
                           + ' '.join('%s: %s' % (r, t[0]) for r, t in ctx.rules.items()),
            'obligations': nob, 'discharged': nok,
            'translation_units': len(P.tus),
            'functions_in_program': len(P.funcs),
            'functions_analysed': len({f.id for f in ctx.funcs}),
            'obligations_per_rule': cnt,
            'self_tests': ctx.selftests,
            'known_findings': [k for k, w, m in old],
            'samples': samples,
            'notes': ctx.notes,
        },
        'assumptions': ctx.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d translation units, %d functions analysed, %d obligations, %d discharged; per rule: %s' % (
        pid, len(P.tus), ev['coverage']['functions_analysed'], nob, nok, ', '.join('%s=%d' % x for x in sorted(cnt.items()))))
    if verbose:
        for r, w, s, ok in ctx.obl:
            print('  %s [%s] %s: %s' % ('ok  ' if ok else 'FAIL', r, w, s))
        for s in ctx.notes:
            print('  note: ' + s)
    for key, where, msg in old:
        print('KNOWN-FINDING: property=%s key=%s %s: %s' % (pid, key, where, known[key] or msg))
    if new:
        rp = os.path.join('evidence', pid + '.report.txt')
        with open(os.path.join(VERIF, rp), 'w') as f:
            for key, where, msg in new:
                f.write('%s: %s\n    rule/instance: %s\n    rule text: %s\n' % (where, msg, key, ctx.rules[key.split('/')[0]][0]))
        for key, where, msg in new:
            print('  %s: %s   [%s]' % (where, msg, key))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
