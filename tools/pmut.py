"""development aid: pmut.py CHECK[,CHECK] [-v] < mutations — runs checks on scratch copies of /repo's sources in parallel.
Mutations on stdin as python literals, one per line: (label, file, old, new[, nth]) ; nth counts occurrences of old from 1."""
import ast, re, os, subprocess, sys, shutil, queue, threading
chks = sys.argv[1].split(',')
W = 6
q = queue.Queue()
for m in ast.literal_eval('[' + re.sub(r'(?m)^\((?=[\'"])', ',(', sys.stdin.read()).lstrip().lstrip(',') + ']'):
    q.put(m)
lock = threading.Lock()


def worker(k):
    M = '/tmp/pmut%d' % k
    shutil.rmtree(M, ignore_errors=True)
    os.makedirs(M)
    for d in ('src', 'include', 'python'):
        subprocess.run(['cp', '-a', os.environ.get('PMUT_BASE', '/repo').rstrip('/') + '/' + d, M + '/'], check=True)
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            break
        label, edits = m[0], ([m[1:]] if isinstance(m[1], str) else m[1])
        ok = True
        for e in edits:
            p = os.path.join(M, e[0])
            s = open(p).read()
            nth = e[3] if len(e) > 3 else 1
            pos = -1
            for _ in range(nth):
                pos = s.find(e[1], pos + 1)
                if pos < 0:
                    break
            if pos < 0:
                ok = False
                break
            open(p, 'w').write(s[:pos] + e[2] + s[pos + len(e[1]):])
        out = []
        if ok:
            for c in chks:
                r = subprocess.run(['./check', c], cwd='/verif', env=dict(os.environ, CG3V_REPO=M), capture_output=True, text=True)
                L = [x[:170] for x in r.stdout.splitlines() if not x.startswith(('KNOWN', 'VIOL', c + ':'))]
                out.append('%s rc %d %s' % (c, r.returncode, ' | '.join(x.strip() for x in L[:3 if '-v' in sys.argv else 1])) + (' ' + r.stderr[-300:] if r.returncode not in (0, 1) else ''))
        else:
            out.append('NOT APPLIED')
        for e in edits:
            shutil.copy2(os.path.join(os.environ.get('PMUT_BASE', '/repo'), e[0]), os.path.join(M, e[0]))
        with lock:
            print(label, '->', '; '.join(out), flush=True)
    shutil.rmtree(M, ignore_errors=True)


T = [threading.Thread(target=worker, args=(k,)) for k in range(W)]
[t.start() for t in T]
[t.join() for t in T]
