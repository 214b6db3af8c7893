"""development aid: tools/mut.py CHECK[,CHECK] FILE OLD NEW [count]  — runs checks on a scratch copy of /repo's sources with one textual change"""
import os, subprocess, sys, shutil
chk, fn, old, new = sys.argv[1:5]
M = '/tmp/mutrepo'
os.makedirs(M, exist_ok=True)
subprocess.run(['rsync', '-a', '--delete', '/repo/src', '/repo/include', '/repo/python', M + '/'], check=False) if shutil.which('rsync') else subprocess.run(
    'cp -a -u /repo/include /repo/python %s/ 2>/dev/null; mkdir -p %s/src; cp -p /repo/src/* %s/src/ 2>/dev/null' % (M, M, M), shell=True)
p = os.path.join(M, fn)
s = open(p).read()
if old not in s:
    sys.exit('OLD not found in ' + fn)
open(p, 'w').write(s.replace(old, new, int(sys.argv[5]) if len(sys.argv) > 5 else 1))
env = dict(os.environ, CG3V_REPO=M)
for c in chk.split(','):
    r = subprocess.run(['./check', c], cwd='/verif', env=env, capture_output=True, text=True)
    print(c, 'rc', r.returncode)
    print('\n'.join([x[:220] for x in r.stdout.splitlines()[1:] if not x.startswith(('KNOWN', 'VIOL'))][:4]), r.stderr[-500:])
shutil.copy2(os.path.join('/repo', fn), p)
