"""Writes DESIGN.md: hand-written text (below) with the rules of each check, the planted bugs, fixes and findings filled in."""
import glob, json, os, re, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS
from details import HEAD, DETAILS, TAIL
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [HEAD.strip(), '', '## Properties and how each is decided', '',
       'Every check prints one obligation per instance of a rule; the number after a rule is the least number of instances below which the run counts as broken (exit 3).', '']
seeds = {}
for m in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
kf = open(os.path.join(root, 'known_findings.txt')).read().splitlines()
for p in sorted((p for p in PROPS if 'na' not in p), key=lambda p: p['id']):
    i = p['id']
    out += ['### %s — %s' % (i, p['title']), '', '*Decided by*: %s.' % p['technique'], '']
    src = open(os.path.join(root, 'cg3v', 'checks', i.lower() + '.py')).read()
    seen = set()
    for a, b, n in re.findall(r"ctx\.rule\('(\w+)', '((?:[^'\\]|\\.)*)', (\d+)", src):
        if a not in seen:
            seen.add(a)
            out.append('* `%s` (%s): %s' % (a, n, b.replace("\\'", "'")))
    out += ['', ' '.join(DETAILS[i].split()), '', '*Limits*: ' + p['note'], '', '*Why tests cannot settle it*: ' + p['why'], '']
    if i in seeds:
        out += ['*Planted bugs caught*: ' + '; '.join('`%s` (%s)' % (s, d['needs']) for s, d in seeds[i]) + '.', '']
    k = [l for l in kf if l.startswith('known: property=' + i)]
    if k:
        out += ['*Known findings* (recorded, not repaired):', ''] + ['* ' + re.sub(r'known: property=\S+ key=(\S+) ', r'`\1`: ', l) for l in k] + ['']
out += ['## Properties static analysis does not decide here', '']
for p in PROPS:
    if 'na' in p:
        out.append('* **%s %s** — %s' % (p['id'], p['title'], ' '.join(p['na'].split())))
out += ['', '## Defects found by the checks and repaired', '', 'Each is a `fix:` commit in /repo; the check passes on the repaired tree and reports the violation if it returns.', '']
for l in kf:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        out.append('* %s `%s`: %s' % m.groups())
out += ['', '## Planted bugs', '', 'All confirmed by tools/seed.sh: they compile, pass the stable tests, and their demonstration fails with the change and passes without.', '', '| change | property | caught by | what it breaks |', '|---|---|---|---|']
for i in sorted(seeds):
    for s, d in seeds[i]:
        out.append('| %s | %s | %s | %s |' % (s, i, d.get('caught', i), d['what_it_breaks'].replace('|', '\\|')))
out += ['', TAIL.strip(), '']
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len(out), 'lines')
