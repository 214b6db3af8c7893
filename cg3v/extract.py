"""Builds the extractor when it is missing and runs it over the current /repo sources."""
import hashlib, os, time, re, subprocess, sys, glob, pickle, json, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CG3V_REPO', '/repo')
BUILD = os.environ.get('CG3V_BUILD', os.path.join(VERIF, 'build'))
FLAGS = ('-x c++ -std=c++23 -w -DBOOST_NO_CXX98_FUNCTION_BASE=1 -DHAS_FS -DUNISTR_FROM_CHAR_EXPLICIT=explicit '
         '-DUNISTR_FROM_STRING_EXPLICIT=explicit -DU_CHARSET_IS_UTF8=1 -D_POSIX_C_SOURCE=200112 -DNDEBUG').split()


class Broken(Exception):
    """The analysis could not be carried out (vanished anchor, unparsable source...): neither pass nor violation."""


def _sha(paths):
    h = hashlib.sha256(b'2')
    for p in paths:
        h.update(os.path.basename(p).encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def build_extractor():
    src = os.path.join(VERIF, 'extractor', 'cg3x.cpp')
    key = _sha([src])
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'cg3x-' + key)
    if os.path.exists(out):
        return out
    tmp = out + '.tmp%d' % os.getpid()
    r = subprocess.run(['sh', os.path.join(VERIF, 'extractor', 'build.sh'), tmp], capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken('extractor does not build:\n' + r.stderr[-2000:])
    os.rename(tmp, out)
    return out


def mtime(p):
    try:
        return os.path.getmtime(p)
    except OSError:
        return 0


def sources(repo=None):
    repo = repo or REPO
    """The .cpp files that src/CMakeLists.txt compiles on POSIX."""
    txt = open(os.path.join(repo, 'src/CMakeLists.txt'), encoding='utf-8').read()
    names = []
    for m in re.finditer(r'(?<![\w/}.-])([\w-]+\.cpp)\b', txt):
        if m.group(1) not in names:
            names.append(m.group(1))
    res = [os.path.join(repo, 'src', n) for n in names if os.path.exists(os.path.join(repo, 'src', n))]
    if len(res) < 30:
        raise Broken('only %d translation units found in src/CMakeLists.txt' % len(res))
    return res


def extract(repo=None):
    """Returns list of raw entity dicts."""
    repo = repo or REPO
    allsrc = sorted(glob.glob(os.path.join(repo, 'src', '*.[ch]pp')) + glob.glob(os.path.join(repo, 'src', '*.h')) +
                    glob.glob(os.path.join(repo, 'include', '**', '*.[ch]*'), recursive=True))
    xsha = os.path.join(VERIF, 'extractor', 'cg3x.cpp')
    key = _sha(allsrc + [xsha, os.path.join(repo, 'src/CMakeLists.txt')])
    cache = os.path.join(BUILD, 'ir-' + key + '.jsonl')
    if not os.path.exists(cache):
        srcs = sources(repo)
        srcs.sort(key=lambda p: -os.path.getsize(p))
        hsha = _sha([p for p in allsrc if not p.endswith('.cpp')] + [xsha])
        os.makedirs(BUILD, exist_ok=True)
        tmpd = tempfile.mkdtemp(prefix='cg3v', dir=BUILD)
        try:
            flags = FLAGS + ['-I' + os.path.join(repo, 'include/posix'), '-I' + os.path.join(repo, 'include'), '-I' + os.path.join(repo, 'src')]
            tus = [(p, os.path.join(BUILD, 'tu-' + hsha + '-' + _sha([p]) + '.jsonl')) for p in srcs]
            todo = [(p, o) for p, o in tus if not os.path.exists(o)]
            if len(todo) > 3:
                pch = os.path.join(tmpd, 'stdafx.pch')
                with ThreadPoolExecutor(2) as ex:
                    fx = ex.submit(build_extractor)
                    fp = ex.submit(subprocess.run, ['/usr/bin/clang++-18', '-x', 'c++-header'] + flags[2:] + [os.path.join(repo, 'src/stdafx.hpp'), '-o', pch],
                                   capture_output=True)
                    exe = fx.result()
                    if fp.result().returncode == 0:
                        flags += ['-include-pch', pch]
            else:
                exe = build_extractor()

            def run(po):
                p, o = po
                out = os.path.join(tmpd, os.path.basename(p) + '.jsonl')
                r = subprocess.run([exe, out, os.path.join(repo, 'src') + '/,' + os.path.join(repo, 'include') + '/', p, '--'] + flags,
                                   capture_output=True, text=True, cwd=tmpd)
                if r.returncode == 0:
                    with open(out) as f, open(out + '.n', 'w') as g:     # independent of where the sources lie
                        for line in f:
                            g.write(line.replace(repo.rstrip('/') + '/', ''))
                    os.rename(out + '.n', o)
                return r.returncode, r.stderr
            with ThreadPoolExecutor(8) as ex:
                rs = list(ex.map(run, todo))
            for rc, err in rs:
                if rc != 0:
                    raise Broken('extraction failed (rc=%s): %s' % (rc, err[-3000:]))
            seen = set()
            t = cache + '.tmp%d' % os.getpid()
            with open(t, 'w') as o:
                for p, out in tus:
                    os.utime(out)
                    for line in open(out):
                        d = json.loads(line)
                        k = (d['kind'], d.get('id') or d.get('q') or d.get('file'), d.get('def'))
                        if k in seen:
                            continue
                        seen.add(k)
                        o.write(line)
            os.rename(t, cache)
            # keep only a few cached extractions
            for pat, n in (('ir-*.jsonl', 6), ('tu-*.jsonl', 200)):
                olds = sorted(glob.glob(os.path.join(BUILD, pat)), key=mtime)
                for p in olds[:-n]:
                    try:
                        if time.time() - os.path.getmtime(p) > 900:
                            os.unlink(p)
                    except OSError:
                        pass
        finally:
            shutil.rmtree(tmpd, ignore_errors=True)
    return [json.loads(l) for l in open(cache)]
