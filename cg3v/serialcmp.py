"""Alignment of a writer's token structure with a reader's."""
from .serial import Raw, Loop, Gate, Rec, Inc, neg


def only_rec(t):
    if isinstance(t, Rec):
        return True
    if isinstance(t, Loop):
        return bool(t.body) and all(only_rec(x) for x in t.body)
    if isinstance(t, Gate):
        return bool(t.then + t.els) and all(only_rec(x) for x in t.then + t.els)
    return False


def desc(t):
    if t is None:
        return 'end'
    if isinstance(t, Raw):
        s = '%s byte(s)' % (t.n if t.n is not None else 'variable')
        f = sorted(x for x in (t.srcs | t.dests))
        return s + (' of ' + ','.join(f) if f else '')
    if isinstance(t, Loop):
        return 'repetition over ' + (','.join(sorted(t.srcs)) or 'input') + ' of [' + '; '.join(desc(x) for x in t.body[:3]) + ']'
    if isinstance(t, Gate):
        return 'conditional [' + '; '.join(desc(x) for x in (t.then or t.els)[:3]) + ']'
    if isinstance(t, Rec):
        return 'nested element'
    return repr(t)


def key_fields(k):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'f':
                out.add(x[1])
            for y in x:
                go(y)
    go(k)
    return out


def sign_test(g):
    """is this condition (key, polarity) true for exactly the negative values of a member?"""
    k, p = g
    while k and k[0] == 'not':
        k, p = k[1], not p
    if not k or k[0] != 'cmp' or len(k) < 4:
        return False
    op, a, b = k[1], k[2], k[3]
    if p:
        return (op, a) in (('>', ('c', 0)), ('>=', ('c', -1))) and b[0] == 'f'
    return (op, b) in (('>=', ('c', 0)), ('>', ('c', -1))) and a[0] == 'f'


class Cmp:
    """W, R: walkers.  sink(kind, key, where, msg_or_None): called once per obligation, msg given when it fails."""

    def __init__(self, W, R, sem, sink, alias=None, cond_ok=None, resync=True):
        self.W, self.R, self.sem, self.sink = W, R, sem, sink
        self.al = alias or {}
        self.amap = {}          # reader uid -> writer Raw
        self.rmap = {}
        self.path = ()          # writer's condition path
        self.used_bits = set()
        self.cond_ok = cond_ok or (lambda k, raws: False)
        self.reader_set = set()

    # -- helpers
    def fields(self, names):
        r = set()
        for x in names:
            b = x.split('@')[0]
            if b.split('.')[0] in self.sem:
                r.add(self.al.get(b, b))
        return r

    def align(self, w, r):
        for p in getattr(r, 'parts', [r]):
            self.amap[p.uid] = w
        self.amap[r.uid] = w
        self.rmap[w.uid] = r
        self.reader_set |= self.fields(r.dests)

    def writer_bits(self, wraw, mask):
        if wraw is None:
            return None
        res = set()
        for fl in self.flagkeys(wraw):
            for (k, m), st in self.W.bitdefs.items():
                if k == fl and m & mask:
                    if m != mask:
                        res.add(('partial', m))
                    else:
                        res |= st
        return res

    def flagkeys(self, wraw):
        ks = set()
        for p in getattr(wraw, 'parts', [wraw]):
            for x in (p.flag, getattr(p, 'flagv', None)):
                if x is not None:
                    ks.add(self.W.flagkey(x))
        return ks

    def norm(self, k):
        """gate keys with field aliases applied"""
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == 'f':
                return ('f', self.al.get(k[1], k[1]))
            return tuple(self.norm(x) for x in k)
        return k

    def gate_match(self, wg, rg):
        """does the reader's condition hold exactly when the writer's does?  None: yes; else reason"""
        wk, rk = wg.key, rg.key
        pol = True
        if rk[0] == 'not':
            rk, pol = rk[1], False
        wpol = True
        if wk[0] == 'not':
            wk, wpol = wk[1], False
        if rk[0] == 'bit':
            ws = {id(self.amap[i]): self.amap[i] for i in rk[1] if i in self.amap}
            if len(ws) != 1 or len([i for i in rk[1] if i in self.amap]) != len(rk[1]):
                return 'the tested flag word is not a value read earlier from the same place'
            w = next(iter(ws.values()))
            st = self.writer_bits(w, rk[2])
            self.used_bits.add((frozenset(self.flagkeys(w)), rk[2]))
            if not st:
                return 'the writer never sets bit %#x of that flag word' % rk[2]
            full = self.path + ((wk, wpol),)
            # conditions that hold for the whole flag word need no repetition
            if len(st) == 1:
                s = next(iter(st))
                if s and s[0] == 'partial':
                    return 'the writer sets bit %#x together with others' % rk[2]
                if self.tail(s) == self.tail(full) and pol == True:
                    return None
                return 'bit %#x announces the data under another condition than the one it is written under' % rk[2]
            return 'bit %#x is set at %d places under different conditions' % (rk[2], len(st))
        nw, nr = self.norm(wk), self.norm(rk)
        if nw == nr and (wpol == pol):
            if key_fields(nr) <= self.reader_set:
                return None
            return 'the reader decides on members it has not read yet: %s' % ','.join(sorted(key_fields(nr) - self.reader_set))
        if rk[0] == 't' and rk[1][0] == 'in':
            ws = [self.amap.get(i) for i in rk[1][1]]
            if len(ws) == 1 and ws[0] is not None:
                if self.fields(ws[0].srcs) & {self.al.get(x, x) for x in key_fields(wk)} and wk[0] == 't' and wpol == pol:
                    return None
        if self.cond_ok(wk, rk):
            return None
        return 'conditions differ'

    def never_set(self, r):
        k = r.key
        if k[0] != 'bit' or r.els:
            return False
        ww = [self.amap.get(x) for x in k[1]]
        return all(x is not None for x in ww) and len({id(x) for x in ww}) == 1 and not self.writer_bits(ww[0], k[2])

    def always_set(self, r):
        """the announcing bit is set whenever the element is written at all"""
        k = r.key
        ww = [self.amap.get(x) for x in k[1]]
        if any(x is None for x in ww) or len({id(x) for x in ww}) != 1:
            return False
        st = self.writer_bits(ww[0], k[2])
        if st and len(st) == 1:
            s = next(iter(st))
            if self.tail(s) == self.tail(self.path):
                self.used_bits.add((frozenset(self.flagkeys(ww[0])), k[2]))
                return True
        return False

    def tail(self, st):
        """the part of a condition stack that is inside the element being written"""
        return tuple((self.norm(k), p) for k, p in st if not (k and k[0] in ('true',)) and (k, p) not in self.W.assumed)

    # -- main
    def seq(self, ws, rs, at=''):
        ws, rs = list(ws), list(rs)
        while ws and only_rec(ws[0]) and not (rs and only_rec(rs[0])):
            ws.pop(0)           # complete elements of their own, written ahead of this one
        i = j = 0
        while i < len(ws) or j < len(rs):
            w = ws[i] if i < len(ws) else None
            r = rs[j] if j < len(rs) else None
            if r is None:
                self.sink('layout', 'unread:' + desc(w), w.where(), 'the writer emits %s%s that the reader never consumes' % (desc(w), at))
                return False
            # reader branches for obsolete flag bits consume nothing of what this writer emits
            if isinstance(r, Gate) and self.never_set(r) and not (isinstance(w, Gate) and self.gate_match(w, r) is None):
                later = isinstance(w, Gate) and any(isinstance(x, Gate) and self.gate_match(w, x) is None for x in rs[j + 1:])
                if not later and isinstance(w, Gate) and self.shape_like(w.then, r.then) and self.fields_like(w.then, r.then):
                    self.sink('flag', 'unset:%s' % desc(w), w.where(), 'the writer emits %s%s without ever setting the flag bit the reader tests for it (%s)' % (desc(w), at, r.where()))
                    i += 1
                j += 1
                continue
            if isinstance(r, Gate) and r.key[0] == 'bit' and not r.els and not isinstance(w, Gate) and self.always_set(r):
                rs[j:j + 1] = r.then
                continue
            if isinstance(w, Raw) and isinstance(r, Raw):
                # 8+4 bytes read as one block
                if w.n is not None and r.n is not None and w.n < r.n and i + 1 < len(ws) and isinstance(ws[i + 1], Raw) and ws[i + 1].n is not None and w.n + ws[i + 1].n <= r.n and w.srcs == ws[i + 1].srcs:
                    from .serial import merge_raw
                    ws[i:i + 2] = [merge_raw(w, ws[i + 1])]
                    continue
                if w.n is not None and r.n is not None and r.n < w.n and j + 1 < len(rs) and isinstance(rs[j + 1], Raw) and rs[j + 1].n is not None and r.n + rs[j + 1].n <= w.n and r.dests == rs[j + 1].dests:
                    from .serial import merge_raw
                    rs[j:j + 2] = [merge_raw(r, rs[j + 1])]
                    continue
                if not self.raw(w, r, at):
                    return False
                i += 1
                j += 1
                continue
            if isinstance(w, Loop) and isinstance(r, Loop):
                self.loop(w, r, at)
                i += 1
                j += 1
                continue
            if isinstance(w, Rec) and isinstance(r, Rec):
                self.sink('layout', 'rec', w.where(), None)
                i += 1
                j += 1
                continue
            if isinstance(w, Gate) and isinstance(r, Gate) and w.then and w.els and not r.els and not (j + 1 == len(rs)):
                ws[i:i + 1] = [Gate(w.node, w.key, w.then, []), Gate(w.node, neg(w.key), w.els, [])]
                w = ws[i]
            if isinstance(w, Gate) and isinstance(r, Gate):
                why = self.gate_match(w, r)
                flip = False
                if why is not None and w.els:
                    w2 = Gate(w.node, neg(w.key), w.els, w.then)
                    why2 = self.gate_match(w2, r)
                    if why2 is None:
                        w, why, flip = w2, None, True
                if why is not None and not w.els and isinstance(r, Gate) and self.loose(r):
                    rs[j:j + 1] = r.then
                    continue
                what = desc(w)
                self.sink('flag', '%s' % what, w.where(), None if why is None else 'presence of %s%s: %s (reader: %s)' % (what, at, why, r.where()))
                a, b = w.then, w.els
                save = self.path
                k, p = (w.key[1], False) if w.key[0] == 'not' else (w.key, True)
                self.path = save + ((k, p),)
                ok = self.seq(a, r.then, at)
                self.path = save + ((k, not p),)
                ok = self.seq(b, r.els, at) and ok
                self.path = save
                i += 1
                j += 1
                continue
            # the reader skips an empty block explicitly
            if isinstance(r, Gate) and not r.els and self.loose(r):
                rs[j:j + 1] = r.then
                continue
            if isinstance(w, Gate) and not w.els and isinstance(r, (Raw, Loop)) and self.wloose(w):
                ws[i:i + 1] = w.then
                continue
            if isinstance(w, Gate) and isinstance(r, Loop) and not w.els and len(w.then) == 1 and isinstance(w.then[0], Loop):
                ws[i:i + 1] = w.then
                continue
            if w is None:
                self.sink('layout', 'unwritten:' + desc(r), r.where(), 'the reader consumes %s%s that the writer never emits' % (desc(r), at))
                return False
            self.sink('layout', 'shape:%s|%s' % (desc(w), desc(r)), w.where(), 'the writer emits %s%s where the reader (%s) expects %s' % (desc(w), at, r.where(), desc(r)))
            return False
        return True

    def loose(self, r):
        """reader: `if (length just read) { read length bytes }`"""
        k = r.key
        return k[0] == 't' and k[1][0] == 'in' and all(i in self.amap for i in k[1][1]) and \
            all((isinstance(x, Raw) and x.n is None) or isinstance(x, Loop) or (isinstance(x, Gate) and self.loose(x)) for x in r.then)

    def wloose(self, w):
        """writer: `if (!s.empty()) { write s.size() bytes }`"""
        return w.key[0] == 't' and all((isinstance(x, Raw) and x.n is None) or isinstance(x, Loop) for x in w.then)

    def shape_like(self, a, b):
        if not a or not b:
            return False
        return type(a[0]) is type(b[0])

    def fields_like(self, a, b):
        f = lambda ts, at: set().union(*[self.fields(getattr(x, at)) for x in ts if isinstance(x, Raw)] or [set()])
        return bool(f(a, 'srcs') & f(b, 'dests'))

    def raw(self, w, r, at):
        if w.n != r.n:
            self.sink('layout', 'width:%s' % desc(w), w.where(), 'the writer emits %s%s, the reader (%s) takes %s' % (desc(w), at, r.where(), desc(r)))
            # keep the alignment so one slip is reported once
            self.align(w, r)
            return False
        self.sink('layout', desc(w), w.where(), None)
        self.align(w, r)
        if w.lit is not None:
            return True
        ws, rs = self.fields(w.srcs), self.fields(r.dests)
        if w.size or not ws and not rs:
            return True
        if not ws or not rs:
            if not rs and ws:
                self.sink('member', '%s:dropped' % ','.join(sorted(ws)), w.where(), 'value of %s%s is read at %s but stored nowhere' % (','.join(sorted(ws)), at, r.where()) if not self.ctrl(r) else None)
            return True
        common = ws & rs
        key = ','.join(sorted(ws))
        if not common:
            self.sink('member', key, w.where(), '%s is written%s but the reader (%s) stores it in %s' % (key, at, r.where(), ','.join(sorted(rs))))
            return True
        comp = {x for x in w.srcs if x.startswith('pair.')}
        rd = {x for x in r.dests if '@' in x and self.al.get(x.split('@')[0], x.split('@')[0]) in common}
        plain = {x for x in common if not any(y.split('@')[0] == x for y in rd)}
        if len(comp) == 1 and rd and not plain:
            c = next(iter(comp))[5:]
            self.sink('member', key + ':' + c, w.where(), None if any(x.endswith('@' + c) for x in rd) else
                      'the %s component of %s is written%s but the reader (%s) uses it as another component' % (c, key, at, r.where()))
            return True
        self.sink('member', key, w.where(), None)
        if w.n and getattr(w, 'w', None) and w.w > 8 * w.n and not w.size:
            self.narrow(w, at)
        return True

    def narrow(self, w, at):
        pass

    def ctrl(self, r):
        """is this value the bound of a repetition / a flag word / a length?"""
        u = {p.uid for p in getattr(r, 'parts', [r])} | {r.uid}
        return bool(u & self.controls())

    def controls(self):
        if not hasattr(self, '_ctl'):
            c = set()

            def go(ts):
                for t in ts:
                    if isinstance(t, Loop):
                        c.update(t.items)
                        go(t.body)
                    elif isinstance(t, Gate):
                        def k(x):
                            if isinstance(x, frozenset):
                                c.update(y for y in x if isinstance(y, int))
                            elif isinstance(x, tuple):
                                for y in x:
                                    k(y)
                        k(t.key)
                        go(t.then)
                        go(t.els)
                    elif isinstance(t, Raw):
                        c.update(getattr(t, 'bound', ()) or ())
            for s in self.R.root.values():
                go(s)
            self._ctl = c
        return self._ctl

    def loop(self, w, r, at):
        key = ','.join(sorted(self.fields(w.srcs))) or 'loop'
        its = r.items
        outer = getattr(self, 'outer', frozenset())
        if its:
            al = [self.amap.get(i) for i in its]
            bad = None
            if any(x is None for x in al):
                bad = 'the number of repetitions is not (only) the count read for it'
            else:
                ids = {id(x) for x in al}
                x = al[0]
                if len(ids) != 1:
                    bad = 'the number of repetitions mixes several values read'
                elif self.fields(w.srcs) and self.fields(x.srcs) and not (self.fields(w.srcs) & self.fields(x.srcs)):
                    bad = 'the count written is that of %s' % ','.join(sorted(self.fields(x.srcs)))
                elif (self.fields(w.srcs) - outer) and (self.fields(x.srcs) - outer) and not ((self.fields(w.srcs) & self.fields(x.srcs)) - outer):
                    # both belong to the element of an enclosing repetition, but to different members of it
                    bad = 'the count written is that of %s' % ','.join(sorted(self.fields(x.srcs)))
            self.sink('count', key, w.where(), None if bad is None else 'repetition over %s%s: %s (reader: %s)' % (key, at, bad, r.where()))
        self.outer = outer | frozenset(self.fields(w.srcs))
        self.seq(w.body, r.body, ' in each of ' + key)
        self.outer = outer

    def leftovers(self):
        """flag bits the writer sets that the reader gates nothing on"""
        for (k, mask), stacks in sorted(self.W.bitdefs.items(), key=repr):
            raws = [w for w in self.rmap_w() if k in self.flagkeys(w)]
            if not raws:
                continue
            w = raws[0]
            if any(k in fk and m == mask for fk, m in self.used_bits):
                continue
            r = self.rmap.get(w.uid)
            uids = {p.uid for p in getattr(r, 'parts', [r])} | {r.uid}
            dst = set()
            for (its, m), fs in self.R.bitdest.items():
                if m == mask and set(its) & uids:
                    dst |= self.fields(fs)
            src = set()
            for st in stacks:
                for kk, pol in st:
                    src |= {self.al.get(x, x) for x in key_fields(kk)}
            want = set()
            for st in stacks:
                if st and st[-1][1] and st[-1][0][0] == 't':
                    want |= {self.al.get(x, x) for x in key_fields(st[-1][0])}
            key = 'bit:%s:%#x' % (','.join(sorted(src)), mask)
            if not dst and r is not None and any(m == mask and set(its) & uids for its, m in self.R.tested) and self.fields(w.srcs) & self.fields(r.dests):
                # part of the encoding of the value itself
                odd = [st[-1] for st in stacks if not st or not sign_test(st[-1])]
                self.sink('flag', key, w.where(), 'flag bit %#x of the encoding of %s is not set for exactly the negative values' % (mask, ','.join(sorted(src))) if odd else None)
                continue
            if not dst:
                self.sink('flag', key, w.where(), 'flag bit %#x (%s) is written but the reader ignores it' % (mask, ','.join(sorted(src))))
            elif len(stacks) != 1 or not (want & dst):
                self.sink('flag', key, w.where(), 'flag bit %#x stands for %s in the writer and %s in the reader' % (mask, ','.join(sorted(src)), ','.join(sorted(dst))))
            else:
                self.sink('flag', key, w.where(), None)
        # reader-only interpretation of bits
        for (its, mask), fs in sorted(self.R.bitdest.items(), key=repr):
            ws = {self.amap[i].uid: self.amap[i] for i in its if i in self.amap}
            if len(ws) != 1:
                continue
            w = next(iter(ws.values()))
            f = self.fields(fs)
            if not f or not self.flagkeys(w):
                continue
            if not any((k in self.flagkeys(w)) for (k, m) in self.W.bitdefs):
                continue
            if not any(k in self.flagkeys(w) and m & mask for (k, m) in self.W.bitdefs):
                self.sink('flag', 'readonly:%s:%#x' % (','.join(sorted(f)), mask), w.where(),
                          'the reader takes %s from flag bit %#x, which the writer never sets' % (','.join(sorted(f)), mask))

    def rmap_w(self):
        seen = {}
        for w in self.amap.values():
            seen[w.uid] = w
        return list(seen.values())
