"""C13: the same grammar and input always give the same output: nothing in the library depends on time, chance, addresses, or memory that was never set."""
import re
from ..effects import Effects
from ..extract import Broken
from ..ir import CALLS, args, recv, strip
from ..model import short

CHANCE = ('rand', 'srand', 'random', 'srandom', 'rand_r', 'drand48', 'time', 'clock', 'clock_gettime', 'gettimeofday', 'getpid', 'getppid', 'gettid', 'tmpnam', 'tempnam', 'mkstemp', 'tmpfile', 'getrandom', 'uuid_generate',
          'localtime', 'gmtime', 'ctime', 'getrusage', 'times', 'gethostname', 'getcwd', 'getlogin', 'getuid', 'ucal_getNow', 'get_id', 'thread_id')
CHANCE_Q = re.compile(r'(std::)?(chrono::.*::now|random_device|mt19937|default_random_engine|this_thread::)|(^|::)(random_)?shuffle(<|$)')
LIBRARY = {
    ('Set::setName', 'rand'): 'a set that is given no name gets one that nobody can refer to; only dumps of the grammar show it',
}
# the programs may time themselves, and start the random numbers
PROGRAM = ('clock', 'time', 'srand')
ADDRESS = {
    ('ContextualTest::rehash', 'ContextualTest *'): 'while a grammar is parsed, tmpl holds the hash of the name of the template; hashes read from a file are not made again',
    ('BinaryApplicator::runGrammarOnText', 'void *'): 'a number from the stream that was put in a pointer is taken out again',
}
ORDER = {}
KEYED = re.compile(r'^(const )?(?:CG3::)?(?:boost::container::|std::)?(set|multiset|sorted_vector|flat_set|flat_multiset|unordered_set|flat_unordered_set|map|multimap|flat_map|flat_multimap|unordered_map|flat_unordered_map)<(?:const )?(?:CG3::)?[\w:]+ \*(?: ?const)?(?P<rest>.*)')
SCALAR = re.compile(r'^(unsigned |signed )?(int|long|short|char|bool|float|double|long long|unsigned|char16_t|char32_t|wchar_t)( int| long| long int)?$')
ACCESS = ('begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'front', 'back', 'pop_back', 'operator[]', 'at', 'data', 'get', 'nth', 'lower_bound', 'upper_bound')


def check(ctx):
    P = ctx.P
    ctx.rule('source', 'nothing the library does asks for the time, for random numbers, or for what the process or machine is', 1)
    ctx.rule('address', 'no number is made from an address, and no addresses are compared for order', 1)
    ctx.rule('order', 'what is kept in the order of addresses is not gone through in a way that shows the order', 5)
    ctx.rule('member', 'every constructor gives every plain member a value', 40)
    ctx.rule('local', 'a plain local variable has a value on every path to its use', 10)
    sources(ctx, P)
    addresses(ctx, P)
    order(ctx, P)
    members(ctx, P)
    locals_(ctx, P)


def library(P):
    roots = [f for f in P.funcs.values() if f.body is not None and (f.q.rsplit('::', 1)[-1] in ('runGrammarOnText', 'runGrammarOnWindow', 'parse_grammar', 'readBinaryGrammar', 'writeBinaryGrammar', 'writeGrammar', 'write', 'reindex', 'relabel', 'printSingleWindow', 'setGrammar') or f.q.startswith('cg3_') and f.q != 'main')]
    if len(roots) < 40:
        raise Broken('functions of the library not found')
    return roots


def sources(ctx, P):
    E = Effects(P)
    seen = E.reach(library(P))
    n_lib = n_all = 0
    for f in P.funcs.values():
        if f.body is None or not f.file.startswith('src/'):
            continue
        n_all += 1
        lib = f.id in seen
        n_lib += lib
        ctx.saw(f)
        for n in f.walk():
            nm = None
            if n.k in CALLS:
                if n.get('fs') in CHANCE and not (n.get('cls') or '').startswith(('CG3', 'scoped_stack')) and n.k != 'CXXMemberCallExpr':
                    nm = n.get('fs')
                elif CHANCE_Q.search(n.get('fn') or '') or n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and CHANCE_Q.search(n.t or ''):
                    nm = n.get('fs') or n.t
            if nm is None:
                continue
            if (f.q, nm) in LIBRARY:
                ctx.note('%s in %s: %s' % (nm, f.q, LIBRARY[f.q, nm]))
                continue
            key = '%s:%s' % (f.q.split('(')[0], nm)
            if lib:
                ctx.check(False, 'source', key, n.where(), '', '%s is called in the library (%s): results depend on more than grammar and input' % (nm, E.chain(seen, f.id)))
            else:
                ctx.check(nm in PROGRAM, 'source', key, n.where(), 'a program times itself', '%s is called in a program: its output depends on more than grammar and input' % nm)
    ctx.check(n_lib > 300, 'source', 'library', 'src/', '%d of %d functions belong to the library' % (n_lib, n_all), 'library functions not found')


def addresses(ctx, P):
    n_cmp = 0
    for f in P.funcs.values():
        if f.body is None or not f.file.startswith('src/'):
            continue
        for n in f.walk():
            if n.get('ct') and n.c and n.c[0] is not None:
                t, ct = re.sub(r'\s*const$', '', (n.c[0].t or '').strip()), n.get('ct').replace('const ', '')
                if t.endswith('*') and SCALAR.match(ct) and ct != 'bool':
                    k = (f.q, t.replace('CG3::', '').replace('const ', ''))
                    if k in ADDRESS:
                        ctx.note('%s: %s' % (f.q, ADDRESS[k]))
                        continue
                    ctx.check(False, 'address', '%s:%s' % (f.q.split('(')[0], k[1]), n.where(), '', 'the address of a %s is made a number: it differs from run to run' % k[1])
            elif n.k == 'BinaryOperator' and n.get('op') in ('<', '>', '<=', '>='):
                ts = [re.sub(r'\s*const$', '', (x.t or '').strip()) for x in n.c]
                if all(t.endswith('*') for t in ts):
                    n_cmp += 1
                    rec = re.sub(r'^(const )?(CG3::)?', '', ts[0]).strip(' *')
                    ctx.check(rec not in P.records, 'address', 'less:%s' % f.q.split('(')[0], n.where(), 'two places in one text', 'addresses of %s objects are compared for order' % rec)
            elif n.k == 'CXXOperatorCallExpr' and n.get('fs') == 'operator<<' and len(n.c) > 2 and n.c[2] is not None and re.search(r'\*$', (n.c[2].t or '')) and 'char' not in n.c[2].t:
                ctx.check(False, 'address', 'print:%s' % f.q.split('(')[0], n.where(), '', 'an address is written')
            elif n.k in CALLS and re.search(r'\bhash<[^<>]*\*\s*(const)?>$', n.get('cls') or ''):
                ctx.check(False, 'address', 'hash:%s' % f.q.split('(')[0], n.where(), '', 'an address is made a number: it differs from run to run')
            elif n.k == 'CallExpr' and n.get('fs') in ('sort', 'stable_sort', 'is_sorted', 'merge', 'lower_bound', 'upper_bound', 'binary_search', 'max_element', 'min_element', 'max', 'min', 'nth_element', 'partial_sort'):
                ar = [a for a in args(n) if a is not None]
                if not ar:
                    continue
                t = (ar[0].t or '').replace('const', '').replace('CG3::', '')
                m = re.search(r'__normal_iterator<\s*(\w+) \*\s*\*', t) or re.match(r'^\s*(\w+) \*\s*[*&]?\s*[*\[]', t)
                if m and m.group(1) in P.records:
                    last = ar[-1].t or ''
                    has = 'operator()' in last or 'compare' in last or 'sorter' in last or 'anonymous' in last or 'lambda' in last or '(' in last or 'comp' in last.lower()
                    n_cmp += 1
                    ctx.check(has and 'std::less<' not in last and 'std::greater<' not in last, 'address', 'sort:%s' % f.q.split('(')[0].split('<')[0], n.where(), 'sorted by what is in the objects', '%s objects are put in the order of their addresses' % m.group(1)) if not f.q.startswith(('sorted_vector<',)) else None
    ctx.note('%d comparisons and sorts of pointers looked at' % n_cmp)
    # what containers are ordered by
    for f in P.funcs.values():
        cls = f.q.rsplit('::', 1)[0]
        if f.body is None or not f.q.endswith('::operator()') or not f.file.startswith('src/') or '(' in cls:
            continue
        if len(f.params) == 2 and all('*' in p['t'] or 'Vector' in p['t'] or 'vector' in p['t'] for p in f.params):
            ctx.saw(f)
            bad = None
            for n in f.walk():
                if n.k == 'BinaryOperator' and n.get('op') in ('<', '>', '<=', '>=') and all(re.sub(r'\s*const$', '', (x.t or '').strip()).endswith('*') for x in n.c):
                    bad = n
            ctx.check(bad is None, 'address', 'compare:' + cls, (bad or f.body).where(), '%s compares what is in the objects' % cls, '%s compares addresses' % cls)


# ---------------------------------------------------------------- containers in the order of addresses
def keyed(t):
    t = (t or '').strip()
    t = re.sub(r'\s*&+$', '', t)
    m = KEYED.match(t)
    if not m:
        return False
    return not re.search(r'compare_|equal_|_sorter|hash_', m.group('rest').split('>')[0] + m.group('rest'))


def order_free(body, var, f):
    """what a loop does for each element could be done in any order"""
    for n in body.walk():
        if n.k in ('BinaryOperator', 'CompoundAssignOperator') and (n.get('op') or '').endswith('=') and n.get('op') not in ('==', '!=', '<=', '>='):
            l = strip(n.c[0])
            # writes to the element itself, or the same constant each time
            if any(x.k == 'DeclRefExpr' and x.get('id') in var for x in n.c[0].walk()) or strip(n.c[1]) is not None and strip(n.c[1]).ev is not None and n.get('op') in ('=', '|=', '&='):
                continue
            if l is not None and l.k == 'DeclRefExpr' and any(v.k == 'VarDecl' and v.get('id') == l.get('id') for v in body.walk()):
                continue
            if n.get('op') in ('|=', '&=', '+='):
                continue
            return n
        if n.k == 'UnaryOperator' and n.get('op') in ('++', '--'):
            continue
        if n.k == 'ReturnStmt' and n.c and n.c[0] is not None and strip(n.c[0]) is not None and strip(n.c[0]).ev is None and not (strip(n.c[0]).k in ('CXXBoolLiteralExpr', 'CXXNullPtrLiteralExpr')):
            if any(x.k == 'DeclRefExpr' and x.get('id') in var for x in n.c[0].walk()):
                return n
        if n.k in ('CXXMemberCallExpr',):
            fs = n.get('fs')
            if fs in ('push_back', 'emplace_back', 'append', 'write', 'put', 'assign') and not (recv(n) is not None and any(x.k == 'DeclRefExpr' and x.get('id') in var for x in recv(n).walk())):
                return n
        if n.k == 'CXXOperatorCallExpr' and n.get('fs') in ('operator<<', 'operator+='):
            return n
        if n.k == 'CallExpr' and (n.get('fs') or '').startswith(('u_fprintf', 'u_fputc', 'fprintf', 'print', 'writeBE', 'writeLE', 'writeUTF8', 'push_back', 'back_inserter')):
            err = any((x.t or '') and 'ux_stderr' in (x.get('d'), x.get('m')) for a in args(n) if a is not None for x in a.walk())
            if not err:
                return n
        if n.k in CALLS and n.get('fs') not in ('operator*', 'operator->') and n.k != 'CXXConstructExpr':
            pass
    return None


def order(ctx, P):
    seen = {}
    for f in P.funcs.values():
        if f.body is None or not f.file.startswith('src/') or re.match(r'^(sorted_vector|flat_unordered|scoped_stack|pool|interval_vector|bloomish)', f.q):
            continue
        for n in f.walk():
            if n.k == 'CXXForRangeStmt':
                head = [c for c in n.c if c is not None]
                rg = next((y for c in head[:-1] for y in c.walk() if y.k == 'VarDecl' and (y.get('d') or '').startswith('__range')), None)
                if rg is None or not keyed(rg.t):
                    continue
                var = {y.get('id') for c in head[:-1] for y in c.walk() if y.k in ('VarDecl', 'BindingDecl') and not (y.get('d') or '').startswith('__')}
                bad = order_free(head[-1], var, f)
                key = '%s:%s' % (f.q.split('(')[0], name_of(rg.c[0]))
                ctx.saw(f)
                if key in ORDER:
                    ctx.note('%s: %s' % (key, ORDER[key]))
                    continue
                ctx.check(bad is None, 'order', key, (bad or n).where(), 'could be done in any order', 'done in the order of addresses, which differs from run to run')
            elif n.k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr') and n.get('fs') in ACCESS and recv_t(n) and keyed(recv_t(n)):
                if in_range_head(n):
                    continue
                fs = n.get('fs')
                m = KEYED.match(re.sub(r'\s*&+$', '', recv_t(n).strip()))
                if 'map' in m.group(2) and fs in ('operator[]', 'at'):
                    continue
                if fs in ('end', 'cend') or compared_only(n):
                    continue
                key = '%s:%s:%s' % (f.q.split('(')[0], name_of(recv(n) if n.k == 'CXXMemberCallExpr' else n.c[1]), fs)
                if key in seen:
                    continue
                seen[key] = 1
                ctx.saw(f)
                if key in ORDER:
                    ctx.note('%s: %s' % (key, ORDER[key]))
                    continue
                loop = next((a for a in n.ancestors() if a.k in ('ForStmt', 'WhileStmt')), None)
                bad = n
                if loop is not None and fs in ('begin', 'cbegin', 'rbegin'):
                    its = {v.get('id') for v in loop.walk() if v.k == 'VarDecl'}
                    bad = order_free(loop.c[-1] if loop.c[-1] is not None else loop, its, f)
                if n.p is not None and any(a.k == 'CallExpr' and a.get('fs') in ('find', 'find_if', 'count', 'any_of', 'all_of', 'none_of', 'distance') or a.k in CALLS and a.get('fs') in ('insert', 'assign') and keyed(recv_t(a) or '') for a in n.ancestors()):
                    bad = None
                ctx.check(bad is None, 'order', key, (bad or n).where(), 'does not show the order', 'depends on the order of addresses, which differs from run to run')
            elif n.k == 'VarDecl' and keyed(n.t):
                ctx.check(True, 'order', 'kept:%s:%s' % (f.q.split('(')[0], n.get('d')), n.where(), 'kept in the order of addresses: uses looked at', '')


def recv_t(n):
    r = recv(n) if n.k == 'CXXMemberCallExpr' else (n.c[1] if len(n.c) > 1 else None)
    return (r.t or '') if r is not None else ''


def name_of(n):
    for x in n.walk():
        if x.k == 'MemberExpr' and x.get('dk') == 'Field':
            return x.get('m')
        if x.k == 'DeclRefExpr' and x.get('dk') in ('Var', 'ParmVar'):
            return x.get('d')
    return '?'


def in_range_head(n):
    return any(a.k == 'VarDecl' and (a.get('d') or '').startswith(('__begin', '__end', '__range')) for a in n.ancestors())


def compared_only(n):
    for a in n.ancestors():
        if a.k == 'CXXOperatorCallExpr' and a.get('fs') in ('operator==', 'operator!='):
            return True
        if a.k in ('CompoundStmt', 'DeclStmt'):
            return False
    return False


# ---------------------------------------------------------------- members and locals without a value
def plain(t):
    t = (t or '').strip()
    t = re.sub(r'^(const |volatile )+', '', t)
    t = re.sub(r'\s*const$', '', t)
    return t.endswith('*') or bool(SCALAR.match(t)) or t.startswith('enum ')


def unions(P, q):
    res = {}
    for x in P.fields(q):
        if x.get('union'):
            res.setdefault(x['union'], set()).add(x['d'])
    return list(res.values())


def members(ctx, P):
    enums = {str(e).replace('CG3::', '') for e in P.enums}
    for q in sorted(P.records):
        fs = P.fields(q)
        if not fs:
            continue
        ctors = [f for f in P.funcs.values() if f.d.get('ctor') and f.q.rsplit('::', 1)[0] == q and f.body is not None]
        home = str(P.records[q].get('file') or '')
        if not any(f.file.startswith('src/') for f in ctors) and (ctors or not home.startswith('src/') or '(anonymous' in q or q.startswith('anon@') or 'lambda' in q):
            continue
        un = unions(P, q)
        need = [x['d'] for x in fs if (plain(x['t']) or x['t'].replace('const ', '').replace('CG3::', '') in enums) and not x.get('ini') and x.get('iv') is None]
        given = {x['d'] for x in fs} - set(need)
        if not ctors:
            ctx.check(not need, 'member', q + ':made without constructor', home, 'all plain members of %s have a value from the start' % q, '%s.%s has no value in a new object: what it holds is chance' % (q, need[0] if need else ''))
        for c in ctors:
            if not c.d.get('inits') and c.body is not None and not c.body.c and c.d.get('defaulted'):
                continue
            ctx.saw(c)
            have = {i.get('m') for i in c.d.get('inits', ())}
            if any(i.get('m') is None and not i.get('mc') for i in c.d.get('inits', ())) and any(short(c.nodes[i['init']].get('cls') or '') == q.rsplit('::', 1)[-1] or (c.nodes[i['init']].get('fn') or '').startswith(q + '::') for i in c.d.get('inits', ()) if c.nodes[i['init']] is not None):
                continue                    # another constructor does it
            body = set()
            for n in c.walk():
                if n.k == 'BinaryOperator' and n.get('op') == '=':
                    l = strip(n.c[0])
                    while l is not None and l.k == 'BinaryOperator':
                        l = strip(l.c[0])
                    if l is not None and l.k == 'MemberExpr':
                        body.add(l.get('m'))
                elif n.k in CALLS:
                    for t in P.targets(n):
                        if t.body is not None and t.q.rsplit('::', 1)[0] == q:
                            body |= {strip(x.c[0]).get('m') for x in t.walk() if x.k == 'BinaryOperator' and x.get('op') == '=' and strip(x.c[0]) is not None and strip(x.c[0]).k == 'MemberExpr'}
            for m in need:
                ctx.check(m in have or m in body or any(o in have or o in body or o in given for u in un if m in u for o in u), 'member', '%s.%s:%d' % (q, m, len(c.params)), '%s:%d' % (c.file, c.line), '%s.%s gets a value' % (q, m), '%s.%s has no value after this constructor: what it holds is chance' % (q, m))


def locals_(ctx, P):
    done = set()
    for f in P.funcs.values():
        if f.body is None or f.cfg is None or not f.file.startswith('src/'):
            continue
        vs = {}
        for n in f.walk():
            if n.k == 'VarDecl' and not n.get('static') and not n.get('sl') and plain(n.t) and not any(c is not None for c in n.c) and n.p is not None and n.p.k == 'DeclStmt':
                vs[n.get('id')] = n
        if not vs:
            continue
        ctx.saw(f)
        bad = unassigned(f, vs)
        for v, n in vs.items():
            k = (f.file, n.l, n.get('d'))
            if k in done and v not in bad:
                continue
            done.add(k)
            ctx.check(v not in bad, 'local', '%s:%s' % (f.q.split('(')[0], n.get('d')), bad[v].where() if v in bad else n.where(), '%s has a value wherever it is used' % n.get('d'), '%s is used here on a path on which it was given no value' % n.get('d'))


def use_kind(n):
    """'set', 'both', or 'use' for a mention of a variable"""
    a, p = n, n.p
    while p is not None and p.k in ('ImplicitCastExpr', 'ParenExpr'):
        a, p = p, p.p
    if p is None:
        return 'use'
    if p.k == 'BinaryOperator' and p.get('op') == '=' and p.c[0] is not None and p.c[0].i == a.i:
        return 'lhs'
    if p.k == 'UnaryOperator' and p.get('op') == '&':
        return 'set'
    if p.k in CALLS:
        pt = p.get('pt') or []
        ar = args(p)
        if p.k == 'CXXOperatorCallExpr':
            ar = p.c[1:]
            if len(pt) < len(ar):
                ar = ar[len(ar) - len(pt):]
        for i, x in enumerate(ar):
            if x is not None and x.i == a.i and i < len(pt):
                t = pt[i]
                if t.endswith('&') and 'const ' not in t or t.endswith('&&'):
                    return 'set'
        if p.k == 'CXXOperatorCallExpr' and p.get('fs') in ('operator>>',):
            return 'set'
        return 'use'
    if p.k == 'LambdaExpr':
        return 'set'
    if p.k == 'VarDecl' and (p.t or '').endswith('&'):
        return 'set'
    if p.k in ('UnaryExprOrTypeTraitExpr',):
        return 'none'
    if p.k == 'CStyleCastExpr' and (p.get('ct') or '') == 'void':
        return 'none'
    return 'use'


def unassigned(f, vs):
    ins = {f.cfg.entry: frozenset()}
    work = [f.cfg.entry]
    bad = {}
    while work:
        b = work.pop()
        st = set(ins[b])
        for e in f.cfg.b[b].els:
            if isinstance(e, tuple):
                continue
            if e.k == 'DeclStmt':
                for n in e.c:
                    if n is not None and n.k == 'VarDecl' and n.get('id') in vs:
                        st.add(n.get('id'))
            elif e.k == 'DeclRefExpr' and e.get('id') in vs:
                k = use_kind(e)
                if k == 'set':
                    st.discard(e.get('id'))
                elif k == 'use' and e.get('id') in st:
                    bad.setdefault(e.get('id'), e)
                    st.discard(e.get('id'))
            elif e.k == 'BinaryOperator' and e.get('op') == '=':
                l = strip(e.c[0])
                if l is not None and l.k == 'DeclRefExpr':
                    st.discard(l.get('id'))
            elif e.k == 'LambdaExpr':
                st -= set(vs)
        if f.cfg.b[b].nr:
            continue
        for t in f.cfg.b[b].succ:
            if t < 0:
                continue
            new = frozenset(st) if t not in ins else ins[t] | st
            if t not in ins or new != ins[t]:
                ins[t] = new
                work.append(t)
    return bad
