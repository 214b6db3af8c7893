"""C17: command-line options sit where their constants point, are acted on, and mean what they say."""
import re
from ..extract import Broken
from ..ir import CALLS, args, byref_args, canon, is_call, recv, strip
from .. import flow, cdep

# options whose constant is named differently from the word on the command line
SPELL = {
    'HELP1': 'help', 'HELP2': '?', 'VERSION_TOO_OLD': 'min-binary-revision', 'DODEBUG': 'debug', 'CODEPAGE_GLOBAL': 'codepage-all',
    'PIPE_DELETED': 'deleted', 'PROFILING': 'profile', 'MAPPING_PREFIX': 'prefix', 'DEP_BLOCK_CROSSING': 'dep-no-crossing',
    'MAGIC_READINGS': 'no-magic-readings', 'NRULES_INV': 'nrules-v',
    'IN_CG2': 'v', 'OUT_CG2': 'V', 'FST_WFACTOR': 'wfactor', 'FST_WTAG': 'wtag', 'SUB_DELIMITER': 'sub-delim', 'SUB_RTL': 'rtl', 'SUB_LTR': 'ltr',
}
# options that are accepted and documented to do nothing (default behaviour or reserved)
NO_EFFECT = {'Options': {'OUT_CG': 'the default'}, 'OptionsConv': {'SUB_RTL': 'the default', 'OUT_CG': 'the default'}}

# option -> settings it makes: (member or parameter, value); value None: computed from the option's argument or not constant
APPLY = {
    'ALWAYS_SPAN': [('always_span', 1)], 'UNICODE_TAGS': [('unicode_tags', 1)], 'UNIQUE_TAGS': [('unique_tags', 1)],
    'NOMAPPINGS': [('apply_mappings', 0)], 'NOCORRECTIONS': [('apply_corrections', 0)], 'NOBEFORESECTIONS': [('no_before_sections', 1)],
    'NOSECTIONS': [('no_sections', 1)], 'NOAFTERSECTIONS': [('no_after_sections', 1)], 'UNSAFE': [('unsafe', 1)], 'ORDERED': [('ordered', 1)],
    'TRACE': [('trace', 1), ('trace_rules', None)], 'TRACE_NAME_ONLY': [('trace', 1), ('trace_name_only', 1)],
    'TRACE_NO_REMOVED': [('trace', 1), ('trace_no_removed', 1)], 'TRACE_ENCL': [('trace', 1), ('trace_encl', 1)],
    'PIPE_DELETED': [('pipe_deleted', 1)], 'DRYRUN': [('dry_run', 1)], 'SINGLERUN': [('section_max_count', 1)], 'MAXRUNS': [('section_max_count', None)],
    'SECTIONS': [('sections', None)], 'RULES': [('valid_rules', None)], 'RULE': [('valid_rules', None)], 'DEBUG_RULES': [('debug_rules', None)],
    'VERBOSE': [('verbosity_level', None), ('verbosity_level', 1)], 'DODEBUG': [('debug_level', None), ('debug_level', 1)],
    'PRINT_IDS': [('print_ids', 1)], 'PRINT_DEP': [('has_dep', 1)], 'NUM_WINDOWS': [('num_windows', None)], 'SOFT_LIMIT': [('soft_limit', None)],
    'HARD_LIMIT': [('hard_limit', None)], 'TEXT_DELIMIT': [('setTextDelimiter()', None)],
    'DEP_DELIMIT': [('dep_delimit', None), ('dep_delimit', 10), ('parse_dep', 1)], 'DEP_ABSOLUTE': [('dep_absolute', 1)],
    'DEP_ORIGINAL': [('dep_original', 1)], 'DEP_ALLOW_LOOPS': [('dep_block_loops', 0)], 'DEP_BLOCK_CROSSING': [('dep_block_crossing', 1)],
    'MAGIC_READINGS': [('allow_magic_readings', 0)], 'NO_PASS_ORIGIN': [('no_pass_origin', 1)], 'SPLIT_MAPPINGS': [('split_mappings', 1)],
    'SHOW_END_TAGS': [('show_end_tags', 1)], 'NO_BREAK': [('add_spacing', 0)],
}
MAIN = {
    'IN_CG': [('fmt_input', 'CG')], 'IN_NICELINE': [('fmt_input', 'NICELINE')], 'IN_APERTIUM': [('fmt_input', 'APERTIUM')], 'IN_FST': [('fmt_input', 'FST')],
    'IN_PLAIN': [('fmt_input', 'PLAIN')], 'IN_JSONL': [('fmt_input', 'JSONL')], 'IN_BINARY': [('fmt_input', 'BINARY')],
    'OUT_APERTIUM': [('fmt_output', 'APERTIUM'), ('unicode_tags', 1)], 'OUT_FST': [('fmt_output', 'FST')], 'OUT_MATXIN': [('fmt_output', 'MATXIN')],
    'OUT_NICELINE': [('fmt_output', 'NICELINE')], 'OUT_PLAIN': [('fmt_output', 'PLAIN')], 'OUT_JSONL': [('fmt_output', 'JSONL')],
    'OUT_BINARY': [('fmt_output', 'BINARY')],
    'SHOW_TAG_HASHES': [('Tag::dump_hashes_out', None)], 'SHOW_SET_HASHES': [('Set::dump_hashes_out', None), ('GRAMMAR_ONLY.doesOccur', 1)],
    'SHOW_UNUSED_SETS': [('GRAMMAR_ONLY.doesOccur', 1), ('reindex():unused_sets', None)], 'SHOW_TAGS': [('reindex():used_tags', None)],
    'DUMP_AST': [('GRAMMAR_ONLY.doesOccur', 1), ('print_ast()', None)],
    'GRAMMAR_ONLY': [('VERBOSE.doesOccur', 1)], 'QUIET': [('VERBOSE.doesOccur', 0)], 'VISLCGCOMPAT': [('setCompatible():f', None)],
    'NRULES': [('nrules', None)], 'NRULES_INV': [('nrules_inv', None)], 'PROFILING': [('profiler', None), ('write()', None)],
    'MAPPING_PREFIX': [('mapping_prefix', None)], 'GRAMMAR_OUT': [('writeGrammar()', None)], 'GRAMMAR_BIN': [('writeBinaryGrammar()', None)],
    'VERBOSE': [('setVerbosity()', None), ('verbosity_level', None), ('verbosity_level', 1), ('VERBOSE.doesOccur', 0)],   # -v 0 means quiet
}
CONV = {
    'MAPPING_PREFIX': [('mapping_prefix', None)], 'ADD_TAGS': [('add_tags', 1), ('IN_PLAIN.doesOccur', 1)],
    'IN_CG2': [('IN_CG.doesOccur', 1)], 'OUT_CG2': [('OUT_CG.doesOccur', 1)],
    'IN_CG': [('fmt', 'CG')], 'IN_NICELINE': [('fmt', 'NICELINE')], 'IN_APERTIUM': [('fmt', 'APERTIUM')], 'IN_FST': [('fmt', 'FST')],
    'IN_PLAIN': [('fmt', 'PLAIN')], 'IN_JSONL': [('fmt', 'JSONL')], 'IN_BINARY': [('fmt', 'BINARY')], 'IN_AUTO': [('detectFormat()', None), ('fmt', None)],
    'OUT_APERTIUM': [('fmt_output', 'APERTIUM'), ('unicode_tags', 1)], 'OUT_FST': [('fmt_output', 'FST')], 'OUT_MATXIN': [('fmt_output', 'MATXIN')],
    'OUT_NICELINE': [('fmt_output', 'NICELINE')], 'OUT_PLAIN': [('fmt_output', 'PLAIN')], 'OUT_JSONL': [('fmt_output', 'JSONL')],
    'OUT_BINARY': [('fmt_output', 'BINARY')],
    'FST_WFACTOR': [('wfactor', None)], 'FST_WTAG': [('wtag', None)], 'SUB_DELIMITER': [('sub_delims', None)], 'SUB_LTR': [('sub_readings_ltr', 1)],
    'ORDERED': [('ordered', 1)], 'PARSE_DEP': [('parse_dep', 1), ('has_dep', 1)],
    'DEP_DELIMIT': [('dep_delimit', None), ('dep_delimit', 10), ('parse_dep', 1)], 'UNICODE_TAGS': [('unicode_tags', 1)],
    'PIPE_DELETED': [('pipe_deleted', 1)], 'NO_BREAK': [('add_spacing', 0)],
}
# settings that exist but are reserved for the future by the help text
NEVER_READ = {'ordered': '"will in future allow full ordered matching"'}

# options after which the program ends without doing anything else
END = {'HELP1', 'HELP2', 'VERSION', 'VERSION_TOO_OLD'}
# settings of which only one can be made: the first option that is given decides
ONE_OF = ('fmt_input', 'fmt', 'fmt_output', 'unicode_tags')


def norm(s):
    return re.sub('[^a-z0-9]', '', s.lower())


class Table:
    def __init__(self, P, q):
        self.P, self.q = P, q
        self.ns = q.split('::')[0]
        gs = [g for g in P.globals.values() if g['q'] == q and g.get('nodes')]
        if not gs:
            raise Broken('option table %s vanished' % q)
        g = gs[0]
        self.where = '%s:%d' % (g['file'], g['line'])
        ns = g['nodes']

        def strs(i):
            x = ns[i]
            if x['k'] == 'StringLiteral':
                return [x.get('v', '')]
            r = []
            for c in x.get('c', ()):
                if c >= 0:
                    r += strs(c)
            return r

        def ints(i):
            x = ns[i]
            if x.get('ev') is not None:
                return int(x['ev'])
            for c in x.get('c', ()):
                if c >= 0:
                    v = ints(c)
                    if v is not None:
                        return v
            return None
        self.entries = []
        st = [0]
        while st:
            i = st.pop(0)
            x = ns[i]
            if x['k'] == 'InitListExpr' and 'UOption' in x.get('t', '') and '[' not in x.get('t', '') and 'array' not in x.get('t', ''):
                cs = x['c']
                nm = strs(cs[0])
                sh = ints(cs[1])
                ha = ints(cs[2])
                self.entries.append((nm[0] if nm else None, sh, ha, (strs(cs[3]) or [''])[0], x['l']))
                continue
            st = [c for c in x.get('c', ()) if c >= 0] + st
        e = [e for e in P.enums.values() if e['q'].startswith(self.ns + '::') and any(c[0] == 'HELP1' for c in e['cs'])]
        if not e:
            raise Broken('enum of options of %s vanished' % q)
        self.enum = [(c[0], int(c[1])) for c in e[0]['cs']]
        self.name = {v: n for n, v in self.enum}
        self.ids = {g2['id'] for g2 in P.globals.values() if g2['q'] == q}

    def arg(self, opt):
        return self.entries[dict(self.enum)[opt]][2]


def named(n):
    """is this expression just the initialiser of a variable?"""
    p = n.p
    while p is not None and p.k not in ('VarDecl', 'DeclStmt') and (p.k in CASTS or p.k in ('CXXConstructExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr')):
        p = p.p
    return p is not None and p.k == 'VarDecl' and '&' in (p.t or '')


CASTS = ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'ParenExpr', 'ImplicitCastExpr')


class Scan:
    """settings made under each option, through helper functions of the program"""

    def __init__(self, P, tab, files):
        self.P, self.tab = P, tab
        self.eff = []        # (frozenset of options that hold, target, value, node)
        self.reads = []      # (option, 'doesOccur'/'value', held, node, f, nonempty)
        self.extra = {}      # index into eff -> options its conditions look at
        self.tested = set()
        self.funcs = set()
        self.files = files
        self._mention = {}
        self._tcd = {}

    def tcd(self, f):
        if f.id not in self._tcd:
            t = cdep.transitive(f.cfg)
            pos = {}
            for b in f.cfg.b.values():
                for e in b.els:
                    if not isinstance(e, tuple):
                        pos.setdefault(id(e), b.id)
            self._tcd[f.id] = (t, pos)
        return self._tcd[f.id]

    def opt_member(self, n, env):
        """(option constant name, member) for options[X].member, resolving parameters, references and single-assignment locals"""
        n = strip(n)
        if n is None:
            return None
        if n.k == 'MemberExpr' and n.get('mc') == 'Options::UOption':
            o = self.opt(n.c[0], env)
            if o:
                return o, n.get('m')
        if n.k == 'DeclRefExpr' and n.get('dk') == 'Var' and not n.get('g'):
            v = self.resolve(n, env)
            if v is not None and not isinstance(v, tuple) and v is not n:
                x = strip(v)
                if x is not None and x.k == 'MemberExpr':
                    return self.opt_member(x, env)
        return None

    def opt(self, b, env):
        b = strip(b)
        if b is None:
            return None
        if b.k in ('CXXOperatorCallExpr', 'ArraySubscriptExpr') or is_call(b, 'at'):
            base = strip(args(b)[0] if b.k == 'CXXOperatorCallExpr' else recv(b) if b.k == 'CXXMemberCallExpr' else b.c[0])
            idx = strip(args(b)[-1] if b.k in CALLS else b.c[1])
            if self.is_table(base, env):
                if idx.ev is not None:
                    return self.tab.name.get(int(idx.ev))
                v = env.get(canon(idx))
                if v is not None and not isinstance(v, tuple) and v.ev is not None:
                    return self.tab.name.get(int(v.ev))
            return None
        if b.k == 'DeclRefExpr':
            v = self.resolve(b, env)
            if v is not None and v is not b:
                return self.opt(v, env)
        return None

    def is_table(self, base, env):
        base = strip(base)
        if base.k != 'DeclRefExpr':
            return False
        if base.get('id') in self.tab.ids or base.get('q') == self.tab.q:
            return True
        v = self.resolve(base, env)
        return v is not None and v is not base and self.is_table(v, env)

    def resolve(self, d, env):
        """the expression a parameter or a single-assignment local stands for"""
        k = canon(d)
        if k in env:
            return env[k]
        if d.get('dk') != 'Var' or d.get('g'):
            return None
        f = d.fn
        ini, writes = None, 0
        for n in f.walk():
            if n.k == 'VarDecl' and n.get('id') == d.get('id'):
                ini = n.c[0] if n.c else None
            elif n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('op', '').endswith('=') and n.get('op') not in ('==', '!=', '<=', '>='):
                x = strip(n.c[0])
                if x.k == 'DeclRefExpr' and x.get('id') == d.get('id'):
                    writes += 1
        return ini if ini is not None and not writes else None

    def mentions(self, f):
        """does f (or a function it calls) look at the table?"""
        if f.id in self._mention:
            return self._mention[f.id]
        self._mention[f.id] = False
        r = False
        for n in f.walk():
            if n.k == 'DeclRefExpr' and (n.get('id') in self.tab.ids or n.get('q') == self.tab.q):
                r = True
            elif n.k == 'MemberExpr' and n.get('mc') == 'Options::UOption':
                r = True
            elif n.k in CALLS:
                for t in self.P.targets(n):
                    if t.file in self.files and self.mentions(t):
                        r = True
        self._mention[f.id] = r
        return r

    def held_of(self, e, pol, env, depth=0):
        """options known to occur when expression e has truth value pol"""
        e = strip(e)
        if e is None or depth > 6:
            return set()
        om = self.opt_member(e, env)
        if om and om[1] == 'doesOccur':
            self.tested.add(om[0])
            return {om[0]} if pol else set()
        if e.k == 'UnaryOperator' and e.get('op') == '!':
            return self.held_of(e.c[0], not pol, env, depth + 1)
        if e.k == 'BinaryOperator' and e.get('op') in ('!=', '==') and strip(e.c[1]).ev is not None:
            want = (int(strip(e.c[1]).ev) != 0) == (e.get('op') == '==')
            return self.held_of(e.c[0], pol if want else not pol, env, depth + 1)
        if e.k == 'BinaryOperator' and e.get('op') in ('&&', '||'):
            a, b = self.held_of(e.c[0], pol, env, depth + 1), self.held_of(e.c[1], pol, env, depth + 1)
            return a | b
        if e.k == 'DeclRefExpr':
            v = self.resolve(e, env)
            if v is not None and not isinstance(v, tuple):
                return self.held_of(v, pol, env, depth + 1)
        if e.k in CALLS:
            for t in self.P.targets(e):
                rs = [n for n in t.walk() if n.k == 'ReturnStmt' and n.c]
                if len(rs) == 1 and self.mentions(t):
                    return self.held_of(rs[0].c[0], pol, self.bind(t, e, env), depth + 1)
        return set()

    def nonempty_of(self, e, pol, env):
        e = strip(e)
        if e.k == 'UnaryOperator' and e.get('op') == '!':
            return self.nonempty_of(e.c[0], not pol, env)
        if is_call(e, 'empty') and not pol:
            om = self.opt_member(recv(e), env)
            if om and om[1] == 'value':
                return {om[0]}
        if is_call(e, 'size', 'length') and pol:
            om = self.opt_member(recv(e), env)
            if om and om[1] == 'value':
                return {om[0]}
        if e.k == 'BinaryOperator' and e.get('op') in ('>', '!=') and strip(e.c[1]).ev is not None and int(strip(e.c[1]).ev) == 0:
            return self.nonempty_of(e.c[0], pol, env)
        if e.k == 'BinaryOperator' and e.get('op') == '==' and strip(e.c[1]).ev is not None and int(strip(e.c[1]).ev) == 0:
            return self.nonempty_of(e.c[0], not pol, env)
        return set()

    def bind(self, t, call, env):
        e2 = {}
        as_ = args(call)
        if call.k == 'CXXOperatorCallExpr' and call.get('cls'):
            as_ = as_[1:]
        for p, a in zip(t.params, as_):
            a = strip(a)
            if a.k == 'DeclRefExpr' and canon(a) in env:
                a = env[canon(a)]
            e2['d:%s' % p['id']] = a
        if t.is_lambda:
            for k, v in env.items():
                e2.setdefault(k, v)
        return e2

    def target(self, n, env):
        """name of the setting an expression denotes"""
        n = strip(n)
        om = self.opt_member(n, env)
        if om:
            return '%s.%s' % om
        if n.k == 'MemberExpr':
            return n.get('m')
        if n.k == 'DeclRefExpr':
            v = self.resolve(n, env) if n.get('dk') == 'ParmVar' else None
            if v is not None:
                return self.target(v, env)
            q = n.get('q') or n.get('d')
            return q if n.get('g') and '::' in q and q.split('::')[-2][:1].isupper() else q.split('::')[-1]
        if n.k in ('UnaryOperator', 'CXXOperatorCallExpr', 'ArraySubscriptExpr') and n.c:
            return self.target(n.c[-1] if n.k == 'UnaryOperator' else args(n)[0] if n.k in CALLS else n.c[0], env)
        return None

    def mentioned(self, e, env, depth=0):
        out = set()
        for x in e.walk():
            om = self.opt_member(x, env)
            if om:
                out.add(om[0])
            elif x.k == 'DeclRefExpr' and depth < 4:
                v = self.resolve(x, env)
                if v is not None and not isinstance(v, tuple) and v is not x and 'bool' in (x.t or ''):
                    out |= self.mentioned(v, env, depth + 1)
            elif x.k in CALLS and depth < 4:
                for t in self.P.targets(x):
                    if t.file in self.files and self.mentions(t) and 'bool' in (x.t or ''):
                        out |= self.mentioned(t.body, self.bind(t, x, env), depth + 1)
        return out

    def run(self, f, held=frozenset(), nonempty=frozenset(), env=None, depth=0, outer=frozenset()):
        env = env or {}
        if depth > 5:
            return
        self.funcs.add(f)
        tcd, pos = self.tcd(f)
        seen = {}

        def ctx(n):
            b = None
            x = n
            while x is not None and id(x) not in pos:
                x = x.p
            if x is None:
                return held, nonempty
            b = pos[id(x)]
            if b not in seen:
                h, ne = set(held), set(nonempty)
                for (a, i) in tcd[b]:
                    e, neg = flow.leafcond(f.cfg.b[a])
                    if e is None:
                        continue
                    pol = (i == 0) != neg
                    h |= self.held_of(e, pol, env)
                    ne |= self.nonempty_of(e, pol, env)
                seen[b] = (frozenset(h), frozenset(ne))
            return seen[b]

        def conds(n):
            """the options the conditions look at under which n runs"""
            x = n
            while x is not None and id(x) not in pos:
                x = x.p
            if x is None:
                return set(outer)
            b = pos[id(x)]
            if b not in oseen:
                oseen[b] = set(outer)
                for (a, i) in tcd[b]:
                    e, neg = flow.leafcond(f.cfg.b[a])
                    if e is not None:
                        oseen[b] |= self.mentioned(e, env)
            return set(oseen[b])
        oseen = {}

        for n in f.walk():
            om = self.opt_member(n, env)
            if om and n.k == 'MemberExpr' and named(n):
                om = None        # only given a name here
            if om:
                w = n.p
                lhs = w is not None and w.k == 'BinaryOperator' and w.get('op') == '=' and strip(w.c[0]) is n
                h, ne = ctx(n)
                if om[1] == 'doesOccur' and not lhs:
                    self.tested.add(om[0])
                self.reads.append((om[0], om[1], h, n, f, ne, lhs))
            if n.k == 'BinaryOperator' and n.get('op') == '=' or n.k == 'CXXOperatorCallExpr' and n.get('op') == '=':
                l, r = (n.c[0], n.c[1]) if n.k == 'BinaryOperator' else args(n)
                t = self.target(l, env)
                if t:
                    h, _ = ctx(n)
                    rr = strip(r)
                    if rr is not None and rr.k == 'ConditionalOperator' and strip(rr.c[1]).ev != strip(rr.c[2]).ev:
                        for i, part in ((1, rr.c[1]), (2, rr.c[2])):
                            h2 = h | self.held_of(rr.c[0], i == 1, env)
                            self.eff.append((h2 | self.cond_value(part, env, True), t, self.value(part, env), n, f))
                            self.extra[len(self.eff) - 1] = conds(n) | self.mentioned(rr.c[0], env)
                        continue
                    h = h | self.cond_value(r, env, True)
                    self.eff.append((h, t, self.value(r, env), n, f))
                    self.extra[len(self.eff) - 1] = conds(n) | (self.mentioned(r, env) if self.cond_value(r, env, True) else set())
            if n.k in CALLS and n.k not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                h, ne = ctx(n)
                ts = self.P.targets(n)
                fs = n.get('fs')
                if n.k == 'CXXOperatorCallExpr' and not any(t.is_lambda for t in ts):
                    continue
                entered = False
                for t in ts:
                    if t.file in self.files and self.mentions(t) and t is not f and t.n != 'setOptions' and t.n not in ('parse_opts', 'parse_opts_env'):
                        self.run(t, h, ne, self.bind(t, n, env), depth + 1, frozenset(conds(n)))
                        entered = True
                start = len(self.eff)
                if fs and h:
                    self.eff.append((h, fs + '()', None, n, f))
                    rc = recv(n)
                    if rc is not None and fs in ('push_back', 'insert', 'emplace_back', 'assign', 'reset', 'resize', 'operator+='):
                        t = self.target(rc, env)
                        if t:
                            self.eff.append((h, t, None, n, f))
                    for _, a in byref_args(n):
                        t = self.target(a, env)
                        if t:
                            self.eff.append((h, t, None, n, f))
                    for a in args(n):
                        if a is not None and strip(a).k == 'UnaryOperator' and strip(a).get('op') == '&':
                            t = self.target(strip(a).c[0], env)
                            if t:
                                self.eff.append((h, t, None, n, f))
                # an option handed over as an argument
                for t in ts:
                    as_ = args(n)
                    for p, a in zip(t.params, as_):
                        if a is None:
                            continue
                        hh = self.cond_value(a, env)
                        if hh:
                            self.eff.append((frozenset(hh), '%s():%s' % (fs, p.get('d') or p.get('name')), None, n, f))
                            self.extra[len(self.eff) - 1] = conds(n) | self.mentioned(a, env)
                if len(self.eff) > start:
                    cn = conds(n)
                    for i in range(start, len(self.eff)):
                        self.extra.setdefault(i, cn)

    def cond_value(self, r, env, both=False):
        r = strip(r)
        if r is None or r.k in ('BinaryOperator', 'UnaryOperator', 'MemberExpr', 'DeclRefExpr', 'CXXOperatorCallExpr') and 'bool' not in (r.t or ''):
            return set()
        return self.held_of(r, True, env) or (self.held_of(r, False, env) if both else set())

    def value(self, r, env):
        r = strip(r)
        if r is None:
            return None
        if r.k == 'DeclRefExpr' and r.get('dk') == 'EnumConstant' and r.get('d', '').startswith('CG3SF_'):
            return r.get('d')[6:]
        if r.ev is not None:
            return int(r.ev)
        if r.k == 'DeclRefExpr':
            v = self.resolve(r, env)
            if v is not None and not isinstance(v, tuple):
                return self.value(v, env)
        if r.k not in CALLS and self.held_of(r, True, env):
            return 1
        if r.k == 'UnaryOperator' and r.get('op') == '!' and self.held_of(r, False, env):
            return 0
        return None


def effects_check(ctx, tab, sc, spec, who, known):
    """each option makes its settings, and no setting of one option is made by another"""
    targets = {}
    for o, l in spec.items():
        for t, v in l:
            targets.setdefault(t, set()).add(o)
    owner = {}
    for o, l in spec.items():
        for t, v in l:
            owner.setdefault((t, v), set()).add(o)
    for o, l in sorted(spec.items()):
        for t, v in l:
            hits = [(h, tt, vv, n, f) for h, tt, vv, n, f in sc.eff if o in h and tt.split('::')[-1] == t.split('::')[-1] and (v is None and (vv is None or True) or vv == v)]
            if v is None:
                hits = [x for x in hits if x[2] is None or x[1].endswith('()') or isinstance(x[2], int) and len([1 for y in l if y[0] == t]) == 1 and t in ('profiler',)]
            w = hits[0][3].where() if hits else tab.where
            ctx.check(bool(hits), 'effect', '%s:%s:%s' % (who, o, t), w, '%s: --%s sets %s%s' % (who, tab.entries[dict(tab.enum)[o]][0], t, '' if v is None else '=%s' % v),
                      '%s: --%s does not set %s%s' % (who, tab.entries[dict(tab.enum)[o]][0], t, '' if v is None else ' to %s' % v))
            idx = [i for i, x in enumerate(sc.eff) if any(x[3] is y[3] and x[0] == y[0] and x[1] == y[1] and x[2] == y[2] for y in hits)]
            ex = [(sc.extra[i] - {o}, sc.eff[i]) for i in idx if i in sc.extra]
            if ex:
                may = set(END)
                if t in ONE_OF:
                    may |= targets[t] | (targets.get('fmt_output', set()) if t == 'unicode_tags' else set())
                    may |= {'GRAMMAR_ONLY'}       # nothing is read or printed
                if t.endswith('.doesOccur') and v == 1:
                    may.add(t.split('.')[0])      # setting what is set already is no change
                # options tested together (a || b) that stand for the same setting
                ex = [(y[0] - {q for q in y[1][0] if (t, v) in spec.get(q, ())}, y[1]) for y in ex]
                e, x = min(ex, key=lambda y: len(y[0] - may))
                e = e - may
                ctx.check(not e, 'alone', '%s:%s:%s' % (who, o, t), x[3].where(), '%s: --%s sets %s whatever else is given' % (who, tab.entries[dict(tab.enum)[o]][0], t),
                          '%s: whether --%s sets %s depends on --%s as well' % (who, tab.entries[dict(tab.enum)[o]][0], t, ', --'.join(tab.entries[dict(tab.enum)[q]][0] for q in sorted(e))))
    # nobody else
    names = {t.split('::')[-1] for t in targets}
    for h, t, v, n, f in sc.eff:
        tn = t.split('::')[-1]
        if tn not in names or t.endswith('()') or not h:
            continue
        sp = [(o, vv) for o, l in spec.items() for tt, vv in l if tt.split('::')[-1] == tn]
        ok = any(o in h and (vv is None or vv == v or v is None) for o, vv in sp)
        # a constant that contradicts the option
        okc = any(o in h and (vv == v) for o, vv in sp) or v is None and any(o in h and vv is None for o, vv in sp)
        if not ok or (v is not None and not okc):
            ctx.bad('owner', '%s:%s:%s' % (who, '+'.join(sorted(h)), tn), n.where(), '%s: %s is set to %s under --%s, which does not stand for that' % (
                who, tn, v, ', --'.join(tab.entries[dict(tab.enum)[o]][0] for o in sorted(h))))
        else:
            ctx.ok('owner', n.where(), '%s: %s set under %s' % (who, tn, '+'.join(sorted(h))))


def reach_from(f, n):
    """elements that can execute after n"""
    b, i = None, None
    for B in f.cfg.b.values():
        for k, e in enumerate(B.els):
            if e is n:
                b, i = B.id, k
    if b is None:
        return []
    res = list(f.cfg.b[b].els[i + 1:])
    seen, work = set(), [s for s in f.cfg.b[b].succ if s >= 0]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        res += f.cfg.b[x].els
        work += [s for s in f.cfg.b[x].succ if s >= 0]
    return res


def sticky(ctx, tab, sc, who, f):
    """a setting made for an option is not undone by unconditional code that runs later"""
    eff = [(h, t, n) for h, t, v, n, ff in sc.eff if ff is f]
    for h, t, n in eff:
        if not h or t.endswith('()') or '():' in t:
            continue
        after = {id(x) for x in reach_from(f, n) if not isinstance(x, tuple)}
        bad = [(t2, n2) for h2, t2, n2 in eff if t2 == t and not h2 and id(n2) in after and n2.k in ('BinaryOperator',) and n2.get('op') == '=' and strip(n2.c[1]).ev is not None]
        ctx.check(not bad, 'sticky', '%s:%s:%s' % (who, '+'.join(sorted(h)), t), bad[0][1].where() if bad else n.where(), '%s: %s stays set' % (who, t),
                  '%s: %s, set for an option at %s, is unconditionally set again afterwards' % (who, t, n.where()))


def merges(ctx, P, f, who, tq, plan):
    """`plan`: [(source table suffix, guards that must hold: (table suffix, polarity))]; all copies table[i] = source[i]"""
    tcd = cdep.transitive(f.cfg)
    dom = cdep.dominators(f.cfg)
    pos = {}
    for b in f.cfg.b.values():
        for k, e in enumerate(b.els):
            if not isinstance(e, tuple):
                pos.setdefault(id(e), (b.id, k))
    main = tq.split('::')[-1]

    def elem(n, depth=0):
        n = strip(n)
        while n is not None and n.k == 'CXXConstructExpr' and len(n.c) == 1:
            n = strip(n.c[0])
        if n is not None and n.k == 'DeclRefExpr' and n.get('dk') == 'Var' and depth < 3:
            for x in f.walk():
                if x.k == 'VarDecl' and x.get('id') == n.get('id') and x.c and x.c[0] is not None and '&' in (x.t or ''):
                    return elem(x.c[0], depth + 1)
        if n is not None and n.k == 'CXXOperatorCallExpr' and n.get('op') == '[]':
            b, i = strip(args(n)[0]), strip(args(n)[1])
            if b.k == 'DeclRefExpr' and i.ev is None:
                return (b.get('q') or b.get('d')).split('::')[-1], canon(i)
        return None
    found = {}
    for n in f.walk():
        if n.k == 'CXXOperatorCallExpr' and n.get('op') == '=' and n.get('cls') == 'Options::UOption':
            l, r = elem(args(n)[0]), elem(args(n)[1])
            if l is None or r is None:
                continue
            if l[1] != r[1]:
                ctx.bad('merge', '%s:%s' % (who, r[0]), n.where(), '%s: option copied from another position of %s' % (who, r[0]))
                continue
            if l[0] != main:
                ctx.bad('merge', '%s:%s->%s' % (who, r[0], l[0]), n.where(), '%s: %s is overwritten with %s' % (who, l[0], r[0]))
                continue
            L = n
            while L is not None and not (L.k == 'ForStmt' and any(x.k == 'VarDecl' and l[1] == 'd:%s' % x.get('id') for x in (L.c[0].walk() if L.c[0] is not None else ()))):
                L = L.p
            if L is not None:
                ini = [x for x in L.c[0].walk() if x.k == 'VarDecl' and l[1] == 'd:%s' % x.get('id')][0]
                v0 = strip(ini.c[0]).ev if ini.c and ini.c[0] is not None else None
                ctx.check(v0 is None or int(v0) == 0, 'merge', '%s:%s:first' % (who, r[0]), n.where(), '%s: merging begins with the first option' % who, '%s: merging %s begins with option number %s' % (who, r[0], v0))
            b, k = pos[id(n)]
            g = set()
            for a, i in tcd[b]:
                e, neg = flow.leafcond(f.cfg.b[a])
                e = strip(e) if e is not None else None
                pol = (i == 0) != neg
                while e is not None and e.k == 'BinaryOperator' and e.get('op') in ('==', '!=') and strip(e.c[1]).ev is not None:
                    if (int(strip(e.c[1]).ev) != 0) != (e.get('op') == '=='):
                        pol = not pol
                    e = strip(e.c[0])
                if e is not None and e.k == 'MemberExpr' and e.get('m') == 'doesOccur':
                    x = elem(e.c[0])
                    if x and x[1] == l[1]:
                        g.add((x[0], pol))
            found[r[0]] = (g, n, b)
    order = []
    for src, guards in plan:
        want = set(guards)
        if src not in found:
            ctx.bad('merge', '%s:%s' % (who, src), f.file, '%s: %s is never merged into the options' % (who, src))
            continue
        g, n, b = found[src]
        ctx.check(g == want, 'merge', '%s:%s' % (who, src), n.where(), '%s: %s taken over exactly when %s' % (who, src, sorted(want)),
                  '%s: options of %s are taken over when %s, expected %s' % (who, src, sorted(g), sorted(want)))
        order.append((src, n, b))
    for s in found:
        if s not in [p[0] for p in plan]:
            ctx.bad('merge', '%s:%s' % (who, s), found[s][1].where(), '%s: unexpected merge of %s' % (who, s))
    # later tables win over earlier ones: the merge of a later one is never followed by the merge of an earlier one for the same position
    for i, (s1, n1, b1) in enumerate(order):
        for s2, n2, b2 in order[i + 1:]:
            k1, k2 = pos[id(n1)], pos[id(n2)]
            # same loop: n2 must be able to follow n1 without taking a back edge; back edges go to a block that dominates their source
            ok = forward_reach(f, dom, n1, n2)
            ctx.check(ok and not forward_reach(f, dom, n2, n1), 'merge', '%s:%s<%s' % (who, s1, s2), n2.where(), '%s: %s is merged before %s' % (who, s1, s2),
                      '%s: %s must be merged before %s' % (who, s1, s2))
    # filling before merging
    for src, n, b in order:
        fill = []
        for m in f.walk():
            if is_call(m, 'parse_opts_env', 'parse_opts'):
                d = strip(args(m)[1])
                if d.k == 'DeclRefExpr' and (d.get('q') or d.get('d')).split('::')[-1] == src:
                    fill.append(m)
        if not fill:
            ctx.bad('merge', '%s:fill:%s' % (who, src), f.file, '%s: %s is never filled' % (who, src))
            continue
        for m in fill:
            word = None
            for x in m.walk():
                if x.k == 'StringLiteral':
                    word = x.get('v')
            if word is None:
                a0 = strip(args(m)[0])
                txt = []
                for x in f.walk():
                    if x.k == 'VarDecl' and x.c and x.c[0] is not None and any(canon(y) == 'd:%s' % x.get('id') for y in a0.walk() if y.k == 'DeclRefExpr'):
                        txt += [y.get('m') for y in x.walk() if y.k == 'MemberExpr']
                txt += [y.get('m') for y in a0.walk() if y.k == 'MemberExpr']
                word = ','.join(t for t in txt if t and t.startswith('cmdargs'))
            exp = SOURCES[who].get(src)
            ctx.check(word == exp and forward_reach(f, dom, m, n) and not forward_reach(f, dom, n, m), 'merge', '%s:fill:%s' % (who, src), m.where(), '%s: %s comes from %s' % (who, src, word),
                      '%s: %s is filled from %s (expected %s) or after it was merged' % (who, src, word, exp))
    return order


SOURCES = {
    'vislcg3': {'options_default': 'CG3_DEFAULT', 'options_override': 'CG3_OVERRIDE', 'grammar_options_default': 'cmdargs', 'grammar_options_override': 'cmdargs_override'},
    'cg-proc': {'options_default': 'CG3_DEFAULT', 'options_override': 'CG3_OVERRIDE', 'grammar_options_default': 'cmdargs', 'grammar_options_override': 'cmdargs_override'},
    'cg-conv': {'options_default': 'CG3_CONV_DEFAULT', 'options_override': 'CG3_CONV_OVERRIDE'},
}


def forward_reach(f, dom, n1, n2):
    """can n2 execute after n1 without taking a loop's back edge?"""
    p = {}
    for b in f.cfg.b.values():
        for k, e in enumerate(b.els):
            if e is n1 or e is n2:
                p.setdefault(id(e), (b.id, k))
    if id(n1) not in p or id(n2) not in p:
        return False
    (b1, k1), (b2, k2) = p[id(n1)], p[id(n2)]
    if b1 == b2:
        return k1 < k2
    seen, work = set(), [b1]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == b2:
            return True
        if f.cfg.b[x].nr:
            continue
        for s in f.cfg.b[x].succ:
            if s < 0:
                continue
            if s in dom.get(x, ()):
                # end of an iteration: go on where the loop is left
                loop, st = {s}, [x]
                while st:
                    y = st.pop()
                    if y not in loop:
                        loop.add(y)
                        st += [q for q in f.cfg.b[y].pred if not f.cfg.b[q].nr]
                work += [t for y in loop for t in f.cfg.b[y].succ if t >= 0 and t not in loop]
            else:
                work.append(s)
    return False


def check(ctx):
    P = ctx.P
    ctx.rule('position', 'each entry of an option table is the option its constant is named after', 100)
    ctx.rule('unique', 'no two options of a program share a long or short name', 3)
    ctx.rule('handled', 'every option a program accepts is looked at by that program', 100)
    ctx.rule('effect', 'an option makes the settings it stands for', 90)
    ctx.rule('alone', 'whether an option makes its setting depends on no other option, except one that ends the program or asks for another format', 90)
    ctx.rule('argument', "a number given as an option's argument is taken as it stands", 8)
    ctx.rule('owner', 'a setting an option stands for is made under no other option and with no other value', 60)
    ctx.rule('sticky', 'a setting made for an option is not unconditionally reset afterwards', 60)
    ctx.rule('value', "an option's argument is read only where the option occurred and can have one; an optional argument only after testing that it is there", 40)
    ctx.rule('merge', 'defaults only fill in options that were not given, overrides always win, grammar options yield to forced ones', 20)
    ctx.rule('used', 'a setting an option makes is looked at by the engine', 40)
    ctx.rule('rulename', 'rules selected by name or number are listed by the same kind of number that the engine filters by', 3)

    tabs = {q: Table(P, q) for q in ('Options::options', 'OptionsConv::options_conv', 'OptionsMWE::options_mwe')}
    for q, t in tabs.items():
        n = [v for k, v in t.enum if k.startswith('NUM_OPTIONS')]
        if not n:
            raise Broken('no option count in ' + q)
        ctx.check(len(t.entries) == n[0], 'position', q + ':count', t.where, '%s has %d entries' % (q, n[0]), '%s has %d entries for %d options' % (q, len(t.entries), n[0]))
        for name, v in t.enum:
            if name.startswith('NUM_OPTIONS'):
                continue
            want = SPELL.get(name, name)
            got = t.entries[v][0] if v < len(t.entries) else None
            ok = got is not None and (norm(got) == norm(want) if want not in ('?', 'v', 'V') else got == want)
            # NODOES -> no-does
            ctx.check(ok, 'position', '%s:%s' % (q, name), '%s:%s' % (t.where.split(':')[0], t.entries[v][4] if got else 0), '%s is --%s' % (name, got), '%s is --%s' % (name, got))
        longs = [e[0] for e in t.entries]
        shorts = [chr(e[1]) for e in t.entries if e[1]]
        dup = sorted({x for x in longs if longs.count(x) > 1} | {x for x in shorts if shorts.count(x) > 1})
        ctx.check(not dup, 'unique', q, t.where, '%d long, %d short names' % (len(longs), len(shorts)), 'names used twice: %s' % dup)

    so = P.fn('GrammarApplicator::setOptions')
    mains = {'vislcg3': P.fn('main', file='src/main.cpp'), 'cg-conv': P.fn('main', file='src/cg-conv.cpp'), 'cg-proc': P.fn('main', file='src/cg-proc.cpp'),
             'cg-mwesplit': P.fn('main', file='src/cg-mwesplit.cpp')}
    ctx.saw(so, *mains.values())

    T = tabs['Options::options']
    sa = Scan(P, T, {so.file})
    sa.run(so)
    sm = Scan(P, T, {'src/main.cpp'})
    sm.run(mains['vislcg3'])
    C = tabs['OptionsConv::options_conv']
    sc = Scan(P, C, {'src/cg-conv.cpp'})
    sc.run(mains['cg-conv'])
    M = tabs['OptionsMWE::options_mwe']
    sw = Scan(P, M, {'src/cg-mwesplit.cpp'})
    sw.run(mains['cg-mwesplit'])
    for x in (sa, sm, sc, sw):
        ctx.saw(*x.funcs)

    for tab, scans, who in ((T, (sa, sm), 'vislcg3'), (C, (sc,), 'cg-conv'), (M, (sw,), 'cg-mwesplit')):
        tested = set().union(*[s.tested for s in scans])
        valued = {r[0] for s in scans for r in s.reads if r[1] == 'value'}
        for name, v in tab.enum:
            if name.startswith('NUM_OPTIONS') or name in NO_EFFECT.get(tab.ns, {}):
                continue
            ctx.check(name in tested or name in valued, 'handled', '%s:%s' % (who, name), tab.where, '%s looks at --%s' % (who, tab.entries[v][0]),
                      '%s accepts --%s but never looks at it' % (who, tab.entries[v][0]))

    effects_check(ctx, T, sa, APPLY, 'setOptions', None)
    effects_check(ctx, T, sm, MAIN, 'vislcg3', None)
    effects_check(ctx, C, sc, CONV, 'cg-conv', None)
    sticky(ctx, T, sa, 'setOptions', so)
    sticky(ctx, T, sm, 'vislcg3', mains['vislcg3'])
    sticky(ctx, C, sc, 'cg-conv', mains['cg-conv'])

    # arguments
    for tab, s, who in ((T, sa, 'setOptions'), (T, sm, 'vislcg3'), (C, sc, 'cg-conv')):
        for o, m, h, n, f, ne, lhs in s.reads:
            if m != 'value' or lhs:
                continue
            ha = tab.arg(o)
            probe = n.p is not None and n.p.p is not None and is_call(n.p.p, 'empty', 'size', 'length') or n.p is not None and is_call(n.p, 'empty', 'size', 'length')
            long_ = tab.entries[dict(tab.enum)[o]][0]
            ok = o in h or (who == 'vislcg3' and o == 'GRAMMAR')     # main() refuses to go on without --grammar
            if ha == 0:
                ctx.bad('value', '%s:%s' % (who, o), n.where(), '%s: the argument of --%s is read, which never has one' % (who, long_))
            elif not ok and not probe:
                ctx.bad('value', '%s:%s' % (who, o), n.where(), '%s: the argument of --%s is read where the option need not have been given' % (who, long_))
            elif ha == 2 and not probe and o not in ne and not (n.p is not None and n.p.k == 'CXXOperatorCallExpr' and n.p.get('op') in ('==', '!=')):
                ctx.bad('value', '%s:%s:opt' % (who, o), n.where(), '%s: the optional argument of --%s is used without testing that there is one' % (who, long_))
            else:
                ctx.ok('value', n.where(), '%s: argument of --%s' % (who, long_))

    # numbers
    for s, who in ((sa, 'setOptions'), (sm, 'vislcg3'), (sc, 'cg-conv')):
        for f in s.funcs:
            for n in f.walk():
                if not is_call(n, 'stoul', 'stoi', 'stol', 'stoull', 'stoll', 'strtoul', 'atoi') or not any(x.k == 'MemberExpr' and x.get('mc') == 'Options::UOption' for x in n.walk()):
                    continue
                base = [a for a in args(n)[2:] if a is not None]
                bad = None
                if base and base[0].ev is not None and int(base[0].ev) != 10:
                    bad = 'read in base %d' % int(base[0].ev)
                x = n.p
                while x is not None and bad is None and not (x.k in ('VarDecl', 'CompoundStmt', 'DeclStmt', 'ReturnStmt', 'ConditionalOperator') or x.k == 'BinaryOperator' and x.get('op') == '='):
                    if x.k in ('BinaryOperator', 'UnaryOperator', 'CompoundAssignOperator'):
                        bad = 'changed by %s' % x.get('op')
                    elif (x.k in CASTS or is_call(x, 'UI8', 'SI8', 'UI16', 'SI16')) and re.match(r'^(const )?(u?int(8|16)_t|unsigned char|unsigned short|short|char|signed char|bool)$', x.t or ''):
                        bad = 'cut down to %s' % x.t
                    x = x.p
                ctx.check(bad is None, 'argument', '%s:%s' % (who, n.where().split(':')[0] + ':' + ','.join(sorted(y.get('m') or '' for y in n.walk() if y.k == 'MemberExpr'))), n.where(), 'taken as it stands', 'the number given is %s' % bad)

    # merging
    D, V, GD, GO = 'options_default', 'options_override', 'grammar_options_default', 'grammar_options_override'
    plan = [(D, {(D, True), ('options', False)}), (V, {(V, True)}), (GD, {(GD, True), ('options', False)}), (GO, {(GO, True), (V, False)})]
    for who in ('vislcg3', 'cg-proc'):
        f = mains[who]
        od = merges(ctx, P, f, who, 'Options::options', plan)
        dom = cdep.dominators(f.cfg)
        calls = [n for n in f.walk() if is_call(n, 'setOptions')]
        if not calls:
            raise Broken('%s does not call setOptions' % who)
        for src, n, b in od:
            for c in calls:
                ctx.check(forward_reach(f, dom, n, c) and not forward_reach(f, dom, c, n), 'merge', '%s:before-set:%s' % (who, src), c.where(), '%s: options take effect after merging %s' % (who, src),
                          '%s: the options take effect before %s is merged' % (who, src))
    merges(ctx, P, mains['cg-conv'], 'cg-conv', 'OptionsConv::options_conv', [(D, {(D, True), ('options_conv', False)}), (V, {(V, True)})])
    for who, s in (('vislcg3', sm), ('cg-conv', sc)):
        f = mains[who]
        dom = cdep.dominators(f.cfg)
        pa = [n for n in f.walk() if is_call(n, 'u_parseArgs')]
        env = [n for n in f.walk() if n.k == 'CXXOperatorCallExpr' and n.get('op') == '=' and n.get('cls') == 'Options::UOption']
        first = [n for n in env if any(x.k == 'DeclRefExpr' and (x.get('q') or '').endswith('options_override') and 'grammar' not in (x.get('q') or '') for x in n.walk())]
        if not pa or not first:
            raise Broken('%s: command line parsing vanished' % who)
        early = [r for r in s.reads if r[1] == 'doesOccur' and r[4] is f and not r[6] and not forward_reach(f, dom, first[0], r[3])]
        ctx.check(not early and forward_reach(f, dom, pa[0], first[0]), 'merge', who + ':early', early[0][3].where() if early else first[0].where(), '%s looks at options only after merging' % who,
                  '%s looks at --%s before the environment is merged' % (who, early[0][0] if early else ''))

    # settings are used
    readers = {}
    for f in P.funcs.values():
        if f is so or not f.file.startswith('src/') or f.file in ('src/libcg3.cpp',):
            continue
        for n in f.walk():
            if n.k == 'MemberExpr' and n.get('dk') == 'Field':
                par = n.p
                if par is not None and par.k == 'BinaryOperator' and par.get('op') == '=' and strip(par.c[0]) is n:
                    continue
                readers.setdefault(n.get('m'), f)
    for o, l in sorted(APPLY.items()):
        for t, v in l:
            if t.endswith('()') or t in NEVER_READ:
                continue
            ctx.check(t in readers, 'used', t, so.file, '%s is read in %s' % (t, readers[t].q if t in readers else ''), 'the setting %s made by an option is never looked at' % t)

    # selection of rules
    lists = []
    for f in (so, mains['cg-proc']) + tuple(sa.funcs):
        if f in [x[0] for x in lists]:
            continue
        for n in f.walk():
            if is_call(n, 'push_back', 'insert') and recv(n) is not None and strip(recv(n)).k == 'MemberExpr' and strip(recv(n)).get('m') == 'valid_rules':
                a = strip(args(n)[0])
                lists.append((f, n, a))
    idx = P.fn('GrammarApplicator::index')
    filt = None
    for n in idx.walk():
        if is_call(n, 'contains') and recv(n) is not None and strip(recv(n)).k == 'MemberExpr' and strip(recv(n)).get('m') == 'valid_rules':
            a = strip(args(n)[0])
            if a.k == 'MemberExpr':
                filt = a.get('m')
    if not filt or not lists:
        raise Broken('rule selection vanished')
    ctx.saw(idx)
    for f, n, a in lists:
        if a.k == 'MemberExpr' and a.get('mc') == 'Rule':
            ctx.check(a.get('m') == filt, 'rulename', f.q + ':' + f.file, n.where(), 'rule chosen by name is listed by its %s' % filt, 'rules are filtered by %s but listed by %s' % (filt, a.get('m')))
            # the name is compared with a string that was cut to the length of the converted name
            cmp_ = None
            for m in f.walk():
                if m.k == 'CXXOperatorCallExpr' and m.get('op') == '==' and any(x.k == 'MemberExpr' and x.get('m') == 'name' and x.get('mc') == 'Rule' for x in m.walk()):
                    cmp_ = m
            if cmp_ is not None:
                v = [x for x in cmp_.walk() if x.k == 'DeclRefExpr' and x.get('dk') == 'Var' and 'basic_string' in (x.t or '') or x.k == 'DeclRefExpr' and x.get('d') == 'buf']
                ok = True
                if v:
                    vid = v[0].get('id')
                    made_long = any(x.k == 'VarDecl' and x.get('id') == vid and any(y.k == 'BinaryOperator' and y.get('op') == '*' for y in x.walk()) for x in f.walk())
                    cut = any(is_call(x, 'resize', 'assign', 'erase') and recv(x) is not None and canon(recv(x)) == 'd:%s' % vid for x in f.walk())
                    ok = cut or not made_long
                ctx.check(ok, 'rulename', f.q + ':cmp', cmp_.where(), 'name compared in full and without padding', 'the converted name keeps its padding and equals no rule name')
        else:
            ctx.ok('rulename', n.where(), 'rule chosen by number')
