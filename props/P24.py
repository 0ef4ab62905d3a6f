"""Abstract interpretation of the merge of base rules and override rules (every field, every combination of
given / not given), of the selection of the options for a file, and of the include/exclude matching; provenance of
every setting the formatter uses; who-may-format rule for the options handed to the formatter and linter."""
from props.common import *

FR = 'tombi_config::format::FormatRules'; LR = 'tombi_config::lint::LintRules'
DEFS = 'tombi_formatter::formatter::definitions::FormatDefinitions'
# setting of the formatter -> documented option
EXPECT = {'line_width': 'line_width', 'line_ending': 'line_ending', 'group_blank_lines_limit': 'group_blank_lines_limit',
 'table_blank_lines': 'table_blank_lines', 'indent_style': 'indent_style', 'indent_sub_tables': 'indent_sub_tables',
 'indent_table_key_values': 'indent_table_key_value_pairs', 'indent_width': 'indent_width', 'string_quote_style': 'string_quote_style',
 'trailing_comment_alignment': 'trailing_comment_alignment', 'trailing_comment_space': 'trailing_comment_space_width',
 'key_value_equal_alignment': 'key_value_equals_sign_alignment', 'key_value_equal_space': 'key_value_equals_sign_space_width',
 'date_time_delimiter': 'date_time_delimiter', 'array_bracket_space': 'array_bracket_space_width', 'array_comma_space': 'array_comma_space_width',
 'comment_style': 'comment_style', 'inline_table_brace_space': 'inline_table_brace_space_width', 'inline_table_comma_space': 'inline_table_comma_space_width'}
SOME0 = (('d', 'Some'), ('f', '0'))

def root_of(k):
    r = k[0]
    while isinstance(r, tuple): r = r[1][0]
    return r

class Merge(Model):
    """Option fields of the two operands are given/not given by assumption; the result is inspected at the return."""
    init = None
    def __init__(self, adt, selfv, ovrv): self.adt = adt; self.v = {1: selfv, 2: ovrv}; self.got = []; self.reads = set()
    def read(self, X, bi, p, owner):
        if owner != self.adt or not p[1] or p[1][-1][0] != 'f' or len(p[1]) > 1 and p[1][0][0] == 'd': return None
        r = root_of(p)
        if r not in self.v: return None
        v = self.v[r]; self.reads.add((r, p[1][-1][1]))
        if v is None: return [((), ('v', OPT, 'None'))]
        return [((), ('v', OPT, 'Some')), (SOME0, ('str', v + '.' + p[1][-1][1]))]
    def on_ret(self, X, bi, env, a):
        for l in X.F.ret_locals: self.got.append({k[1]: v for k, v in env.items() if k[0] == l})
        return a

def merges(ck, prog, adt):
    name = adt.rsplit('::', 1)[-1]
    fields = [n for n, t, _ in prog.adts[adt].fields() if t.d is not None and t.d.path == OPT]
    ck.floor(name + '_fields', len(fields), 17 if name == 'FormatRules' else 3)
    # the merging function: takes the rules twice, gives the rules back
    l = [f for f in prog.fns if f.crate.name == 'tombi_config' and f.ac == 2 and f.kind not in ('closure', 'coroutine') and f.trait is None
         and f.ltys[0].peel().d is not None and f.ltys[0].d is not None and f.ltys[0].d.path == adt and all(f.ltys[i].peel().d is not None and f.ltys[i].peel().d.path == adt for i in (1, 2))]
    fn = ck.need(l[0] if l else None, 'merge:' + name, 'the function merging two ' + name)
    if not fn: return None, None
    F = Flat(prog, fn, lambda g, fr, c: g.crate.name == 'tombi_config')
    pri = {}
    for s, o in (('A', 'B'), ('A', None), (None, 'B'), (None, None)):
        m = Merge(adt, s, o); X = Explorer(F, m); X.run(); ck.count('states', X.states)
        ck.ob(bool(m.got), 'merge-return:' + name, '%s: no return explored' % fn.path)
        for env in m.got:
            for f in fields:
                v = env.get((('f', f),)); pay = env.get((('f', f),) + SOME0)
                if v is None or v[0] != 'v': pri.setdefault(f, {})[(s, o)] = '?'
                elif v[2] == 'None': pri.setdefault(f, {})[(s, o)] = None
                else: pri.setdefault(f, {})[(s, o)] = pay[1] if pay is not None and pay[0] == 'str' else '?'
    return fn, (fields, pri)

def check(ck):
    prog = ck.prog
    mergers = {}
    for adt in (FR, LR):
        if not ck.need(prog.adts.get(adt), adt, 'the rules structure'): return
        fn, r = merges(ck, prog, adt)
        if fn is None: continue
        mergers[adt] = fn
        # which operand is the override: the one fed from the Override*Options at the call
        sl = Slicer(prog, follow=False)
        sites = [(f, bi, c) for f in prog.fns if f.crate.name not in NOISE for bi, c in f.calls() if c.callee is fn.d]
        ck.floor('merge_calls_' + adt.rsplit('::', 1)[-1], len(sites), 1)
        for f, bi, c in sites:
            ov = []
            for a in c.args:
                tk = LocalUp(prog, sl, f, a)
                ov.append(any(t[0] == 'field' and 'overrides::Override' in str(t[1]) for t in tk))
            ck.ob(ov.count(True) == 1, 'merge-operands', 'one operand of the merge must be the base rules and the other the override rules (%s)' % f.loc(c.line), sample='merge operands: override=%s' % ov)
            if ov.count(True) != 1: continue
            o, b = ('B', 'A') if ov[1] else ('A', 'B')
            fields, pri = r
            for x in fields:
                p = pri[x]
                key = lambda bb, oo: (bb if b == 'A' else oo, oo if b == 'A' else bb)
                both = p[('A', 'B')]; onlyb = p[('A', None) if b == 'A' else (None, 'B')]; onlyo = p[(None, 'B') if o == 'B' else ('A', None)]
                ck.ob(both == o + '.' + x, 'precedence:%s.%s' % (adt.rsplit('::', 1)[-1], x), '%s: %s is given by base and override, but the result is %s instead of the override (%s)' % (fn.path, x, both, fn.loc()), sample='%s: override first' % x)
                ck.ob(onlyb == b + '.' + x, 'base-lost:%s.%s' % (adt.rsplit('::', 1)[-1], x), '%s: %s is given by the base rules only, but the result is %s (%s)' % (fn.path, x, onlyb, fn.loc()))
                ck.ob(onlyo == o + '.' + x, 'override-lost:%s.%s' % (adt.rsplit('::', 1)[-1], x), '%s: %s is given by the override only, but the result is %s (%s)' % (fn.path, x, onlyo, fn.loc()))
                ck.ob(p[(None, None)] is None, 'invented:%s.%s' % (adt.rsplit('::', 1)[-1], x), '%s: %s is given by neither, but the result is %s (%s)' % (fn.path, x, p[(None, None)], fn.loc()))
    selection(ck, prog, mergers)
    matching(ck, prog)
    definitions(ck, prog)
    callers(ck, prog)
    ck.rule('override first, then base, field by field; options of the first matching override; include and not exclude; every formatter setting comes from its own option; formatter and linter only run with the options selected for the file')

def LocalUp(prog, sl, f, a):
    """Tokens of an operand with captures of closures resolved."""
    out = set(); work = [(f, a)]; seen = set()
    while work:
        g, o = work.pop()
        for t in sl.operand(g, o):
            if t[0] == 'upvar':
                if (g.path, t[1]) in seen: continue
                seen.add((g.path, t[1]))
                for h, s in sl.creators(g.d):
                    for n, x in zip(s[2][4], s[2][5]):
                        if str(n) == '^' + t[1]: work.append((h, x))
            else: out.add(t)
    return out

class Sel(Model):
    """Selection of the options: matching outcome, presence of the section and its `enabled` are assumed.
    astate: (matched, merged)"""
    init = (False, False)
    wants_stmts = False
    def __init__(self, match, section, enabled, rules, mergers): self.match = match; self.section = section; self.enabled = enabled; self.rules = rules; self.mg = mergers; self.seen = set()
    def read(self, X, bi, p, owner):
        if owner is None or not p[1] or p[1][-1][0] != 'f': return None
        n = p[1][-1][1]
        if owner.endswith('OverrideItem') and n in ('format', 'lint'):
            self.seen.add('section'); return [((), ('v', OPT, 'Some' if self.section else 'None'))]
        if 'overrides::Override' in owner and n == 'enabled':
            self.seen.add('enabled'); return [((), ('v', OPT, 'None' if self.enabled is None else 'Some'))]
        if 'overrides::Override' in owner and n == 'rules':
            self.seen.add('rules'); return [((), ('v', OPT, 'Some' if self.rules else 'None'))]
        if owner.endswith('Config') and n == 'overrides': return [((), ('v', OPT, 'Some'))]
    def call(self, X, bi, c, env, argv):
        d = c.callee
        if d is not None and d.path.endswith('BoolDefaultTrue::value') and self.enabled is not None:
            # only the override section has such a setting here
            self.seen.add('value'); return cbool(self.enabled)
    def call_alts(self, X, bi, c, env, argv, a):
        d = c.callee
        if d is not None and d.path in X.matchers:
            self.seen.add('match')
            if a[0]: return [([], '!another override is looked at after one matched')]
            return [([((), cbool(self.match))], (self.match, a[1]))]
        if c.decl is not None and c.decl.path.rsplit('::', 1)[-1] == 'next' and 'Iterator' in c.decl.path and c.argtys and c.argtys[0].mentions('tombi_config::overrides::OverrideItem'):
            out = [([((), ('v', OPT, 'Some'))], a)]
            if a[0] or not self.match: out.append(([((), ('v', OPT, 'None'))], a))
            return out
    def on_call(self, X, bi, c, env, argv, a):
        if c.callee is not None and c.callee in self.mg: return (a[0], True)
        return a

def matcher_fns(prog):
    """Functions deciding whether a path matches an override's file patterns."""
    out = []
    for f in prog.fns:
        if f.crate.name != 'tombi_glob' or f.kind in ('closure', 'coroutine') or f.ltys[0].k != 'bool': continue
        if any(f.ltys[i].peel().d is not None and f.ltys[i].peel().d.path.endswith('OverrideFilesOptions') for i in range(1, f.ac + 1)): out.append(f)
    return out

def selectors(prog):
    out = []
    for f in prog.fns:
        if f.crate.name != 'tombi_glob' or f.kind in ('closure', 'coroutine') or not f.pub: continue
        t = f.ltys[0]
        if t.d is not None and t.d.path == OPT and t.args and t.args[0].s in ('tombi_config::format::FormatOptions', 'tombi_config::lint::LintOptions'): out.append(f)
    return out

def selection(ck, prog, mergers):
    sels = selectors(prog)
    ck.floor('selectors', len(sels), 2)
    ms = {f.path for f in matcher_fns(prog)}
    ck.floor('matchers', len(ms), 1)
    mg = {f.d for f in mergers.values()}
    for fn in sels:
        F = Flat(prog, fn, lambda g, fr, c: g.crate.name in ('tombi_glob', 'tombi_config') and g.path not in ms and g.d not in mg and not g.path.endswith('BoolDefaultTrue::value'))
        def run(**k):
            m = Sel(k['match'], k['section'], k['enabled'], k['rules'], mg); X = Explorer(F, m); X.matchers = ms
            env = {(2, ()): ('v', OPT, 'Some')}
            X.run(env); ck.count('states', X.states)
            for st, msg, bi, line in X.bad: ck.ob(False, 'select:%s:%s' % (fn.name, msg), '%s: %s' % (fn.path, msg))
            ck.ob(bool(X.final), 'select-return:' + fn.name, '%s never returns for %s' % (fn.path, k))
            return m, X
        var = lambda r: r[0] if isinstance(r, tuple) else r
        for enabled in (False,):
            for rules in (True, False):
                m, X = run(match=True, section=True, enabled=enabled, rules=rules)
                ck.ob({'match', 'section', 'value'} <= m.seen, 'select-reads:' + fn.name, '%s does not look at the matching, the section and its enabled setting (%s)' % (fn.path, sorted(m.seen)))
                for (a, r), st in X.final.items():
                    if not a[0]: continue
                    ck.ob(var(r) == 'None', 'disabled-ignored:' + fn.name, '%s: a matching override with enabled = false does not disable: %s' % (fn.path, ' ; '.join(X.witness(st, 5))), sample='%s: enabled=false => None' % fn.name)
        for enabled in (True, None):
            for rules in (True, False):
                m, X = run(match=True, section=True, enabled=enabled, rules=rules)
                n = 0
                for (a, r), st in X.final.items():
                    if not a[0]: continue
                    n += 1
                    ck.ob(var(r) == 'Some' and a[1] == rules, 'override-unused:' + fn.name, '%s: a matching override %s its rules %s: %s' % (fn.path, 'without' if not rules else 'with', 'is not merged' if rules else 'is merged or the file is skipped', ' ; '.join(X.witness(st, 5))), sample='%s: rules merged=%s' % (fn.name, rules))
                ck.ob(n > 0, 'override-unreached:' + fn.name, '%s never applies a matching override' % fn.path)
        m, X = run(match=False, section=True, enabled=False, rules=True)
        for (a, r), st in X.final.items():
            ck.ob(var(r) == 'Some' and not a[1], 'nonmatching-used:' + fn.name, '%s: an override that does not match is applied: %s' % (fn.path, ' ; '.join(X.witness(st, 5))), sample='%s: not matching => base' % fn.name)
        m, X = run(match=True, section=False, enabled=False, rules=True)
        for (a, r), st in X.final.items():
            ck.ob(var(r) == 'Some' and not a[1], 'no-section:' + fn.name, '%s: an override without this section changes the options' % fn.path)

class Match(Model):
    """astate: (include matched, include exhausted, exclude matched, exclude exhausted)"""
    init = (False, False, False, False)
    def __init__(self, inc, exc): self.opt = {'include': inc, 'exclude': exc}; self.sites = {'include': set(), 'exclude': set()}
    def read(self, X, bi, p, owner):
        if owner is not None and owner.endswith('FilesOptions') and p[1] and p[1][-1][0] == 'f':
            n = p[1][-1][1]
            if n in self.opt and (owner, n) in X.optional: return [((), ('v', OPT, 'Some' if self.opt[n] else 'None'))]
    def kind(self, X, bi, o):
        tk = X.sl.operand(X.F, o)
        ks = {t[2] for t in tk if t[0] == 'field' and str(t[1]).endswith('FilesOptions') and t[2] in ('include', 'exclude')}
        return ks.pop() if len(ks) == 1 else None
    def call_alts(self, X, bi, c, env, argv, a):
        d = c.callee; dd = c.decl
        if d is not None and d.path.startswith('fast_glob') and d.path.endswith('glob_match'):
            k = self.kind(X, bi, c.args[0])
            if k is None: return [([], '!a glob pattern of unknown origin is matched')]
            self.sites[k].add(bi)
            hit = (True, a[1], a[2], a[3]) if k == 'include' else (a[0], a[1], True, a[3])
            return [([((), T)], hit), ([((), F_)], a)]
        if dd is not None and dd.path == 'core::iter::traits::iterator::Iterator::next' and c.argtys[0].mentions(GP):
            k = self.kind(X, bi, c.args[0])
            if k is None: return None
            done = (a[0], True, a[2], a[3]) if k == 'include' else (a[0], a[1], a[2], True)
            return [([((), ('v', OPT, 'Some'))], a), ([((), ('v', OPT, 'None'))], done)]

GP = 'tombi_config::files::GlobPattern'

def matching(ck, prog):
    global GP
    g = [a.path for a in prog.adts.values() if a.path.endswith('::GlobPattern')]
    if g: GP = g[0]
    fns = [(f, False) for f in matcher_fns(prog)]
    fns += [(f, True) for f in prog.fns if f.crate.name == 'tombi_glob' and f.kind not in ('closure', 'coroutine') and f.ltys[0].d is not None and f.ltys[0].d.path.endswith('file_match::MatchResult')]
    ck.floor('matching_functions', len(fns), 2)
    optional = {(a.path, n) for a in prog.adts.values() if a.path.endswith('FilesOptions') and a.kind == 'struct' for n, t, _ in a.fields() if t.d is not None and t.d.path == OPT}
    for fn, enum in fns:
        F = Flat(prog, fn, lambda g, fr, c: g.crate.name == 'tombi_glob' and 'relative_document' not in g.path)
        for inc in (True, False):
            for exc in (True, False):
                m = Match(inc, exc); X = Explorer(F, m); X.sl = Slicer(prog, follow=False); X.optional = optional; X.run(); ck.count('states', X.states)
                for st, msg, bi, line in X.bad: ck.ob(False, 'match:' + msg, '%s: %s (%s)' % (fn.path, msg, F.loc(bi, line)))
                ck.ob(bool(m.sites['include']) and (bool(m.sites['exclude']) or not exc), 'match-patterns:' + fn.name, '%s does not test both pattern lists' % fn.path) if inc else None
                for (a, r), st in X.final.items():
                    if isinstance(r, tuple) and r[0] == 'c': yes = r == T
                    elif isinstance(r, tuple) and r[0] in ('Matched', 'IncludeNotMatched', 'ExcludeMatched'): yes = r[0] == 'Matched'
                    else: ck.ob(False, 'match-unknown:' + fn.name, '%s: result not understood %s' % (fn.path, r)); continue
                    has_inc = inc or not enum
                    want = (a[0] or not has_inc) and not a[2]
                    ck.ob(yes == want, 'match-result:' + fn.name, '%s: include %s, exclude %s, but the answer is %s: %s' % (fn.path, 'matched' if a[0] else 'not matched', 'matched' if a[2] else 'not matched', yes, ' ; '.join(X.witness(st, 5))), sample='%s include=%s exclude=%s -> %s' % (fn.name, a[0], a[2], yes))
                    if yes and exc: ck.ob(a[3], 'match-exclude-skipped:' + fn.name, '%s answers yes before every exclude pattern was tested: %s' % (fn.path, ' ; '.join(X.witness(st, 5))))
                    if not yes and not a[2]: ck.ob(a[1], 'match-include-skipped:' + fn.name, '%s answers no before every include pattern was tested: %s' % (fn.path, ' ; '.join(X.witness(st, 5))))

class Quote(Model):
    init = None
    def __init__(self, kv, sv, dt=None): self.v = {'key_quote_style': kv, 'string_quote_style': sv, 'date_time_delimiter': dt}; self.got = []
    def read(self, X, bi, p, owner):
        if owner == 'tombi_config::format::FormatOptions' and p[1] and p[1][-1] == ('f', 'rules'): return [((), ('v', OPT, 'Some'))]
        if owner == FR and p[1] and p[1][-1][0] == 'f' and p[1][-1][1] in self.v:
            v = self.v[p[1][-1][1]]
            if v is None: return [((), ('v', OPT, 'None'))]
            if isinstance(v, tuple): return [((), ('v', OPT, 'Some')), (SOME0, v)]
            return [((), ('v', OPT, 'Some')), (SOME0, ('str', v))]
    def on_ret(self, X, bi, env, a):
        for l in X.F.ret_locals: self.got.append({k[1]: v for k, v in env.items() if k[0] == l})
        return a

def definitions(ck, prog):
    l = [f for f in prog.fns if f.crate.name == 'tombi_formatter' and f.kind not in ('closure', 'coroutine') and f.trait is None and f.ltys[0].d is not None and f.ltys[0].d.path == DEFS and f.ac == 1]
    fn = ck.need(l[0] if l else None, 'definitions', 'the constructor of the formatter settings')
    if not fn: return
    pol = lambda g, fr, c: g.crate.name == 'tombi_formatter'
    F = Flat(prog, fn, pol); sl = Slicer(prog, follow=False)
    n = 0; used = set()
    for bi, b in enumerate(F.blocks):
        for s in b.stmts:
            if s[0] == '=' and s[2][0] == 'agg' and s[2][2] is not None and s[2][2].path == DEFS:
                n += 1
                for name, o in zip(s[2][4], s[2][5]):
                    tk = sl.operand(F, o); src = {t[2] for t in tk if t[0] == 'field' and t[1] == FR}
                    used |= src
                    want = {'key_quote_style', 'string_quote_style'} if name == 'key_quote_style' else {EXPECT[name]} if name in EXPECT else None
                    if name == 'date_time_delimiter': used.add(name); continue   # decided by exploration below
                    if want is None: ck.notes.append('setting %s is not in the table of options' % name); continue
                    ck.ob(src == want, 'setting:' + name, 'the setting %s is computed from %s instead of the option %s (%s)' % (name, sorted(src) or 'a constant', sorted(want), F.loc(bi, s[3])), sample='%s <- %s' % (name, sorted(src)))
                    strs = {t[1] for t in tk if t[0] == 'str'}
                    if name.endswith('_space'): ck.ob(strs <= {' '}, 'space:' + name, '%s is filled with %s' % (name, sorted(strs)))
    ck.floor('settings_constructed', n, 1)
    fields = {x for x, t, _ in prog.adts[FR].fields()}
    ck.ob(fields <= used, 'option-unused', 'options without any effect on the formatter: %s' % sorted(fields - used), sample='options used: %d' % len(used))
    # every setting is read outside the constructor
    live = prog.reach([f for f in prog.fns if f.path == FORMAT_API])
    reads = set()
    for f in live:
        if f.crate.name != 'tombi_formatter' or prog.outer(f) is fn or f.trait is not None and 'Clone' in f.trait.path: continue
        for b in f.blocks:
            ps = []
            for s in b.stmts:
                if s[0] != '=': continue
                r = s[2]
                if r[0] in ('use', 'repeat') and r[1][0] != 'const': ps.append(r[1][1])
                elif r[0] in ('ref', 'refmut', 'discr'): ps.append(r[1])
                elif r[0] in ('cast', 'un') and r[2][0] != 'const': ps.append(r[2][1])
                elif r[0] == 'bin': ps += [x[1] for x in r[2:4] if x[0] != 'const']
                elif r[0] == 'agg': ps += [x[1] for x in r[5] if x[0] != 'const']
            if b.term[0] == 'call': ps += [a[1] for a in b.term[1].args if a[0] != 'const']
            if b.term[0] == 'switch' and b.term[1][0] != 'const': ps.append(b.term[1][1])
            for p in ps:
                for i, e in enumerate(p[1]):
                    if e != '*' and e[0] == 'f':
                        t = f.ltys[p[0]]
                        for q in p[1][:i]:
                            t = (t.args[0] if t is not None and t.args else None) if q == '*' else q[2] if q[0] == 'f' else t
                        if t is not None and t.d is not None and t.d.path == DEFS: reads.add(str(e[1]))
    want = {x for x, t, _ in prog.adts[DEFS].fields()}
    ck.ob(want <= reads, 'setting-unread', 'settings the formatter never reads: %s' % sorted(want - reads), sample='settings read: %d' % len(reads))
    # fallback of the key quote style, spelling of the date-time delimiter
    def run(m):
        X = Explorer(F, m); X.run(); ck.count('states', X.states); return m.got
    KQ = (('f', 'key_quote_style'),)
    def val(env, k):
        v = env.get(k); return v[1] if v is not None and v[0] == 'str' else v
    for kv, sv, want in (('K', 'S', 'K'), ('K', None, 'K'), (None, 'S', 'S')):
        got = run(Quote(kv, sv)); ck.ob(bool(got), 'defs-return', 'no settings constructed')
        for env in got: ck.ob(val(env, KQ) == want, 'key-quote-fallback', 'the key quote style is not the first of key-quote-style and string-quote-style that is given (%s, %s gives %s)' % (kv, sv, val(env, KQ)), sample='key quote style: %s' % want)
    DT = 'tombi_config::types::date_time_delimiter::DateTimeDelimiter'
    dt = [a.path for a in prog.adts.values() if a.path.endswith('::DateTimeDelimiter')]
    if ck.need(dt, 'DateTimeDelimiter', 'the date-time delimiter'):
        D = (('f', 'date_time_delimiter'),)
        for var, want in (('T', 'T'), ('Space', ' '), ('Preserve', None)):
            for env in run(Quote(None, None, ('v', dt[0], var))):
                v = env.get(D); s = val(env, D + SOME0)
                ck.ob(v is not None and v[0] == 'v' and (v[2] == 'None' if want is None else v[2] == 'Some' and s == want), 'delimiter:' + var, 'date-time-delimiter %s is written as %r' % (var, s), sample='delimiter %s -> %r' % (var, s))

class NoneSel(Model):
    init = None
    def __init__(self): self.n = set()
    def call_alts(self, X, bi, c, env, argv, a):
        if c.callee is not None and c.callee in X.sels: self.n.add(bi); return [([((), ('v', OPT, 'None'))], True)]
    def on_call(self, X, bi, c, env, argv, a):
        if a and c.callee is not None and c.callee in X.runs: return '!the document is processed although it is disabled by an override'
        return a

def callers(ck, prog):
    sels = {f.d for f in selectors(prog)}
    news = [f for f in prog.fns if f.crate.name in ('tombi_formatter', 'tombi_linter') and f.path.rsplit('::', 1)[-1] == 'new' and any(f.ltys[i].peel().s in ('tombi_config::format::FormatOptions', 'tombi_config::lint::LintOptions') for i in range(1, f.ac + 1)) and ('Formatter' in f.path or 'Linter' in f.path)]
    ck.floor('constructors', len(news), 2)
    sl = Slicer(prog, follow=False)
    n = 0
    for f in prog.fns:
        if f.crate.name in NOISE: continue
        for bi, c in f.calls():
            g = next((x for x in news if x.d is c.callee), None)
            if g is None: continue
            o = prog.outer(f)
            # text produced by the library itself, not a user's document
            if f.crate.name in ('serde_tombi', 'tombi_formatter'): continue
            i = next(i for i in range(1, g.ac + 1) if g.ltys[i].peel().s in ('tombi_config::format::FormatOptions', 'tombi_config::lint::LintOptions'))
            tk = sl.up(f, c.args[i - 1]); n += 1
            want = 'get_format_options' if 'Format' in g.ltys[i].peel().s else 'get_lint_options'
            calls = {t[1] for t in tk if t[0] == 'call'}
            ok = any(d.path in calls for d in sels)
            other = sorted(x for x in calls if x.endswith('Options>::default') or x.endswith('::merge_format') or x.endswith('::merge_lint'))
            ck.ob(ok and not other, 'options-origin:' + o.path, '%s processes a document with options not selected for its path by %s (%s)' % (o.path, want, f.loc(c.line)), sample='%s: options from %s' % (o.path, want))
    ck.floor('documents_processed', n, 5)
    # every caller of a selector: None => nothing is processed
    k = 0
    roots = {}
    for f in prog.fns:
        if f.crate.name in NOISE: continue
        for bi, c in f.calls():
            if c.callee in sels:
                roots[prog.outer(f)] = 1
                # the path is the document's, not a constant
                tk = sl.up(f, c.args[1]); tk0 = sl.operand(f, c.args[1])
                ck.ob(not (c.args[1][0] == 'const' or tk and all(t[0] in ('agg', 'const') for t in tk)), 'no-path:' + prog.outer(f).path, '%s selects the options without the path of the document (%s)' % (prog.outer(f).path, f.loc(c.line)))
    runs = {f.d for f in prog.fns if f.path in (FORMAT_API, LINT_API)}
    for r in roots:
        crate = r.crate.name
        reach = relevant(prog, lambda d: d in runs or d in sels)
        F = Flat(prog, r, lambda g, fr, c: (g.crate.name == crate or g.kind in ('closure', 'coroutine')) and g in reach and g.d not in sels)
        m = NoneSel(); X = Explorer(F, m, cap=24); X.sels = sels; X.runs = runs; X.run(); ck.count('states', X.states); k += len(m.n)
        ck.ob(len(m.n) >= 1, 'select-unreached:' + r.path, '%s: the selection of the options is not reached' % r.path)
        for st, msg, bi, line in X.bad: ck.ob(False, 'disabled-run:' + r.path, '%s: %s (%s): %s' % (r.path, msg, F.loc(bi, line), ' ; '.join(X.witness(st, 5))))
        ck.ob(not X.overflow, 'overflow:' + r.path, 'exploration of %s did not finish' % r.path)
    ck.floor('selections', k, 4)
