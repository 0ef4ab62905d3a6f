"""Path exploration of the linter's entry point (which diagnostics are collected, when the document tree and the
schema are consulted, what is returned), of every node's Lint implementation (which rules run, that every child is
visited) and of the severity handling of the configurable rules."""
from props.common import *
from an.loops import Loops

DIAG = 'tombi_diagnostic::Diagnostic'
def last(c): return c.decl.path.rsplit('::', 1)[-1] if c.decl is not None else ''
def is_next(c): return c.decl is not None and c.decl.path == 'core::iter::traits::iterator::Iterator::next'

# ---------------------------------------------------------------- the entry point
class Entry(Model):
    """astate: (something reported, an error reported, pending obligation, rules ran, tree errors set, validated)"""
    init = (False, False, None, False, False, False)
    def __init__(self, errors, disabled): self.errors = errors; self.disabled = disabled; self.seen = set()
    def read(self, X, bi, p, owner):
        if p[1] and p[1][-1] == ('f', 'disabled') and owner is not None and 'Lint' in owner:
            self.seen.add('disabled')
            return [((), ('v', OPT, 'Some')), ((('d', 'Some'), ('f', '0')), cbool(self.disabled))]
        if p[1] and p[1][-1] == ('f', 'lint') and owner is not None and 'irective' in owner: return [((), ('v', OPT, 'Some'))]
    def call(self, X, bi, c, env, argv):
        if c.callee is not None and c.callee.path == DIAG + '::level': return None
    def dests(self, X, c, i=0):
        """Is argument i the linter's own diagnostics list?"""
        tk = X.sl.operand(X.F, c.args[i])
        return any(t[0] == 'field' and t[2] == 'diagnostics' and str(t[1]).endswith('::Linter') for t in tk)
    def call_alts(self, X, bi, c, env, argv, a):
        d = c.callee; l = last(c)
        rep, err, pend, ran, tree, val = a
        po = poll_output(X.F, c)
        if is_next(c) and c.argtys[0].mentions('tombi_parser::error::Error'):
            if pend == 'syntax error': return [([], '!a syntax error is not reported')]
            self.seen.add('errors')
            drop = lossy(c.argtys[0])
            if drop: return [([], '!syntax errors are left out (%s)' % drop)]
            out = []
            if self.errors: out.append(([((), ('v', OPT, 'Some'))], (rep, err, 'syntax error', ran, tree, val)))
            if rep or not self.errors: out.append(([((), ('v', OPT, 'None'))], (rep, err, None, ran, tree, val)))
            return out
        if l == 'set_diagnostics' and c.argtys:
            t = c.argtys[0]
            if t.mentions('tombi_parser::error::Error'):
                self.seen.add('errors')
                if not self.dests(X, c, 1): return [([], '!syntax errors are reported to the wrong list')]
                if t.d is not None and t.d.path.endswith('::Vec') and not self.errors: return [([], a)]
                one = not (t.d is not None and t.d.path.endswith('::Vec'))
                return [([], (True, True, 'further syntax errors' if one else None, ran, tree, val))]
            if t.mentions('tombi_document_tree::error::Error'):
                self.seen.add('tree')
                if not self.dests(X, c, 1): return [([], '!errors of the document tree are reported to the wrong list')]
                return [([], (rep, err, pend, ran, True, val)), ([], (True, True, pend, ran, True, val))]
        if po is not None:
            if po.s.startswith('core::result::Result<(), alloc::vec::Vec<tombi_diagnostic::Diagnostic'):
                self.seen.add('validate')
                return [(ready_result('Ok'), (rep, err, pend, ran, tree, True)), (ready_result('Err'), (rep, err, 'schema violations', ran, tree, True))]
            if po.mentions('tombi_schema_store::SourceSchema') or 'SourceSchema' in po.s and 'Error' in po.s:
                self.seen.add('schema')
                one = (READY + (('f', '1'),), ('v', OPT, 'Some')); no = (READY + (('f', '1'),), ('v', OPT, 'None'))
                return [([((), ('v', POLLT, 'Ready')), one], (rep, err, 'schema error', ran, tree, val)), ([((), ('v', POLLT, 'Ready')), no], a)]
            if 'alloc::vec::Vec<tombi_diagnostic::Diagnostic' in po.s and 'irective' in po.s:
                self.seen.add('directive')
                t = [((), ('v', POLLT, 'Ready')), (READY + (('f', '0'),), ('v', OPT, 'Some'))]
                return [(t, (rep, err, (pend or '') + '+directive diagnostics', ran, tree, val))]
            if po.s == '()' and any('tombi_linter::lint::' in x for x in self.polled(X, bi, c)):
                self.seen.add('root'); return [([((), ('v', POLLT, 'Ready'))], (r2, e2, pend, True, tree, val)) for r2, e2 in {(rep, err), (True, err), (True, True)}]
        if l == 'is_empty' and c.argtys and 'tombi_diagnostic::Diagnostic' in c.argtys[0].s and self.dests(X, c): return [([((), cbool(not rep))], a)]
        if l == 'len' and c.argtys and 'tombi_diagnostic::Diagnostic' in c.argtys[0].s and self.dests(X, c): return [([((), ('c', '1' if rep else '0'))], a)]
        if l == 'count' and c.argtys[0].mentions(DIAG):
            self.seen.add('count')
            keep = self.kept(X, c.argtys[0])
            n = err and keep['ERROR'] or rep and keep['WARNING'] and not err
            if err and not n: n = keep['WARNING'] and None
            return [([((), ('c', v))], a) for v in ((['1'] if n else ['0']) if n is not None else ['0', '1'])]
        if l in ('level', 'is_error') and d is not None and d.path.startswith(DIAG):
            if l == 'is_error': return [([((), cbool(err))], a)]
            return [([((), ('v', X.level, 'ERROR' if err else 'WARNING'))], a)]
        if l in ('push', 'extend', 'append') and 'tombi_diagnostic::Diagnostic' in c.argtys[0].s and self.dests(X, c):
            if pend and pend.endswith('+directive diagnostics'):
                p2 = pend[:-len('+directive diagnostics')] or None
                # what is added decides which obligation is met
                if l != 'push': return [([], (rep, err, p2, ran, tree, val)), ([], (True, True, p2, ran, tree, val)), ([], (True, err, p2, ran, tree, val))]
            if pend == 'schema violations': return [([], (rep, err, None, ran, tree, val)), ([], (True, err, None, ran, tree, val)), ([], (True, True, None, ran, tree, val))]
            if pend == 'schema error' and l == 'push': return [([], (True, err, None, ran, tree, val))]
            return [([], (True, err, pend, ran, tree, val))]
    def kept(self, X, ty):
        """Which levels an iterator over diagnostics lets through."""
        k = {'ERROR': True, 'WARNING': True}
        seen = []; st = [ty]
        while st:
            t = st.pop()
            if t.k == 'closure' and t.d is not None and t.d.fn is not None and t.d.fn.ltys[0].s == 'bool': seen.append(t.d.fn)
            st.extend(t.args)
        for f in seen:
            F = Flat(X.prog, f, lambda g, fr, c: g.crate.name == 'tombi_linter')
            for lv in k:
                x = Explorer(F, Lv(lv)); x.level = X.level; x.run()
                k[lv] = k[lv] and any(r != ('c', '0') for a, r in x.final)
        return k
    def polled(self, X, bi, c):
        return {t[1] for t in X.sl.operand(X.F, c.args[0]) if t[0] == 'call'}
    def on_call(self, X, bi, c, env, argv, a):
        if last(c) in ('clear', 'truncate', 'pop', 'retain', 'drain', 'take', 'remove', 'swap_remove') and c.argtys and 'tombi_diagnostic::Diagnostic' in c.argtys[0].s and c.argtys[0].k == 'refmut' and self.dests(X, c): return '!diagnostics are removed again'
        return a

class Lv(Model):
    init = None
    def __init__(self, lv): self.lv = lv
    def call_alts(self, X, bi, c, env, argv, a):
        if c.callee is not None and c.callee.path.startswith(DIAG):
            if last(c) == 'level': return [([((), ('v', X.level, self.lv))], a)]
            if last(c) == 'is_error': return [([((), cbool(self.lv == 'ERROR'))], a)]
            if last(c) == 'is_warning': return [([((), cbool(self.lv == 'WARNING'))], a)]

LOSSY = ('skip', 'take', 'step_by', 'take_while', 'skip_while', 'map_while', 'filter', 'filter_map')
def lossy(ty, filters=True):
    """The adaptor through which an iterator leaves elements out."""
    st = [ty]
    while st:
        t = st.pop()
        if t.d is not None and t.d.path.startswith('core::iter::adapters::'):
            n = t.d.path.split('::')[3]
            if n in LOSSY and (filters or n not in ('filter', 'filter_map')): return t.d.path.rsplit('::', 1)[-1]
        if t.k == 'adt' or t.k in ('ref', 'refmut'): st.extend(t.args[:1] if t.k == 'adt' else t.args)
    return None

def entry(ck, prog):
    fn = ck.need(prog.fn(LINT_API), 'Linter::lint', 'the linter entry point')
    if not fn: return
    lv = [a.path for a in prog.adts.values() if a.path.startswith('tombi_diagnostic') and a.path.endswith('::Level')]
    pol = lambda g, fr, c: g.crate.name == 'tombi_linter' and not g.path.startswith('tombi_linter::lint::') and g.name not in ('apply_lint_rules_to_diagnostics',) or g.kind in ('closure', 'coroutine') and prog.outer(g).crate.name == 'tombi_linter' and not prog.outer(g).path.startswith('tombi_linter::lint::') and prog.outer(g).name != 'apply_lint_rules_to_diagnostics'
    F = Flat(prog, fn, pol)
    seen = set()
    for errors in (True, False):
        for disabled in (True, False):
            m = Entry(errors, disabled); X = Explorer(F, m); X.sl = Slicer(prog, follow=False); X.level = lv[0] if lv else ''; X.run(); ck.count('states', X.states)
            seen |= m.seen
            for st, msg, bi, line in X.bad: ck.ob(False, 'entry:' + msg, 'Linter::lint: %s (%s): %s' % (msg, F.loc(bi, line), ' ; '.join(X.witness(st, 5))))
            ck.ob(bool(X.final), 'entry-return', 'the linter never returns')
            for (a, r), st in X.final.items():
                rep, err, pend, ran, tree, val = a
                v = r[0] if isinstance(r, tuple) else r
                w = lambda: ' ; '.join(X.witness(st, 6))
                ck.ob(not pend, 'entry-dropped:%s' % pend, 'Linter::lint returns without reporting: %s: %s' % (pend, w()))
                ck.ob((v == 'Err') == rep, 'entry-result', 'Linter::lint returns %s although %s: %s' % (v, 'something was reported' if rep else 'nothing was reported', w()), sample='reported=%s => %s' % (rep, v))
                if errors: ck.ob(rep and err, 'entry-errors', 'a document with syntax errors passes: %s' % w())
                if not ran: ck.ob(disabled and not rep, 'entry-skipped', 'the rules are skipped although linting is not disabled or something was reported: %s' % w(), sample='skipped only when disabled and clean')
                if ran and not err: ck.ob(tree and val, 'entry-no-validation', 'a document without errors is not validated: %s' % w(), sample='no errors => tree errors and schema violations collected')
    ck.ob({'errors', 'tree', 'validate', 'schema', 'directive', 'root', 'disabled'} <= seen, 'entry-anchors', 'steps of the linter not found: %s' % sorted({'errors', 'tree', 'validate', 'schema', 'directive', 'root', 'disabled'} - seen))

# ---------------------------------------------------------------- rules and recursion
CHILDREN = {'Root': [{'KeyValue'}, {'TableOrArrayOfTable', 'RootItem'}], 'Table': [{'KeyValue'}], 'ArrayOfTable': [{'KeyValue'}], 'KeyValue': [{'Value'}], 'Array': [{'Value'}], 'InlineTable': [{'KeyValue'}]}

class Node(Model):
    """astate: (rules run, child types exhausted, item not linted yet)"""
    init = (frozenset(), frozenset(), None)
    def __init__(self): self.calls = 0
    def item(self, X, ty):
        t = ty.args[0] if ty is not None and ty.d is not None and ty.d.path == OPT and ty.args else None
        t = t.peel() if t is not None else None
        return t.d.path if t is not None and t.d is not None and t.d.path in X.linted else None
    def call_alts(self, X, bi, c, env, argv, a):
        rules, done, pend = a
        rt = X.F.ltys[c.dest[0]] if not c.dest[1] else None
        it = self.item(X, rt)
        if it is not None and (is_next(c) or c.decl is not None and c.decl.crate == 'tombi_ast'):
            if pend: return [([], '!%s is not visited' % pend.rsplit('::', 1)[-1])]
            drop = lossy(c.argtys[0]) if is_next(c) else None
            if drop: return [([], '!%s is left out (%s)' % (it.rsplit('::', 1)[-1], drop))]
            s = it.rsplit('::', 1)[-1]
            return [([((), ('v', OPT, 'Some'))], (rules, done if is_next(c) else done | {s}, it)), ([((), ('v', OPT, 'None'))], (rules, done | {s}, None))]
    def on_call(self, X, bi, c, env, argv, a):
        rules, done, pend = a
        d = c.callee
        if c.decl is not None and c.decl.path == 'tombi_linter::lint::Lint::lint':
            self.calls += 1
            t = c.argtys[0].peel()
            return (rules, done, None if pend is None or (t.d is not None and t.d.path == pend) else pend)
        if c.decl is not None and c.decl.path == 'tombi_linter::rule::Rule::check' and d is not None: return (rules | {d.path}, done, pend)
        return a

def nodes(ck, prog):
    lint = {}; rules = {}
    for c, i in prog.impls:
        if i['tr'] is None: continue
        if i['tr'].path == 'tombi_linter::lint::Lint': lint[i['st'].d.path if i['st'].d else i['st'].s] = [a for a, b in i['items'] if b is not None][0]
        if i['tr'].path == 'tombi_linter::rule::Rule':
            n = [t for t in i['ta'] if t.d is not None and t.d.crate == 'tombi_ast']
            a = [a for a, b in i['items'] if b is not None]
            if n and a: rules.setdefault(n[-1].d.path, []).append(a[0])
    ck.floor('nodes_with_lint', len(lint), 20); ck.floor('rule_implementations', sum(len(v) for v in rules.values()), 11)
    for ty, d in sorted(lint.items()):
        fn = d.fn
        if fn is None: continue
        short = ty.rsplit('::', 1)[-1]
        # the body is an escaping async block: start at it
        co = [g for g in prog.children.get(fn.d, []) if g.kind == 'coroutine']
        F = Flat(prog, co[0] if co else fn, lambda g, fr, c: g.kind in ('closure',) and prog.outer(g) is fn or g.crate.name == 'tombi_linter' and g.kind not in ('closure', 'coroutine') and g.trait is None)
        m = Node(); X = Explorer(F, m); X.linted = set(lint); X.run(); ck.count('states', X.states)
        want = {x.path for x in rules.get(ty, [])}
        for st, msg, bi, line in X.bad: ck.ob(False, 'visit:%s' % short, 'Lint for %s: a child of type %s (%s)' % (short, msg, F.loc(bi, line)))
        ck.ob(bool(X.final), 'visit-return:' + short, 'Lint for %s never returns' % short)
        for (a, r), st in X.final.items():
            got, done, pend = a
            ck.ob(pend is None, 'visit:%s' % short, 'Lint for %s ends before a child of type %s is visited: %s' % (short, pend, ' ; '.join(X.witness(st, 4))))
            miss = sorted(x for x in want - got)
            ck.ob(not miss, 'rules:%s' % short, 'Lint for %s does not always run %s: %s' % (short, miss, ' ; '.join(X.witness(st, 4))), sample='%s: %d rules on every path' % (short, len(want)))
            for alt in CHILDREN.get(short, []):
                ck.ob(bool(alt & done), 'children:%s' % short, 'Lint for %s does not visit its %s: %s' % (short, '/'.join(sorted(alt)), ' ; '.join(X.witness(st, 4))), sample='%s: all %s visited' % (short, '/'.join(sorted(alt))))
        if short in ('Value', 'TableOrArrayOfTable', 'RootItem'):
            # one arm per variant, each handing over to the variant's own implementation
            for vname, _, fs, _ in prog.adts[ty].variants:
                m = Arm(ty, vname); X = Explorer(F, m); X.run(); ck.count('states', X.states)
                pt = fs[0][1].d.path if fs and fs[0][1].d is not None else None
                for (a, r), st in X.final.items():
                    ck.ob(a == pt or pt not in lint, 'arm:%s::%s' % (short, vname), 'Lint for %s does not lint the variant %s' % (short, vname), sample='%s::%s => linted' % (short, vname))

class Arm(Model):
    init = None
    def __init__(self, adt, var): self.adt = adt; self.var = var
    def discr(self, X, bi, p, adt): return self.var if adt == self.adt else None
    def on_call(self, X, bi, c, env, argv, a):
        if c.decl is not None and c.decl.path == 'tombi_linter::lint::Lint::lint':
            t = c.argtys[0].peel(); return t.d.path if t.d is not None else a
        return a

# ---------------------------------------------------------------- severities
class Sev(Model):
    """A rule's level: comment directive given / not given.  astate: emitted"""
    init = False
    def __init__(self, directive): self.directive = directive; self.cfg = 0; self.dir = 0
    def read(self, X, bi, p, owner):
        if owner is None or not p[1] or p[1][-1][0] != 'f': return None
        if p[1][-1][1] != X.field:
            # with a directive given, its enclosing tables are there
            return [((), ('v', OPT, 'Some'))] if self.directive and 'comment_directive' in owner and owner in X.F.prog.adts and any(n == p[1][-1][1] and t.d is not None and t.d.path == OPT for n, t, _ in X.F.prog.adts[owner].fields()) else None
        if owner == 'tombi_config::lint::LintRules': self.cfg += 1; return [((), ('v', OPT, 'Some'))]
        if 'comment_directive' in owner: self.dir += 1; return [((), ('v', OPT, 'Some' if self.directive else 'None'))]
    def call_alts(self, X, bi, c, env, argv, a):
        # the directive itself is present
        t = X.F.ltys[c.dest[0]] if not c.dest[1] else None
        if self.directive and c.callee is not None and c.callee.crate.startswith('tombi') and t is not None and t.d is not None and t.d.path == OPT and t.args:
            i = t.args[0].peel()
            if i.d is not None and i.d.crate == 'tombi_comment_directive': return [([((), ('v', OPT, 'Some'))], a)]

class All(Model):
    """A report made while iterating does not end the iteration.  astate: (iterations under way, those with a report)"""
    init = (frozenset(), frozenset())
    def call_alts(self, X, bi, c, env, argv, a):
        if is_next(c):
            act, rep = a
            k = bi
            return [([((), ('v', OPT, 'Some'))], (act | {k}, rep)), ([((), ('v', OPT, 'None'))], (act - {k}, rep - {k}))]
    def on_call(self, X, bi, c, env, argv, a):
        if c.callee is not None and c.callee.path.endswith('::extend_diagnostics'): return (a[0], a[1] | (a[0] & frozenset(X.loops.enclosing(bi))))
        return a

def levels(ck, prog):
    kinds = prog.adts.get('tombi_linter::diagnostic::DiagnosticKind')
    if not ck.need(kinds, 'DiagnosticKind', 'the kinds of lint diagnostics'): return
    cfgf = {n for n, t, _ in prog.adts['tombi_config::lint::LintRules'].fields()} if 'tombi_config::lint::LintRules' in prog.adts else set()
    snake = lambda s: ''.join(('_' if i and ch.isupper() else '') + ch.lower() for i, ch in enumerate(s))
    emitted = {}
    sl = Slicer(prog, follow=False)
    # every rule implementation, flattened
    impls = [i['items'] for c, i in prog.impls if i['tr'] is not None and i['tr'].path == 'tombi_linter::rule::Rule']
    for items in impls:
        d = next((a for a, b in items if b is not None), None)
        if d is None or d.fn is None: continue
        fn = d.fn
        F = Flat(prog, fn, lambda g, fr, c: g.crate.name == 'tombi_linter' and g.name not in ('extend_diagnostics',) or g.kind in ('closure', 'coroutine') and prog.outer(g).crate.name == 'tombi_linter' or g.crate.name == 'tombi_comment_directive' and len(g.blocks) <= 6)
        n = 0; fields = set()
        for bi, b in enumerate(F.blocks):
            for s in b.stmts:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][2] is not None and s[2][2].path == 'tombi_linter::diagnostic::Diagnostic':
                    o = dict(zip(s[2][4], s[2][5]))
                    kt = {t[2] for t in sl.operand(F, o['kind']) if t[0] == 'agg' and t[1].endswith('DiagnosticKind')}
                    lt = sl.operand(F, o['level'])
                    n += 1
                    for k in kt:
                        emitted.setdefault(k, set()).add(fn.path)
                        f = snake(k)
                        const = {t[2] for t in lt if t[0] == 'agg' and t[1].endswith('SeverityLevel')}
                        if f in cfgf:
                            fields.add(f)
                            src = {t[1] for t in lt if t[0] == 'field' and t[2] == f}
                            other = {t[2] for t in lt if t[0] == 'field' and t[2] != f and (t[1] == 'tombi_config::lint::LintRules' or 'LintRules' in str(t[1]))} & (cfgf - {f})
                            ck.ob('tombi_config::lint::LintRules' in src and any('comment_directive' in str(x) for x in src) and not const and not other, 'level:' + k, '%s: the level of %s does not come from the option %s of the comment directive and the configuration (%s; %s)' % (fn.path, k, f, sorted(map(str, src)), sorted(const | other)), sample='%s: level from %s' % (k, f))
                        else:
                            ck.ob(const == {'Error'} and not any(t[0] == 'field' and 'LintRules' in str(t[1]) for t in lt), 'level:' + k, '%s: %s is reported with level %s instead of Error' % (fn.path, k, sorted(const)), sample='%s: Error' % k)
        m = All(); X = Explorer(F, m, cap=16); X.loops = Loops(F, is_next); X.run(); ck.count('states', X.states)
        for (a, r), st in X.final.items():
            ck.ob(not a[1], 'one-report:' + fn.path, '%s stops after its first report while further elements are left: %s' % (fn.path, ' ; '.join(X.witness(st, 4))), sample='%s: reports every occurrence' % fn.path.split(' as ')[0].rsplit('::', 1)[-1])
        ck.ob(n >= 1, 'silent:' + fn.path, '%s reports nothing' % fn.path)
        for f in fields:
            m = Sev(True); X = Explorer(F, m, cap=24); X.field = f; X.run(); ck.count('states', X.states)
            ck.ob(m.dir > 0, 'directive-unread:' + fn.path, '%s never looks at the comment directive' % fn.path)
            ck.ob(m.cfg == 0, 'directive-overridden:' + fn.path, '%s consults the configuration although a comment directive sets %s' % (fn.path, f), sample='%s: comment directive first' % f)
            m = Sev(False); X = Explorer(F, m, cap=24); X.field = f; X.run(); ck.count('states', X.states)
            ck.ob(m.cfg > 0, 'config-unread:' + fn.path, '%s never looks at the configuration when no directive sets %s' % (fn.path, f), sample='%s: then the configuration' % f)
    vs = {v[0] for v in kinds.variants}
    ck.ob(vs <= set(emitted), 'never-emitted', 'kinds of diagnostics no rule reports: %s' % sorted(vs - set(emitted)), sample='kinds reported: %d' % len(vs))

class Push(Model):
    """astate: how many diagnostics of which level are pushed"""
    init = ()
    def __init__(self, adt, var): self.adt = adt; self.var = var
    def discr(self, X, bi, p, adt): return self.var if adt == self.adt else None
    def call_alts(self, X, bi, c, env, argv, a):
        # an iteration over the errors handed over yields one
        return None
    def on_call(self, X, bi, c, env, argv, a):
        p = c.callee.path if c.callee is not None else ''
        if p == DIAG + '::new_error': return a + ('E',) if len(a) < 4 else a
        if p == DIAG + '::new_warning': return a + ('W',) if len(a) < 4 else a
        if last(c) == 'push' and 'tombi_diagnostic::Diagnostic' in c.argtys[0].s: return a + ('push',) if len(a) < 4 else a
        if c.decl is not None and c.decl.path.endswith('SetDiagnostics::set_diagnostics'): return a + ('nested',) if len(a) < 4 else a
        return a

def setters(ck, prog):
    ims = [(a, st) for dd, l in prog.impl_of.items() if dd.path.endswith('SetDiagnostics::set_diagnostics') for a, st in l]
    n = 0
    sv = [a.path for a in prog.adts.values() if a.path.startswith('tombi_severity_level') and a.path.endswith('::SeverityLevel')]
    for d, st in ims:
        fn = d.fn
        if fn is None or fn.crate.name in NOISE: continue
        F = Flat(prog, fn, lambda g, fr, c: g.crate.name == fn.crate.name and not g.path.startswith(DIAG + '::new'))
        n += 1
        if st.s == 'tombi_linter::diagnostic::Diagnostic':
            for var, want in (('Error', ('E', 'push')), ('Warn', ('W', 'push')), ('Off', ())):
                m = Push(sv[0] if sv else '', var); X = Explorer(F, m); X.run()
                ck.ob(bool(X.final), 'set-return', '%s never returns' % fn.path)
                for (a, r), s_ in X.final.items(): ck.ob(a == want, 'set-level:' + var, '%s: a diagnostic of level %s results in %s' % (fn.path, var, a or 'nothing'), sample='%s -> %s' % (var, a))
        elif st.k == 'adt' and st.s.startswith('alloc::vec::Vec'):
            m = Vecs(); X = Explorer(F, m); X.run()
            for s_, msg, bi, line in X.bad: ck.ob(False, 'set-vec', '%s: %s' % (fn.path, msg))
            ck.ob(bool(X.final), 'set-return', '%s never returns' % fn.path, sample='every element of a list is reported')
        else:
            m = Push('', ''); X = Explorer(F, m); X.run()
            for (a, r), s_ in X.final.items():
                ck.ob('push' in a and 'W' not in a and 'E' in a or a == ('nested',) or 'nested' in a and 'W' not in a, 'set:' + st.s, '%s does not report the error as an error on every path (%s): %s' % (fn.path, a, ' ; '.join(X.witness(s_, 4))), sample='%s -> error diagnostic' % st.s)
    ck.floor('setters', n, 4)

class Vecs(Model):
    init = False
    def call_alts(self, X, bi, c, env, argv, a):
        if is_next(c):
            if a: return [([], '!an element is not reported')]
            return [([((), ('v', OPT, 'Some'))], True), ([((), ('v', OPT, 'None'))], False)]
    def on_call(self, X, bi, c, env, argv, a):
        return False if c.decl is not None and c.decl.path.endswith('SetDiagnostics::set_diagnostics') else a
    def on_ret(self, X, bi, env, a): return '!an element is not reported' if a else a

class KeyEmpty(Model):
    """The adjustment of validator diagnostics to the configured level of key-empty. astate: constructed level"""
    init = None
    def __init__(self, same, var): self.same = same; self.var = var; self.cmp = 0
    def discr(self, X, bi, p, adt): return self.var if adt.endswith('::SeverityLevel') else None
    def call_alts(self, X, bi, c, env, argv, a):
        if last(c) in ('eq', 'ne') and c.argtys[0].peel().s == 'str':
            self.cmp += 1; return [([((), cbool((last(c) == 'eq') == self.same))], a)]
    def on_call(self, X, bi, c, env, argv, a):
        p = c.callee.path if c.callee is not None else ''
        if p == DIAG + '::new_error': return 'Error'
        if p == DIAG + '::new_warning': return 'Warn'
        return a

def keyempty(ck, prog):
    fns = [f for f in prog.fns if f.crate.name == 'tombi_linter' and f.kind == 'closure' and f.ltys[0].s == 'core::option::Option<tombi_diagnostic::Diagnostic>' and f.ac == 2 and f.ltys[2].s == 'tombi_diagnostic::Diagnostic']
    ck.floor('key_empty_adjustment', len(fns), 1)
    for f in fns:
        F = Flat(prog, f, lambda g, fr, c: False)
        for same in (True, False):
            for var in ('Off', 'Warn', 'Error'):
                m = KeyEmpty(same, var); X = Explorer(F, m); X.run()
                ck.ob(m.cmp > 0, 'key-empty-code', '%s does not compare the code' % f.path)
                for (a, r), st in X.final.items():
                    v = r[0] if isinstance(r, tuple) else r
                    if not same: ck.ob(v == 'Some' and a is None, 'key-empty-other', '%s changes or drops a diagnostic of another kind' % f.path, sample='other diagnostics kept')
                    elif var == 'Off': ck.ob(v == 'None', 'key-empty-off', '%s keeps key-empty although it is off' % f.path)
                    else: ck.ob(v == 'Some' and a == var, 'key-empty-level', '%s reports key-empty as %s instead of %s' % (f.path, a, var), sample='key-empty %s' % var)

def check(ck):
    prog = ck.prog
    entry(ck, prog)
    nodes(ck, prog)
    levels(ck, prog)
    setters(ck, prog)
    keyempty(ck, prog)
    ck.rule('every collected diagnostic is returned; no errors => validated; every rule runs at every node of its kind; every child is visited; comment directive before configuration; level kept')
