"""Path exploration of the formatter's entry point under three assumptions (syntax errors present; formatting
disabled by the document; neither), with provenance of the returned text, plus a who-may-call rule for the printing
stage and a provenance rule for the parser's error list and the edits the language server computes."""
from props.common import *

PARSE_ERR = ('tombi_parser::error::Error', 'tombi_lexer::error::Error')

def _errs(t): return any(t.mentions(p) for p in PARSE_ERR)

class M(Model):
    """astate: (edited, printed, errors drained into diagnostics)"""
    init = (False, False, False)
    def __init__(self, errors, disabled): self.errors = errors; self.disabled = disabled; self.tests = set(); self.dis = 0; self.edits = set(); self.prints = set(); self.sets = set(); self.dirs = set(); self.opaque = False
    def read(self, X, bi, p, owner):
        if p[1] and p[1][-1] == ('f', 'disabled') and owner is not None and 'ormat' in owner:
            self.dis += 1
            if self.disabled is None: return None
            return [((), ('v', OPT, 'Some')), ((('d', 'Some'), ('f', '0')), cbool(self.disabled))]
        if p[1] and p[1][-1] == ('f', 'format') and owner is not None and 'irective' in owner: return [((), ('v', OPT, 'Some'))]
    def call(self, X, bi, c, env, argv):
        d = c.decl
        if d is None or not c.argtys: return None
        last = d.path.rsplit('::', 1)[-1]
        if last == 'next' and 'IntoIterator' in c.argtys[0].s: self.opaque = True
        if last == 'is_empty' and _errs(c.argtys[0]): self.tests.add(bi); return cbool(not self.errors)
        if last == 'len' and _errs(c.argtys[0]): self.tests.add(bi); return ('c', '1' if self.errors else '0')
        if last == 'next' and 'Iterator' in d.path and _errs(c.argtys[0]) and not self.errors: return ('v', OPT, 'None')
    def call_alts(self, X, bi, c, env, argv, a):
        # assumptions about the document: it carries a directive with a format section
        rt = X.F.ltys[c.dest[0]]
        po = poll_output(X.F, c)
        if c.decl is not None and c.decl.path.endswith('AstNode::cast') and 'Root' in rt.s: return [([((), ('v', OPT, 'Some'))], a)]
        if po is not None and 'Directive' in po.s and po.d is not None and po.d.path == OPT:
            self.dirs.add(bi)
            return [([((), ('v', POLLT, 'Ready')), (READY, ('v', OPT, 'Some'))], a)]
        if c.decl is not None and c.decl.path.rsplit('::', 1)[-1] == 'next' and _errs(c.argtys[0]) and self.errors and not c.dest[1]:
            # at least one error: the loop may stop only after it has been entered
            out = [([((), ('v', OPT, 'Some'))], (a[0], a[1], True))]
            if a[2]: out.append(([((), ('v', OPT, 'None'))], a))
            return out
    def on_call(self, X, bi, c, env, argv, a):
        d = c.callee
        p = d.path if d is not None else ''
        if p == 'tombi_ast_editor::editor::Editor::<\'a>::edit': self.edits.add(bi); return (True, a[1], a[2])
        if d is not None and d in X.printers: self.prints.add(bi); return (a[0], True, a[2])
        if p.endswith('SetDiagnostics>::set_diagnostics') or (c.decl is not None and c.decl.path.endswith('SetDiagnostics::set_diagnostics')):
            if any(_errs(t) for t in c.argtys): self.sets.add(bi)
        return a

def check(ck):
    prog = ck.prog
    fmt = ck.need(prog.fn(FORMAT_API), 'Formatter::format', 'the formatter entry point')
    if not fmt: return
    printers = {d for dd, l in prog.impl_of.items() if dd.path == 'tombi_formatter::format::Format::format' for d, st in l if st.s == 'tombi_ast::generated::ast_node::Root' or st.s.endswith('::Root')}
    ck.floor('printers', len(printers), 1)
    def pol(g, fr, c):
        if g.d in printers or g.path.startswith('tombi_ast_editor'): return False
        if g.kind in ('closure', 'coroutine'): return prog.outer(g).crate.name in ('tombi_formatter', 'tombi_parser', 'tombi_diagnostic')
        return g.crate.name in ('tombi_parser', 'tombi_formatter') and len(g.blocks) <= 40 and not g.path.startswith('tombi_parser::parse::') and 'Parser' not in g.path and not g.path.endswith('parse_as') and not g.path.endswith('set_diagnostics')
    F = Flat(prog, fmt, pol)
    ck.count('blocks', len(F.blocks))
    sl = Slicer(prog, follow=False)
    def run(errors, disabled):
        m = M(errors, disabled); X = Explorer(F, m); X.printers = printers; X.run(); ck.count('states', X.states)
        for st, msg, bi, line in X.bad: ck.ob(False, 'bad', msg)
        return m, X
    var = lambda r: r[0] if isinstance(r, tuple) else r
    # 1. syntax errors: always Err, nothing edited or printed
    m, X = run(True, False)
    ck.floor('error_tests', len(m.tests | m.sets), 1)
    ck.ob(bool(X.final), 'no-return', 'the formatter never returns')
    for (a, r), st in X.final.items():
        if var(r) == 'Err' and not a[2] and m.opaque: ck.notes.append('errors are collected by a helper over any iterator: whether it is empty is not followed'); continue
        ck.ob(var(r) == 'Err' and a[2], 'errors-ignored', 'a document with syntax errors is formatted: %s' % ' ; '.join(X.witness(st, 6)), sample='syntax errors => Err with the errors collected')
        ck.ob(not a[0] and not a[1], 'errors-printed', 'a document with syntax errors is edited or printed: %s' % ' ; '.join(X.witness(st, 6)))
    # the diagnostics returned are those errors
    # 2. disabled
    m, X = run(False, True)
    ck.floor('disabled_reads', m.dis, 1)
    for (a, r), st in X.final.items():
        ck.ob(var(r) == 'Ok' and not a[0] and not a[1], 'disabled', 'a document that disables formatting is edited or printed: %s' % ' ; '.join(X.witness(st, 6)), sample='format.disabled => source returned')
    m, X = run(True, True)
    for (a, r), st in X.final.items(): ck.ob(not a[0] and not a[1], 'disabled-errors', 'a broken document that disables formatting is edited or printed')
    # 3. normal: edited, then printed, Ok
    m, X = run(False, False)
    ck.floor('edit_calls', len(m.edits), 1); ck.floor('print_calls', len(m.prints), 1)
    for (a, r), st in X.final.items():
        ck.ob(var(r) == 'Ok' and a[1], 'not-printed', 'a document without errors is not formatted: %s' % ' ; '.join(X.witness(st, 6)), sample='no errors => printed text')
    # provenance of each Ok value
    body = prog.body_of(fmt)
    n = 0
    for bi, b in enumerate(F.blocks):
        for s in b.stmts:
            if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt' and s[2][3] == 'Ok' and s[2][5] and 'String' in (F.ltys[s[1][0]].s) and 'Diagnostic' in F.ltys[s[1][0]].s:
                tk = sl.operand(F, s[2][5][0])
                isbuf = any(t[0] == 'field' and t[2] == 'buf' for t in tk)
                issrc = any(t[0] == 'param' and t[3] == 'source' or t[0] == 'param' and 'str' in _pt(prog, t) for t in tk)
                n += 1
                strs = [t[1] for t in tk if t[0] == 'str' and t[1].strip()]
                ck.ob((isbuf or issrc) and not strs, 'returned-text', 'the text returned is neither the source nor the printed buffer (%s)' % F.loc(bi, s[3]), sample='returned text: %s' % ('buffer' if isbuf else 'source'))
                if issrc and not isbuf:
                    calls = sorted(t[1].rsplit('::', 1)[-1] for t in tk if t[0] == 'call')
                    ok = {'to_string', 'to_owned', 'into', 'from', 'deref', 'clone', 'as_str', 'as_ref', 'into_owned'}
                    ck.ob(set(calls) <= ok, 'source-changed', 'the source of a disabled document is changed before it is returned: %s (%s)' % (calls, F.loc(bi, s[3])))
    ck.floor('returned_texts', n, 2)
    # 4. who prints a root: the entry point, or the comment-directive path behind a successful parse
    for f in prog.fns:
        if f.crate.name in NOISE: continue
        for bi, c in f.calls():
            if c.callee in printers:
                o = prog.outer(f)
                ok = o is fmt or o.d in printers
                ck.ob(ok, 'print-root:' + o.path, '%s prints a document without going through the error test (%s)' % (o.path, f.loc(c.line)))
    # directive contents: only a root obtained from try_into_root Ok is printed
    k = 0
    for f in prog.fns:
        if f.crate.name != 'tombi_formatter' or prog.outer(f) is fmt: continue
        for bi, c in f.calls():
            if c.func[0] == 'const' and c.func[1].fn is not None and c.func[1].args and any(t.peel().s.endswith('ast_node::Root') for t in c.func[1].args) and c.callee.path.startswith('tombi_formatter::'):
                tk = sl.operand(f, c.args[-1]); k += 1
                ck.ob(any(t[0] == 'call' and (t[1].endswith('try_into_root') or t[1].endswith('try_into_node')) for t in tk), 'directive-errors:' + f.path, '%s prints a comment directive whose syntax errors were not tested (%s)' % (f.path, f.loc(c.line)))
    ck.count('directive_prints', k)
    # 5. the parser's error list holds lexer and tree errors
    pa = ck.need(prog.fn('tombi_parser::parse_as'), 'parse_as', 'the parser entry')
    if pa:
        m = 0
        s2 = Slicer(prog, follow=False, through_mut=True)
        for bi, c in pa.calls():
            if c.callee is not None and c.callee.path.startswith('tombi_parser::parsed::Parsed') and c.callee.path.endswith('::new'):
                tk = s2.operand(pa, c.args[1]); m += 1
                ck.ob(any(t[0] == 'field' and t[2] == 'errors' and 'tombi_lexer' in t[1] for t in tk), 'lexer-errors', 'the errors of the lexer are not in the parse result')
                ck.ob(any(t[0] == 'call' and t[1].endswith('build_green_tree') for t in tk), 'parser-errors', 'the errors of the parser are not in the parse result')
                bad = sorted(t[1] for t in tk if t[0] in ('call', 'mut') and t[1].rsplit('::', 1)[-1] in LOSSY)
                ck.ob(not bad, 'errors-filtered', 'errors are dropped from the parse result by %s' % bad)
        ck.floor('parse_results', m, 1)
    # 6. the editor's edits
    lsp_edits(ck, prog)
    ck.rule('errors => Err, no editing or printing; disabled => source; otherwise printed; edits computed from the formatted text of the same document')

LOSSY = ('filter', 'filter_map', 'take', 'skip', 'truncate', 'retain', 'clear', 'dedup', 'unique', 'pop', 'drain', 'take_while', 'skip_while', 'last', 'first', 'next', 'dedup_by', 'dedup_by_key', 'nth', 'swap_remove', 'remove', 'step_by')

def _pt(prog, t):
    f = prog.fn(t[1]); return f.ltys[t[2]].s if f is not None and t[2] < len(f.ltys) else ''

def lsp_edits(ck, prog):
    h = ck.need(prog.fn('tombi_lsp::handler::formatting::handle_formatting'), 'handle_formatting', 'the formatting request')
    if not h: return
    F = Flat(prog, h, lambda g, fr, c: g.kind in ('closure', 'coroutine') and prog.outer(g).crate.name == 'tombi_lsp' or (g.crate.name == 'tombi_lsp' and g.path.startswith('tombi_lsp::handler::formatting') and not 'position' in g.path and len(g.blocks) < 12))
    class L(Model):
        init = None
        def __init__(self): self.f = set(); self.e = set(); self.w = set()
        def call_alts(self, X, bi, c, env, argv, a):
            po = poll_output(X.F, c)
            if po is not None and is_result(po) and po.args[0].s == 'alloc::string::String' and 'Diagnostic' in po.args[1].s:
                self.f.add(bi); return [(ready_result('Ok'), 'ok'), (ready_result('Err'), 'err')]
        def on_call(self, X, bi, c, env, argv, a):
            d = c.callee
            rt = X.F.ltys[c.dest[0]]
            if d is not None and 'TextEdit' in rt.s and d.crate == 'tombi_lsp':
                self.e.add(bi)
                if a != 'ok': return '!edits are computed although formatting failed'
            if d is not None and d.path.endswith('DocumentSource::set_text'):
                self.w.add(bi)
                if a != 'ok': return '!the stored text is replaced although formatting failed'
            return a
    m = L(); X = Explorer(F, m); X.run(); ck.count('states', X.states)
    ck.floor('lsp_format_calls', len(m.f), 1); ck.floor('lsp_edit_calls', len(m.e), 1)
    for st, msg, bi, line in X.bad: ck.ob(False, 'lsp:' + msg, '%s (%s)' % (msg, F.loc(bi, line)))
    for (a, r), st in X.final.items():
        some = isinstance(r, tuple) and r[0] == 'Ok' and isinstance(r[1], tuple) and r[1][:1] == ('v',) and r[1][2] == 'Some'
        if a != 'ok': ck.ob(not some, 'lsp-edits-without-format', 'edits are returned although the document was not formatted: %s' % ' ; '.join(X.witness(st, 5)), sample='not formatted => no edits')
    sl = Slicer(prog, follow=False)
    for bi in m.e:
        c = F.blocks[bi].term[1]
        tks = [sl.operand(F, a) for a in c.args]
        fm = [i for i, t in enumerate(tks) if any(x[0] == 'call' and x[1].endswith('::format') and 'Formatter' in x[1] for x in t)]
        ck.ob(len(fm) >= 1, 'lsp-edit-source', 'the edits are not computed from the formatted text (%s)' % F.loc(bi, c.line))
        doc = [i for i, t in enumerate(tks) if i not in fm and any(x[0] == 'call' and x[1].startswith('tombi_lsp::document::DocumentSource') for x in t)]
        ck.ob(len(doc) >= 1, 'lsp-edit-base', 'the edits are not computed against the document that was formatted (%s)' % F.loc(bi, c.line))
