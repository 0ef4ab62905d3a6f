"""Selection of the TOML version, decided by abstract interpretation: the version given by the document's comment
directive, by the schema and by the configuration are symbols, every combination of given / not given is explored
through the formatter's and the linter's entry points, the language server's resolution and the schema's own
resolution, and the symbol that reaches every later use of a version is compared with the documented precedence.
Provenance of the version at every construction of a formatter, linter, stored document and document tree."""
from props.common import *

TV = 'tombi_toml_version::TomlVersion'
SOME0 = (('d', 'Some'), ('f', '0'))
SYM = lambda x: [((), ('v', OPT, 'None'))] if x is None else [((), ('v', OPT, 'Some')), (SOME0, ('str', x))]
SCHEMA_V = 'tombi_schema_store::schema::source_schema::SourceSchema::toml_version'

def is_tv(t): return t is not None and t.peel().s.endswith('TomlVersion')
def opt_of(t, name): return t is not None and t.d is not None and t.d.path == OPT and t.args and name in t.args[0].s

def fill(t, s, pre=()):
    """Assume: every Option<SourceSchema> inside an awaited value is present (absent when s is 'none', its
    resolution failed when s is 'fail'); every directive is present."""
    out = []
    if t is None: return out
    if t.d is not None and t.d.path == RES:
        if s == 'fail' and 'SourceSchema' in t.args[0].s: return [(pre, ('v', RES, 'Err'))]
        out.append((pre, ('v', RES, 'Ok'))); out += fill(t.args[0], s, pre + (('d', 'Ok'), ('f', '0')))
    elif opt_of(t, 'SourceSchema'): out.append((pre, ('v', OPT, 'None' if s in ('none', 'fail') else 'Some')))
    elif opt_of(t, 'DirectiveContent'): out.append((pre, ('v', OPT, 'Some')))
    elif t.k == 'tuple':
        for i, x in enumerate(t.args): out += fill(x, s, pre + (('f', str(i)),))
    return out

class V(Model):
    """astate: nothing; the version in force is tracked as a value."""
    init = 0
    wants_stmts = True
    def __init__(self, d, s, want, owner, uses): self.d = d; self.s = s; self.want = want; self.own = owner; self.uses = uses; self.seen = set(); self.got = []; self.dreads = 0; self.scalls = set()
    def read(self, X, bi, p, owner):
        if owner is not None and owner.endswith('DirectiveContent') and p[1] and p[1][-1] == ('f', 'toml_version'):
            self.dreads += 1; return SYM(self.d)
    def call_alts(self, X, bi, c, env, argv, a):
        d = c.callee; dd = c.decl
        if d is not None and d.path == SCHEMA_V: self.scalls.add(bi); return [(SYM(self.s), a)]
        rt = X.F.ltys[c.dest[0]] if not c.dest[1] else None
        po = poll_output(X.F, c)
        if po is not None:
            t = fill(po, self.s)
            if t: return [([((), ('v', POLLT, 'Ready'))] + [(READY + k, v) for k, v in t], a)]
        if dd is not None and dd.path.endswith('AstNode::cast') and rt is not None and rt.d is not None and rt.d.path == OPT: return [([((), ('v', OPT, 'Some'))], a)]
        if rt is not None and opt_of(rt, 'SourceSchema'):
            if dd is not None and dd.path.rsplit('::', 1)[-1] in ('flatten', 'ok', 'unwrap_or_default'): return [([((), ('v', OPT, 'None' if self.s in ('none', 'fail') else 'Some'))], a)]
        if rt is not None and dd is not None and dd.path.rsplit('::', 1)[-1] == 'ok' and opt_of(rt, 'Option') and 'SourceSchema' in rt.s:
            if self.s == 'fail': return [([((), ('v', OPT, 'None'))], a)]
            return [([((), ('v', OPT, 'Some')), (SOME0, ('v', OPT, 'None' if self.s == 'none' else 'Some'))], a)]
    def val(self, X, env, pl):
        v = env.get(pl); n = 0
        while v is not None and v[0] == 's' and n < 6: v = env.get(v[1]); n += 1
        return v
    def chk(self, X, bi, v, what, line, a):
        if v == ('str', self.want): self.seen.add(bi); return a
        return '!%s uses the version %s instead of %s' % (what, v[1] if v is not None and v[0] == 'str' else 'of unknown origin', self.want)
    def on_stmt(self, X, bi, s, env, a):
        if s[0] == '=' and s[2][0] == 'agg' and s[2][2] is not None and s[2][2].path.endswith('::SchemaContext'):
            for n, o in zip(s[2][4], s[2][5]):
                if str(n) == 'toml_version': return self.chk(X, bi, self.norm(X, env, X.eval(bi, env, o)), 'the schema context', s[3], a)
        return a
    def norm(self, X, env, v):
        n = 0
        while v is not None and v[0] == 's' and n < 6: v = env.get(v[1]); n += 1
        return v
    def on_call(self, X, bi, c, env, argv, a):
        d = c.callee; dd = c.decl
        if d is None: return a
        last = dd.path.rsplit('::', 1)[-1]
        for i, (t, v) in enumerate(zip(c.argtys, argv)):
            if is_tv(t) and (d.crate.startswith('tombi') ) and not 'TomlVersion' in d.path:
                return self.chk(X, bi, self.norm(X, env, v if v is None or v[0] != 'r' else env.get(v[1])), d.path, c.line, a)
            # the formatter / linter itself is handed on
            if t.k == 'refmut' and t.args and t.args[0].d is not None and t.args[0].d.path == self.own and v is not None and v[0] == 'r':
                if d in self.uses or dd in self.uses:
                    q = v[1]
                    return self.chk(X, bi, self.norm(X, env, env.get((q[0], q[1] + (('f', 'toml_version'),)))), d.path, c.line, a)
        return a

class Keep(Explorer):
    """Callees do not write the version (checked by writers()), so it survives a call that gets &mut self."""
    def kill_below(self, env, p):
        keep = {k: v for k, v in env.items() if k[0] == p[0] and k[1] == p[1] + (('f', 'toml_version'),)}
        self.kill(env, p); env.update(keep)

def writers(ck, prog, fn, own):
    """Who assigns the version of a formatter / linter besides its entry point."""
    for f in prog.fns:
        if f.crate.name != fn.crate.name: continue
        for b in f.blocks:
            for s in b.stmts:
                if s[0] != '=': continue
                pr = [e for e in s[1][1] if e != '*']
                if pr and pr[-1][0] == 'f' and str(pr[-1][1]) == 'toml_version' and base_adt(f, s[1], len(s[1][1]) - 1) == own:
                    ck.ob(prog.outer(f) is fn, 'writer:' + prog.outer(f).path, '%s changes the version of a running %s (%s)' % (prog.outer(f).path, own, f.loc(s[3])), sample='%s: version written only by the entry point' % own.rsplit('::', 1)[-1])

def entry(ck, prog, api, own, polfn, floor_uses):
    fn = ck.need(prog.fn(api), api, 'the entry point ' + api)
    if not fn: return
    ck.need(prog.adts.get(own), own, 'the structure holding the version')
    # what a call with &mut Formatter / &mut Linter may read the version
    getters = {f.d for f in prog.fns if f.crate.name == fn.crate.name and f.kind not in ('closure', 'coroutine') and f.ac == 1 and is_tv(f.ltys[0]) and f.ltys[1].peel().d is not None and f.ltys[1].peel().d.path == own}
    ck.floor('getters:' + own.rsplit('::', 1)[-1], len(getters), 1)
    uses = {f.d for f in relevant(prog, lambda d: d in getters)} | getters
    traits = {dd for dd, l in prog.impl_of.items() if any(x in uses for x, _ in l)}
    uses |= traits
    writers(ck, prog, fn, own)
    F = Flat(prog, fn, polfn)
    for d in (None, 'D'):
        for s in (None, 'S', 'none', 'fail'):
            want = d or (s if s == 'S' else None) or 'C'
            m = V(d, s, want, own, uses); X = Keep(F, m)
            X.run({(1, (('f', 'toml_version'),)): ('str', 'C')})
            ck.count('states', X.states)
            nm = own.rsplit('::', 1)[-1]
            lab = '%s: directive %s, schema %s' % (nm, 'given' if d else 'absent', {'S': 'with version', None: 'without version', 'none': 'absent', 'fail': 'not loadable'}[s])
            for st, msg, bi, line in X.bad: ck.ob(False, 'use:%s:%s' % (nm, want), '%s: %s (%s): %s' % (lab, msg, F.loc(bi, line), ' ; '.join(X.witness(st, 4))))
            ck.ob(len(m.seen) >= floor_uses, 'uses:%s:%s%s' % (nm, d, s), '%s: only %d uses of the version reached' % (lab, len(m.seen)), sample='%s -> %s at %d uses' % (lab, want, len(m.seen)))
            ck.ob(not X.overflow, 'overflow:' + nm, 'exploration did not finish')
            ck.ob(m.dreads > 0, 'directive:' + nm, '%s: the version of the comment directive is never looked at' % nm)

class R(Model):
    """SourceSchema::toml_version"""
    init = 0
    def __init__(self, own, cfg, sch): self.own = own; self.cfg = cfg; self.sch = sch; self.got = []; self.n = set()
    def read(self, X, bi, p, owner):
        if owner is not None and owner == self.own and p[1][-1][0] == 'f':
            if p[1][-1][1] == 'toml_version': return SYM(self.cfg)
            if p[1][-1][1] == 'root_schema': return [((), ('v', OPT, 'Some'))]
    def call_alts(self, X, bi, c, env, argv, a):
        if c.callee is not None and c.callee.path.endswith('DocumentSchema::toml_version'): self.n.add(bi); return [(SYM(self.sch), a)]
    def on_ret(self, X, bi, env, a):
        for l in X.F.ret_locals: self.got.append({k[1]: v for k, v in env.items() if k[0] == l})
        return a

def optval(env, pre=()):
    v = env.get(pre)
    if v is None or v[0] != 'v': return '?'
    if v[2] == 'None': return None
    x = env.get(pre + SOME0)
    return x[1] if x is not None and x[0] == 'str' else '?'

def schema_side(ck, prog):
    fn = ck.need(prog.fn(SCHEMA_V), 'SourceSchema::toml_version', 'the version of a schema')
    if not fn: return
    own = fn.ltys[1].peel().d.path
    F = Flat(prog, fn, lambda g, fr, c: g.crate.name == 'tombi_schema_store' and not g.path.endswith('DocumentSchema::toml_version'))
    for cfg in (None, 'E'):
        for sch in (None, 'X'):
            m = R(own, cfg, sch); X = Explorer(F, m); X.run(); ck.count('states', X.states)
            ck.ob(bool(m.got), 'schema-version', 'no return of %s explored' % fn.path)
            for env in m.got: ck.ob(optval(env) == (cfg or sch), 'schema-version:%s%s' % (cfg, sch), '%s: [[schemas]] entry gives %s, the schema itself %s, but the version is %s' % (fn.path, cfg, sch, optval(env)), sample='schema: entry %s, file %s -> %s' % (cfg, sch, optval(env)))
    # DocumentSchema::toml_version gives the stored version; it is parsed from x-tombi-toml-version
    sl = Slicer(prog, follow=False)
    g = ck.need(next((f for f in prog.fns if f.path.endswith('DocumentSchema::toml_version')), None), 'DocumentSchema::toml_version', 'the version written in a schema')
    if g:
        m = R(g.ltys[1].peel().d.path, 'X', None); X = Explorer(Flat(prog, g, lambda *a: False), m); X.run()
        tk = sl.place(g, (0, ()))
        ck.ob(any(t[0] == 'field' and t[2] == 'toml_version' for t in tk), 'document-schema-version', '%s does not return the version of the schema' % g.path)
    n = 0; parsed = 0
    for f in prog.fns:
        if f.crate.name in NOISE: continue
        for b in f.blocks:
            for s in b.stmts:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt' and s[2][2] is not None and s[2][2].path.endswith('::DocumentSchema'):
                    n += 1
                    for nm, o in zip(s[2][4], s[2][5]):
                        if str(nm) == 'toml_version':
                            tk = sl.operand(f, o)
                            ds = {t[1] for t in tk if t[0] in ('named', 'str')}
                            fromkey = any('x-tombi-toml-version' in str(x) or 'TOML_VERSION' in str(x) for x in ds)
                            parsed += fromkey
                            others = [x for x in ds if ('X_TOMBI' in str(x) or str(x).startswith('x-tombi')) and 'toml-version' not in str(x).lower().replace('_', '-')]
                            ck.ob(not others, 'schema-key', '%s reads the version from %s' % (f.path, others))
    ck.floor('schemas_built', n, 1); ck.ob(parsed >= 1, 'schema-key-unread', 'x-tombi-toml-version is never read into the schema', sample='x-tombi-toml-version parsed in %d place(s)' % parsed)
    # the version of a [[schemas]] entry reaches the source schema
    k = 0
    su = Slicer(prog, follow=True, max_depth=3)
    for f in prog.fns:
        if f.crate.name != 'tombi_schema_store' or f.crate.name in NOISE: continue
        for bi, c in f.calls():
            if c.callee is not None and c.callee.path.endswith('SourceSchema::new'):
                i = next((i for i, t in enumerate(c.argtys) if opt_of(t, 'TomlVersion')), None)
                if i is None: continue
                tk = sl.operand(f, c.args[i])
                if any(t[0] == 'upvar' or t[0] == 'field' or t[0] == 'call' for t in tk): k += 1
    ck.floor('source_schemas_with_version', k, 2)
    it = ck.need(next((f for f in prog.fns if f.path.startswith('tombi_config::schema::') and f.name == 'toml_version' and f.ac == 1), None), 'SchemaItem::toml_version', 'the version of a [[schemas]] entry')
    if it:
        tk = sl.place(it, (0, ()))
        ck.ob(any(t[0] == 'field' and t[2] == 'toml_version' for t in tk), 'entry-version', '%s does not return the version of the entry' % it.path)
        st = 0
        for f in prog.fns:
            if f.crate.name != 'tombi_schema_store': continue
            for b in f.blocks:
                for s in b.stmts:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt' and s[2][2] is not None and s[2][2].path == 'tombi_schema_store::schema::Schema':
                        for nm, o in zip(s[2][4], s[2][5]):
                            if str(nm) == 'toml_version':
                                tk = sl.operand(f, o)
                                if any(t[0] == 'call' and t[1] == it.path for t in tk): st += 1
        ck.floor('entries_registered', st, 1)

class L(V):
    """The language server's resolution."""
    def __init__(self, d, s, c, e):
        V.__init__(self, d, s, None, None, set()); self.c = c; self.e = e
    def on_call(self, X, bi, c, env, argv, a): return a
    def on_stmt(self, X, bi, s, env, a): return a
    def call(self, X, bi, c, env, argv):
        if c.decl is not None and c.decl.path.endswith('Option::<T>::unwrap_or_default') and is_tv(X.F.ltys[c.dest[0]]):
            v = argv[0]
            if v is not None and v[0] == 's': v = X.variant_at(env, v[1])
            if v is not None and v[0] == 'v' and v[2] == 'None': return ('str', 'default')
    def call_alts(self, X, bi, c, env, argv, a):
        po = poll_output(X.F, c)
        if po is not None:
            if po.d is not None and po.d.path.endswith('ConfigSchemaStore'):
                return [([((), ('v', POLLT, 'Ready'))] + [(READY + (('f', 'config'), ('f', 'toml_version')) + k, v) for k, v in SYM(self.c)], a)]
            if po.k == 'tuple' and any('DefaultConfigSource' in x.s for x in po.args):
                i = next(i for i, x in enumerate(po.args) if 'DefaultConfigSource' in x.s); j = 1 - i
                return [([((), ('v', POLLT, 'Ready')), (READY + (('f', str(i)),), ('v', po.args[i].d.path, 'Editor' if self.e else 'Default'))] + [(READY + (('f', str(j)), ('f', 'toml_version')) + k, v) for k, v in SYM('E' if self.e else None)], a)]
        dd = c.decl
        if dd is not None and dd.path.startswith('tombi_parser::parsed') and dd.path.endswith('::cast'): return [([((), ('v', OPT, 'Some'))], a)]
        return V.call_alts(self, X, bi, c, env, argv, a)
    def on_ret(self, X, bi, env, a):
        for l in X.F.ret_locals: self.got.append({k[1]: v for k, v in env.items() if k[0] == l})
        return a

def lsp_side(ck, prog):
    fns = [f for f in prog.fns if f.crate.name == 'tombi_lsp' and f.kind not in ('closure', 'coroutine') and f.is_async and 'toml_version_and_source' in f.path]
    # by type: the async method returning (TomlVersion, TomlVersionSource)
    l = []
    for f in prog.fns:
        if f.crate.name == 'tombi_lsp' and f.is_async:
            t = prog.body_of(f).ltys[0]
            if t.k == 'tuple' and len(t.args) == 2 and is_tv(t.args[0]) and t.args[1].d is not None: l.append(f)
    fn = ck.need(l[0] if l else None, 'lsp-version', 'the version resolution of the language server')
    if not fn: return None
    F = Flat(prog, fn, lambda g, fr, c: g.kind in ('closure', 'coroutine') and prog.outer(g) is fn)
    SRC = {'D': 'Comment', 'S': 'Schema', 'C': 'Config', 'E': 'Editor', 'default': 'Default'}
    for d in (None, 'D'):
        for s in (None, 'S', 'none', 'fail'):
            for c in (None, 'C'):
                for e in (True, False):
                    m = L(d, s, c, e); X = Explorer(F, m); X.run(); ck.count('states', X.states)
                    want = d or (s if s == 'S' else None) or c or ('E' if e else 'default')
                    ck.ob(bool(m.got), 'lsp-return', 'no return of %s explored' % fn.path)
                    for env in m.got:
                        v = env.get((('f', '0'),)); w = env.get((('f', '1'),))
                        ck.ob(v == ('str', want), 'lsp-version:%s' % want, '%s: directive %s, schema %s, config %s, editor default %s: the version is %s' % (fn.path, d, s, c, e, v[1] if v is not None and v[0] == 'str' else v), sample='language server: %s%s%s%s -> %s' % (d, s, c, e, want))
                        ck.ob(w is not None and w[0] == 'v' and w[2] == SRC[want], 'lsp-source:%s' % want, '%s: the version is said to come from %s instead of %s' % (fn.path, w[2] if w is not None and w[0] == 'v' else w, SRC[want]))
    return fn

def sites(ck, prog, lspfn):
    sl = Slicer(prog, follow=False, stop_call=lambda p: lspfn is not None and 'text_document_toml_version' in p)
    n = 0
    versfn = {f.path for f in prog.fns if f.crate.name == 'tombi_lsp' and f.is_async and is_tv(prog.body_of(f).ltys[0])} | ({lspfn.path} if lspfn else set())
    def from_lsp(tk): return any(t[0] == 'call' and t[1] in versfn for t in tk)
    def f_field(tk, own, name='toml_version'): return any(t[0] == 'field' and str(t[1]).endswith(own) and t[2] == name for t in tk)
    def consts(tk): return sorted({t[2] for t in tk if t[0] == 'agg' and t[1] == TV} | {t[1] for t in tk if t[0] == 'call' and t[1].startswith(TV)})
    for f in prog.fns:
        if f.crate.name in NOISE or f.crate.name in ('serde_tombi', 'tombi_formatter', 'tombi_linter'): continue
        for bi, c in f.calls():
            d = c.callee
            if d is None: continue
            isnew = d.path in ("tombi_formatter::formatter::Formatter::<'a>::new", "tombi_linter::linter::Linter::<'a>::new")
            o = prog.outer(f)
            if isnew:
                i = next(i for i, t in enumerate(c.argtys) if is_tv(t))
                tk = sl.up(f, c.args[i]); n += 1
                if f.crate.name == 'tombi_lsp': ok = f_field(tk, 'DocumentSource')
                else: ok = f_field(tk, 'Config')
                cs = [x for x in consts(tk) if not x.endswith('::default')]
                ck.ob(ok and not cs, 'base-version:' + o.path, '%s does not start from the configured version: %s (%s)' % (o.path, cs or 'unknown origin', f.loc(c.line)), sample='%s: base version from %s' % (o.path, 'the stored document' if f.crate.name == 'tombi_lsp' else 'the configuration'))
    ck.floor('runs', n, 5)
    # stored documents
    k = 0; prov = set()
    for f in prog.fns:
        if f.crate.name != 'tombi_lsp': continue
        for bi, c in f.calls():
            d = c.callee
            if d is None or not (d.path.endswith('document::DocumentSource::new') or d.path.endswith('document::DocumentSource::set_text')): continue
            o = prog.outer(f)
            if not prog_live(prog, o): continue
            i = next(i for i, t in enumerate(c.argtys) if is_tv(t)); k += 1
            tk = sl.up(f, c.args[i])
            ok = from_lsp(tk) or f_field(tk, 'DocumentSource')
            if (consts(tk) or not ok) and any(c2.callee is not None and c2.callee.path in versfn for g in prog.fns if prog.outer(g) is o for _, c2 in g.calls()):
                # a provisional version: on every path of this handler the resolved one has to follow
                settle(ck, prog, o, prov); continue
            ck.ob(ok and not consts(tk), 'stored-version:' + o.path, '%s stores a document with a version that was not resolved for it (%s)' % (o.path, f.loc(c.line)), sample='%s: stored version resolved' % o.path)
            # whoever replaces the text by other than the formatted one resolves again
            if not o.path.startswith('tombi_lsp::handler::formatting'):
                ck.ob(any(c2.callee is not None and c2.callee.path in versfn for g in prog.fns if prog.outer(g) is o for _, c2 in g.calls()), 'not-resolved:' + o.path, '%s replaces the text of a document without resolving its version again (%s)' % (o.path, f.loc(c.line)))
    ck.floor('documents_stored', k, 5)
    # document trees and comparisons inside the stored document
    t = 0
    for f in prog.fns:
        if f.crate.name != 'tombi_lsp' or not prog_live(prog, prog.outer(f)): continue
        for bi, c in f.calls():
            dd = c.decl
            if dd is None or dd.path.rsplit('::', 1)[-1] not in ('into_document_tree_and_errors', 'try_into_document_tree'): continue
            i = next((i for i, x in enumerate(c.argtys) if is_tv(x)), None)
            if i is None: continue
            tk = sl.up(f, c.args[i]); t += 1
            if any(x[0] == 'named' and 'COMMENT_DIRECTIVE' in x[1] for x in tk): continue
            ck.ob((from_lsp(tk) or f_field(tk, 'DocumentSource') or f_field(tk, 'SchemaContext')) and not [x for x in consts(tk)], 'tree-version:' + prog.outer(f).path, '%s builds a document tree with a version that is not the document\'s: %s (%s)' % (prog.outer(f).path, consts(tk), f.loc(c.line)), sample='%s: tree version' % prog.outer(f).path)
    ck.floor('trees_built', t, 4)
    # nowhere else is a fixed version put in the place of the selected one
    q = 0
    for f in prog.fns:
        if f.crate.name in NOISE or f.crate.name in OWN_SYNTAX or f.crate.name == 'tombi_toml_version': continue
        o = prog.outer(f)
        def const_use(x, line, what):
            nonlocal q
            q += 1
            if x[0] == 'const' and x[1].cd is None: bad = True
            else:
                tk = sl.operand(f, x)
                if any(t[0] == 'named' for t in tk): return
                bad = bool([y for y in consts(tk) if not y.endswith('::default')]) and not any(t[0] in ('field', 'param', 'upvar', 'call') for t in tk)
            ck.ob(not bad, 'fixed-version:' + o.path, '%s hands a fixed TOML version to %s (%s)' % (o.path, what, f.loc(line)))
        for b in f.blocks:
            for s in b.stmts:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt' and s[2][2] is not None and s[2][2].path.endswith('::SchemaContext'):
                    for nm, x in zip(s[2][4], s[2][5]):
                        if str(nm) == 'toml_version': const_use(x, s[3], 'a schema context')
            if b.term[0] == 'call':
                c = b.term[1]
                if c.callee is None or not c.callee.crate.startswith('tombi') or 'TomlVersion' in c.callee.path: continue
                for x, t in zip(c.args, c.argtys):
                    if is_tv(t) and t.peel().s.endswith('TomlVersion'): const_use(x, c.line, c.callee.path)
    ck.floor('versions_passed', q, 60)

# Tombi's own syntax (patterns, its configuration, generated text), not the user's documents
OWN_SYNTAX = ('tombi_accessor', 'serde_tombi')

def prog_live(prog, o): return True

class Ch(Model):
    """didChange: what version the stored text ends with.  astate: last stored version symbol or None"""
    init = (None, False)
    def __init__(self, versfn, differ): self.versfn = versfn; self.sets = set(); self.res = set(); self.differ = differ; self.cmp = set(); self.stale = set()
    def read(self, X, bi, p, owner):
        if owner is not None and owner.endswith('DocumentSource') and p[1][-1] == ('f', 'toml_version'): return ('str', 'old')
    def call_alts(self, X, bi, c, env, argv, a):
        po = poll_output(X.F, c); dd = c.decl
        if po is not None and is_tv(po): self.res.add(bi); return [([((), ('v', POLLT, 'Ready')), (READY, ('str', 'new'))], (a[0], True))]
        if dd is not None and dd.path.rsplit('::', 1)[-1] in ('eq', 'ne') and c.argtys and is_tv(c.argtys[0]):
            self.cmp.add(bi); return [([((), cbool((dd.path.endswith('ne')) == self.differ))], a)]
        if dd is not None and dd.path.rsplit('::', 1)[-1] in ('eq', 'ne') and 'Option<i32>' in c.argtys[0].s:
            ne = dd.path.endswith('ne')
            # superseded by a newer change, or not
            return [([((), cbool(ne))], ('gone', True)), ([((), cbool(not ne))], a)]
        rt = X.F.ltys[c.dest[0]] if not c.dest[1] else None
        if dd is not None and dd.path.rsplit('::', 1)[-1] == 'get_mut' and rt is not None and opt_of(rt, 'DocumentSource'):
            return [([((), ('v', OPT, 'Some'))], a), ([((), ('v', OPT, 'None'))], ('gone', True))]
        if rt is not None and is_tv(rt) and rt.k == 'adt' and not c.args: return [([((), ('str', 'old'))], a)]
    def on_call(self, X, bi, c, env, argv, a):
        d = c.callee
        if d is not None and (d.path.endswith('DocumentSource::set_text') or d.path.endswith('DocumentSource::new')) and a[0] != 'gone':
            self.sets.add(bi)
            i = next(i for i, t in enumerate(c.argtys) if is_tv(t)); v = argv[i]
            n = 0
            while v is not None and v[0] == 's' and n < 6: v = env.get(v[1]); n += 1
            return (v[1] if v is not None and v[0] == 'str' else '?', a[1])
        return a

def settle(ck, prog, fn, done):
    """A handler that stores a document before its version is resolved: the resolved version has to follow."""
    if fn.path in done: return
    done.add(fn.path)
    nm = fn.path.rsplit('::', 1)[-1]
    F = Flat(prog, fn, lambda g, fr, c: g.kind in ('closure', 'coroutine') and prog.outer(g) is fn)
    for differ in (True, False):
        m = Ch(None, differ); X = Explorer(F, m); X.run(); ck.count('states', X.states)
        ck.ob(len(m.sets) >= 1 and len(m.res) >= 1, 'change-sets:' + nm, '%s does not store the text or resolve its version' % fn.path)
        n = 0
        for (a, r), st in X.final.items():
            if a[0] is None or a[0] == 'gone': continue     # no text in the notification / no such document / superseded
            n += 1
            ok = a[0] == 'new' or (not differ and a[0] == 'old')
            ck.ob(ok and a[1], 'change-version:%s:%s' % (nm, differ), '%s leaves the document with %s although the new text resolves to another: %s' % (fn.path, {'old': 'the provisional version'}.get(a[0], 'the version %s' % a[0]), ' ; '.join(X.witness(st, 6))), sample='%s: version %s -> stored %s' % (nm, 'changed' if differ else 'same', a[0]))
        ck.ob(n > 0, 'change-unreached:' + nm, '%s: no path stores a text' % fn.path)

def change(ck, prog, lspfn):
    fn = ck.need(prog.fn('tombi_lsp::handler::did_change::handle_did_change'), 'did_change', 'the change notification')
    if fn: settle(ck, prog, fn, set())

def check(ck):
    prog = ck.prog
    def pol(crate):
        printers = {d for dd, l in prog.impl_of.items() if dd.path in ('tombi_formatter::format::Format::format', 'tombi_linter::lint::Lint::lint') for d, st in l}
        def f(g, fr, c):
            if g.d in printers: return False
            if g.kind in ('closure', 'coroutine'): return prog.outer(g).crate.name == crate and prog.outer(g).d not in printers
            return g.crate.name == crate and len(g.blocks) <= 30
        return f
    entry(ck, prog, FORMAT_API, "tombi_formatter::formatter::Formatter", pol('tombi_formatter'), 2)
    entry(ck, prog, LINT_API, "tombi_linter::linter::Linter", pol('tombi_linter'), 3)
    schema_side(ck, prog)
    lf = lsp_side(ck, prog)
    sites(ck, prog, lf)
    change(ck, prog, lf)
    ck.rule('comment directive, then schema ([[schemas]] entry, then x-tombi-toml-version), then configuration; every use after the selection gets the selected version')
