"""Who-may-call rule for network primitives, plus path exploration of every fetch under the assumption that the
offline option is set: the option field (and every boolean parameter fed from it) is taken to be true and no
path may reach the HTTP client.  Parameters are followed through all call sites up to the option."""
from props.common import *

GET = 'tombi_schema_store::http_client::HttpClient::get_bytes'

def is_offline_field(owner, name): return name == 'offline'

class Off(Model):
    init = None
    def __init__(self, field): self.field = field; self.hit = set(); self.reads = 0
    def read(self, X, bi, p, owner):
        pr = p[1]
        if pr and pr[-1] == ('f', self.field) and owner is not None and owner in X.offowners:
            self.reads += 1
            return [((), ('v', OPT, 'Some')), ((('d', 'Some'), ('f', '0')), T)] if X.offowners[owner] == 'opt' else T
        if len(pr) >= 3 and pr[-3:] == (('f', self.field), ('d', 'Some'), ('f', '0')): return T
    def on_call(self, X, bi, c, env, argv, a):
        if X.target(X, bi, c):
            self.hit.add(bi); return '!reaches the network'
        return a

def off_owners(prog, field):
    out = {}
    for a in prog.adts.values():
        if a.kind != 'struct': continue
        for n, t, _ in a.fields():
            if n == field:
                if t.k == 'bool': out[a.path] = 'bool'
                elif t.s == 'core::option::Option<bool>': out[a.path] = 'opt'
    return out

class LocalFlow:
    """Provenance of an operand inside one named function: parameters of the function are kept."""
    def __init__(self, prog): self.prog = prog; self.sl = Slicer(prog, follow=True, max_depth=4)
    def toks(self, fn, o):
        out = set(); work = [(fn, o)]; done = set()
        while work:
            f, o = work.pop()
            for t in self.sl.operand(f, o):
                if t[0] == 'upvar':
                    k = (f.path, t[1])
                    if k in done: continue
                    done.add(k)
                    for g, s in self.sl.creators(f.d):
                        for n, x in zip(s[2][4], s[2][5]):
                            if str(n) == '^' + t[1]: work.append((g, x))
                else: out.add(t)
        return out

def bool_params(prog, fn):
    return [i for i in range(1, fn.ac + 1) if fn.ltys[i].k == 'bool']

def guard_analysis(ck, field, prog, live, target, what, verb):
    """Every function from which target is called is guarded by `field`; returns the set of (fn, param) whose
    value must be the option."""
    owners = off_owners(prog, field)
    lf = LocalFlow(prog)
    # boolean parameters that may carry the option
    carry = set()
    changed = True
    cs_all = []
    for f in live:
        for bi, c in f.calls():
            if any(t.k == 'bool' for t in c.argtys) and c.func[0] == 'const':
                for d in prog.callees_of_const(c.func[1]):
                    if d.fn is not None and d.fn.kind not in ('closure', 'coroutine'):
                        for i, t in enumerate(c.argtys):
                            if t.k == 'bool' and i + 1 <= d.fn.ac: cs_all.append((f, c, d.fn, i + 1))
    tokc = {}
    for f, c, g, i in cs_all: tokc[(f, id(c), i)] = lf.toks(f, c.args[i - 1])
    def from_option(tk): return any(t[0] == 'field' and t[2] == field and t[1] in owners for t in tk)
    while changed:
        changed = False
        for f, c, g, i in cs_all:
            if (g, i) in carry: continue
            tk = tokc[(f, id(c), i)]
            if from_option(tk) or any(t[0] == 'param' and (prog.fn(t[1]), t[2]) in carry for t in tk):
                carry.add((g, i)); changed = True
    ck.count('parameters_carrying_the_option', len(carry))
    needed = set()
    seen = set()
    def pol_for(extra):
        def pol(g, fr, c):
            if g in extra: return True
            if g.crate.name in NOISE: return False
            if g.kind in ('closure', 'coroutine'): return True
            return len(g.blocks) <= 25 and not g.is_async and g in live
        return pol
    work = []
    for f in live:
        for bi, c in f.calls():
            if target(None, bi, c): work.append((prog.outer(f), frozenset(), ()))
    n = 0
    sites = set()
    while work:
        g, extra, path = work.pop()
        if (g, extra) in seen: continue
        seen.add((g, extra))
        sites.add(g.path)
        body = g
        extra2 = set(extra) | {g}
        F = Flat(prog, g, pol_for(extra2), rec_limit=0)
        m = Off(field); X = Explorer(F, m, cap=48); X.offowners = owners; X.target = target
        env = {}
        ps = [i for i in bool_params(prog, g) if (g, i) in carry]
        for i in ps: env[(i, ())] = T
        X.run(env)
        n += 1
        ck.count('states', X.states)
        if X.overflow: ck.ob(False, 'overflow:' + g.path, 'state space not exhausted')
        if not X.bad:
            ck.ob(True, '', '', sample='%s: no path %s with %s set%s' % (g.path, verb, field, ' (parameter %s)' % ', '.join(g.lnames[i] or '?' for i in ps) if ps else ''))
            for i in ps: needed.add((g, i))
            continue
        # unguarded here: every caller must guard it
        callers = []
        for h, line, k in prog.callers().get(g.d, []):
            if h in live: callers.append(prog.outer(h))
        callers = [h for h in dict.fromkeys(callers) if h is not g]
        if not callers or len(path) >= 5:
            st, msg, bi, line = X.bad[0]
            ck.ob(False, 'unguarded:' + (path[0] if path else g.path), '%s %s although the %s option is set; call chain %s; path: %s' % (g.path, what, field, ' <- '.join((list(path) + [g.path])), ' ; '.join(X.witness(st, 6))))
            continue
        for h in callers: work.append((h, frozenset(extra2), path + (g.path,)))
    ck.count('functions_explored', n)
    # the value handed to every parameter relied upon is the option
    done = set(); st = list(needed)
    while st:
        g, i = st.pop()
        if (g, i) in done: continue
        done.add((g, i))
        for f, c, h, j in cs_all:
            if h is not g or j != i: continue
            tk = tokc[(f, id(c), i)]
            ck.count('call_sites_passing_the_option')
            ok = from_option(tk); viaparam = [t for t in tk if t[0] == 'param' and prog.fn(t[1]) is not None and prog.fn(t[1]).ac >= t[2] and prog.fn(t[1]).ltys[t[2]].k == 'bool']
            for t in viaparam: st.append((prog.fn(t[1]), t[2]))
            neg = any(t == ('op', 'Not') for t in tk)
            ck.ob((ok or viaparam) and not neg, 'arg:%s:%s' % (prog.outer(f).path, g.path), '%s passes a value that is not the %s option to %s (%s)' % (prog.outer(f).path, field, g.path, f.loc(c.line)))
    return sites

def options_flow(ck, prog, live, adt, field, allow=()):
    """Every construction of `adt` takes `field` from a command-line or backend option of the same name."""
    sl = Slicer(prog, follow=True, max_depth=4)
    n = 0
    for f in live:
        for b in f.blocks:
            for s in b.stmts:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt' and s[2][2] is not None and s[2][2].path == adt:
                    o = prog.outer(f)
                    if o.path.endswith('Default>::default') or o.path.endswith('Clone>::clone') or o.path in allow: continue
                    d = dict(zip([str(x) for x in s[2][4]], s[2][5]))
                    n += 1
                    tk = sl.up(f, d[field])
                    src = any(t[0] == 'field' and t[2] == field and t[1] != adt for t in tk)
                    ck.ob(src and ('op', 'Not') not in tk, 'options:%s:%s' % (o.path, field), '%s builds %s whose %s does not come from the user\'s %s option (%s)' % (o.path, adt, field, field, f.loc(s[3])),
                          sample='%s: %s taken from %s' % (o.path, field, sorted(t[1] for t in tk if t[0] == 'field' and t[2] == field and t[1] != adt)[:2]))
    return n

def default_options(ck, prog, live, allow=()):
    """Schema stores built with default options ignore the user's choice."""
    for f in live:
        for bi, c in f.calls():
            d = c.callee
            if d is not None and d.path in ('tombi_schema_store::store::SchemaStore::new', '<tombi_schema_store::store::SchemaStore as core::default::Default>::default'):
                o = prog.outer(f)
                if o.path in allow or o.path.startswith('tombi_schema_store::store::SchemaStore') or o.path.startswith('<tombi_schema_store::store::SchemaStore'): continue
                ck.ob(False, 'default-store:' + o.path, '%s builds a schema store with default options, so the offline and cache options are ignored (%s)' % (o.path, f.loc(c.line)))

COMMENT_STORE = ('tombi_comment_directive_store::schema_store',)

def check(ck):
    prog = ck.prog
    mr = ck.need(main_root(prog), 'main', 'binary entry point')
    live = shipped(prog, [mr])
    # 1. only the HTTP client of the schema store touches the network
    n = 0
    for f in live:
        for bi, c in f.calls():
            for d in {c.callee, c.decl} - {None}:
                if effects.net_primitive(d):
                    n += 1
                    o = prog.outer(f)
                    ok = o.path.split('>::')[-1] == 'get_bytes' and 'HttpClient' in o.path
                    ck.ob(ok, 'net:' + o.path, '%s uses the network directly (%s, %s)' % (o.path, d.path, f.loc(c.line)))
    ck.floor('network_primitive_sites', n, 2)
    target = lambda X, bi, c: c.decl is not None and c.decl.path == GET
    sites = guard_analysis(ck, 'offline', prog, live, target, 'reaches the network', 'reaches the HTTP client')
    ck.floor('fetching_functions', len([s for s in sites]), 5)
    ck.floor('call_sites_passing_the_option', ck.counts.get('call_sites_passing_the_option', 0), 8)
    k = options_flow(ck, prog, live, 'tombi_schema_store::options::Options', 'offline', allow=COMMENT_STORE)
    ck.floor('store_constructions', k, 3)
    k = options_flow(ck, prog, live, 'tombi_lsp::backend::Options', 'offline')
    ck.floor('server_option_constructions', k, 1)
    default_options(ck, prog, live)
    # the store without options serves embedded schemas only
    sl = Slicer(prog, follow=True)
    m = 0; emb = 0; own = {c.name for c in prog.crates}
    for f in live:
        for bi, c in f.calls():
            if c.callee is not None and c.callee.path == 'tombi_comment_directive_store::comment_directive_document_schema':
                m += 1
                tk = sl.up(f, c.args[1])
                for t in list(tk):
                    if t[0] == 'call':
                        for dd, impls in prog.impl_of.items():
                            if dd.path == t[1] and dd.crate in own:
                                for a, _ in impls:
                                    if a.fn is not None: tk |= sl.ret(a.fn)
                strs = [t[1] for t in tk if t[0] == 'str' and len(t[1]) < 120 and t[1].startswith('tombi://')]
                if any(t[0] == 'str' or t[0] == 'agg' for t in tk) and not any(t[0] == 'param' for t in tk): ck.ob(bool(strs), 'embedded:' + prog.outer(f).path, 'the comment directive store is asked for a schema that is not embedded (%s)' % f.loc(c.line))
                emb += bool(strs)
    ck.floor('embedded_schema_requests', emb, 2)
    ck.rule('network primitives only in HttpClient::get_bytes; with the offline option true no path reaches get_bytes; the option given to each store and parameter is the user\'s')
