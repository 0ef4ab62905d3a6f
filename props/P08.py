"""Document store of the language server as a typestate: path exploration of every function that creates, replaces,
versions, closes or removes a document over (document lock held, waited for something before taking it, version or
text compared under the lock, document known absent / not open, cached diagnostics stale), plus the provenance of every
derived field of a stored document and of every version attached to published or cached diagnostics."""
from props.common import *

DOC = 'tombi_lsp::document::DocumentSource'
CACHE = 'tombi_lsp::workspace_diagnostic::cache::WorkspaceDiagnosticsCache'
RESULT = 'tombi_lsp::diagnostic::DiagnosticsResult'
CR = 'tombi_lsp'
D0 = 'DOC'
VER = ('f', 'version')
GUARDS = ('RwLockWriteGuard', 'RwLockReadGuard', 'MutexGuard')

def last(d): return d.path.rsplit('::', 1)[-1] if d is not None else ''
def hasdoc(t): return DOC in t.s and 'DocumentSourceError' not in t.s
def is_docmap(t): return hasdoc(t) and 'Map<' in t.s and 'RwLock' not in t.s
def is_doclock(t): return hasdoc(t) and 'rwlock::RwLock<' in t.s
def is_optdoc(t): return t.s.replace('&', '').startswith('core::option::Option<') and hasdoc(t) and not 'Map<' in t.s
def is_doc(t): return t.s.replace('&mut ', '').replace('&', '').strip() == DOC or t.s.split(' ')[-1] == DOC or t.s.endswith(' ' + DOC)

# ---------------------------------------------------------------- taint of derived fields
def tagset(v): return frozenset(x for x in v[1][1:-1].split(',') if x) if v is not None and v[0] == 'str' and v[1].startswith('{') else frozenset()
def mk(ts): return ('str', '{' + ','.join(sorted(ts)) + '}')

class TaintX(Explorer):
    def _havoc(self, env, c, argv): pass      # the model writes through mutable references itself

class Taint(Model):
    def __init__(self, fields): self.fields = fields; self.outs = []
    def gather(self, X, env, v, out, depth=0):
        if v is None or depth > 4: return
        out |= tagset(v)
        if v[0] in ('r', 's'):
            p = v[1]
            for _, w in X.subtree(env, p):
                if w != v: self.gather(X, env, w, out, depth + 1)
            # part of a tagged whole
            for k in range(len(p[1]), -1, -1):
                w = env.get((p[0], p[1][:k]))
                if w is not None and w != v and tagset(w): out |= tagset(w); break
    def read(self, X, bi, p, owner):
        if p[1] and p[1][-1] == ('f', 'encoding_kind'): return mk({'ENC'})
        return None
    def call_alts(self, X, bi, c, env, argv, a):
        l = last(c.decl)
        if l in ('deref', 'deref_mut', 'as_ref', 'as_mut', 'by_ref') or is_ident_like(l): return None
        ts = set(); per = []
        for i, o in enumerate(c.args):
            s = set()
            if o[0] != 'const':
                v = X.eval(bi, env, o); self.gather(X, env, v, s)
                for _, w in X.optree(bi, env, o): self.gather(X, env, w, s)
            per.append(s); ts |= s
        for i, (o, t) in enumerate(zip(c.args, c.argtys)):
            if t.k == 'refmut' and argv[i] is not None and argv[i][0] == 'r' and l not in ('next',):
                p = argv[i][1]; m = set(per[i])
                for j, s in enumerate(per):
                    if j != i: m |= s
                if l in ('clear', 'truncate'): m = set()
                X.kill(env, p)
                if m: env[p] = mk(m)
        dest_t = X.F.ltys[c.dest[0]] if not c.dest[1] else None
        if dest_t is not None and dest_t.d is not None and dest_t.d.path == OPT and l == 'next':
            return [([((), ('v', OPT, 'None'))], a), ([((), ('v', OPT, 'Some')), ((('d', 'Some'), ('f', '0')), mk(ts))], a)]
        if dest_t is not None and dest_t.k == 'tuple':
            return [([((('f', str(i)),), mk(ts)) for i in range(len(dest_t.args or []) or 2)], a)]
        return [([((), mk(ts))] if ts else [], a)]
    def on_ret(self, X, bi, env, a):
        self.outs.append({f: self.value(X, env, f) for f in self.fields})
        return a
    def value(self, X, env, f):
        s = set(); base = self.base
        for suf, w in X.subtree(env, (base[0], base[1] + (('f', f),))): self.gather(X, env, w, s)
        return frozenset(s)

def is_ident_like(l): return l in ('new_unchecked', 'get_context')

def derived_fields(ck, prog):
    adt = prog.adts.get(DOC)
    if ck.need(adt, 'DocumentSource', 'struct DocumentSource') is None: return
    fields = [n for n, _, _ in adt.fields()]
    n = 0
    for f in prog.fns:
        if f.crate.name != CR or f.kind not in ('fn', 'assoc') or '::tests::' in f.path: continue
        selfmut = f.ac >= 1 and f.ltys[1].k == 'refmut' and is_doc(f.ltys[1])
        ctor = f.ltys[0].s == DOC and not any(is_doc(f.ltys[i]) for i in range(1, f.ac + 1))
        if not (selfmut or ctor): continue
        strs = [i for i in range(1, f.ac + 1) if 'str' in f.ltys[i].s.lower() or f.ltys[i].k == 'param' or f.ltys[i].s.startswith('impl ')]
        strs = [i for i in strs if 'TomlVersion' not in f.ltys[i].s]
        if not strs: continue
        F = Flat(prog, f, lambda g, fr, c: g.crate.name == CR, rec_limit=0)
        m = Taint(fields); X = TaintX(F, m, cap=64)
        env = {}
        for i in range(1, f.ac + 1):
            nm = f.lnames[i] or str(i)
            if i == 1 and selfmut: continue
            tag = 'TEXT' if i in strs else 'TV' if 'TomlVersion' in f.ltys[i].s else 'VERSION' if 'i32' in f.ltys[i].s else nm
            env[(i, ())] = mk({tag})
        if selfmut:
            X.live; X.borrowed.add(1); m.base = (('S', (1, ())), ())
            for x in fields: env[(('S', (1, ())), (('f', x),))] = mk({'OLD_' + x})
        else: m.base = (0, ())
        X.run(env)
        ck.count('states', X.states)
        if X.overflow: ck.ob(False, 'overflow:' + f.path, 'state space not exhausted'); continue
        if selfmut and all('TEXT' not in o['text'] for o in m.outs): continue   # does not set the text
        n += 1
        union = {x: frozenset().union(*[o[x] for o in m.outs]) for x in fields} if m.outs else {}
        loc = f.loc(f.lo) if hasattr(f, 'lo') else f.path
        for x in fields:
            u = union.get(x, frozenset())
            if x == 'version':
                if not selfmut: ck.ob('VERSION' in u and all('VERSION' in o[x] for o in m.outs), 'field:%s:%s' % (f.path, x), '%s: the document does not get the version of the notification' % f.path)
                continue
            old = sorted({t for o in m.outs for t in o[x] if t.startswith('OLD_')})
            ck.ob(not old, 'stale:%s:%s' % (f.path, x), '%s: after the text is replaced, field %s is still computed from the previous %s' % (f.path, x, ', '.join(t[4:] for t in old)), sample='%s: %s <- %s' % (f.path, x, ','.join(sorted(u))))
            if x == 'toml_version': ck.ob(all('TV' in o[x] for o in m.outs), 'field:%s:%s' % (f.path, x), '%s: the TOML version given is not the one stored' % f.path)
            else: ck.ob('TEXT' in u, 'field:%s:%s' % (f.path, x), '%s: field %s does not come from the new text' % (f.path, x))
            if x.startswith('document_tree') and 'TEXT' in u: ck.ob('TV' in u, 'tv:%s:%s' % (f.path, x), '%s: field %s is not built for the TOML version given' % (f.path, x))
    ck.floor('functions_setting_a_document_text', n, 2)

# ---------------------------------------------------------------- typestate of the store
class St(tuple):
    F = ('held', 'waited', 'late', 'ver', 'absent', 'dirty', 'seq', 'full', 'stored', 'vstored', 'idx')
    @classmethod
    def make(cls, **k): return cls(k.get(x, '') for x in cls.F)
    def get(self, x): return self[self.F.index(x)]
    def up(self, **k):
        l = list(self)
        for x, v in k.items(): l[self.F.index(x)] = v
        return St(l)

def opt_payload(): return (('d', 'Some'), ('f', '0'))

class Store(Model):
    init = St.make()
    wants_stmts = True
    def __init__(self): self.events = []; self.sites = {}
    # document operations -------------------------------------------------
    def call_alts(self, X, bi, c, env, argv, a):
        d = c.decl; l = last(d); tys = c.argtys
        if d is None: return None
        if tys and is_doclock(tys[0]) and l in ('write', 'try_write', 'read', 'try_read', 'blocking_write'):
            X.kill(env, (D0, ()))
            w = 'w' if 'write' in l else 'r'
            n = a.up(held=w, late='late' if a.get('waited') else '', ver='', absent='')
            dt = X.F.ltys[c.dest[0]] if not c.dest[1] else None
            if dt is not None and dt.d is not None and dt.d.path == RES:
                return [([((), ('v', RES, 'Ok'))], n), ([((), ('v', RES, 'Err'))], a)]
            return [([], n)]
        if tys and is_docmap(tys[0]) and l in ('get_mut', 'get'):
            return [([((), ('v', OPT, 'Some')), (opt_payload(), ('r', (D0, ())))], a.up(absent='')), ([((), ('v', OPT, 'None'))], a.up(absent='absent'))]
        if tys and is_docmap(tys[0]) and l == 'contains_key':
            return [([((), T)], a.up(absent='')), ([((), F_)], a.up(absent='absent'))]
        if l in ('eq', 'ne') and len(c.args) == 2:
            k = self.compared(X, bi, env, argv, tys)
            if k:
                return [([((), cbool(l == 'eq'))], a.up(ver=k)), ([((), cbool(l != 'eq'))], a)]
        if l == 'text' and tys and is_doc(tys[0]) and argv[0] is not None and argv[0][0] == 'r' and argv[0][1][0] == D0:
            return [([((), ('str', '<doctext>'))], a)]
        if l == 'next' and tys and 'TextDocumentContentChangeEvent' in tys[0].s:
            if any(x in tys[0].s for x in ('Filter', 'Map', 'Skip', 'Take', 'Chain', 'Peekable', 'Enumerate', 'StepBy')): return None
            rev = 'Rev<' in tys[0].s
            # the changes of the notification: chosen when the first one is asked for
            plans = [a.get('seq')] if a.get('idx') else ['', 'F', 'R', 'FF', 'FR', 'RF', 'RR']
            out = []
            for pl in plans:
                i = int(a.get('idx') or 0)
                n = a.up(seq=pl, full='change%d' % pl.rindex('F') if 'F' in pl else '', idx=str(min(i + 1, len(pl) + 1)))
                if i >= len(pl): out.append(([((), ('v', OPT, 'None'))], n)); continue
                k = len(pl) - 1 - i if rev else i
                out.append(([((), ('v', OPT, 'Some')), (opt_payload() + (('f', 'range'),), ('v', OPT, 'None' if pl[k] == 'F' else 'Some')), (opt_payload() + (('f', 'text'),), ('str', 'change%d' % k))], n))
            return out
        return None
    def compared(self, X, bi, env, argv, tys):
        """Kind of a comparison of the document's version / text."""
        ps = []
        for v in argv:
            p = v[1] if v is not None and v[0] == 'r' else None
            for _ in range(3):
                w = env.get(p) if p is not None else None
                if w is not None and w[0] == 'r': p = w[1]
                elif w is not None and w[0] == 's': p = w[1]
                else: break
            ps.append(p)
        def isver(p): return p is not None and p[0] == D0 and VER in p[1]
        def istext(p, v): return (p is not None and env.get(p) == ('str', '<doctext>')) or v == ('str', '<doctext>')
        for i in (0, 1):
            if isver(ps[i]) and not isver(ps[1 - i]):
                q = ps[1 - i]
                if q is None: return None
                names = repr([q] + [w for _, w in X.subtree(env, q)])
                if 'version' in names or any(w[0] == 'c' for _, w in X.subtree(env, q)) is False: return 'eq'
        if any(istext(p, v) for p, v in zip(ps, argv)): return 'eqtext'
        return None
    def safe(self, X, env, a):
        """Why storing here cannot overwrite something newer, or None."""
        if a.get('held') == 'w' and not a.get('late'): return 'in order of arrival'
        if a.get('held') == 'w' and a.get('ver'): return 'compared'
        if a.get('held') == 'w' and a.get('absent'): return 'absent'
        v = X.variant_at(env, (D0, (VER,)))
        if a.get('held') == 'w' and v is not None and v[0] == 'v' and v[2] == 'None': return 'not open'
        return None
    def site(self, X, bi, line, what): self.sites.setdefault((what, X.F.loc(bi, line)), set())
    def store(self, X, bi, line, env, a, what):
        self.site(X, bi, line, what)
        why = self.safe(X, env, a)
        if why is None: return '!%s the document after waiting, without checking under the same lock that it is still the version it was (an edit that arrived meanwhile is overwritten)' % what
        self.sites[(what, X.F.loc(bi, line))].add(why)
        return a
    def on_call(self, X, bi, c, env, argv, a):
        d = c.decl; l = last(d); tys = c.argtys
        if d is None: return a
        if d.path == POLL:
            return a if guard_poll(c) else a.up(waited='waited')
        if tys and tys[0].k == 'refmut' and is_doc(tys[0]) and l not in self.pure:
            r = self.store(X, bi, c.line, env, a, 'replaces the text of')
            if isinstance(r, str): return r
            if l in self.setters:
                tx = self.textval(X, bi, c, env, argv)
                if a.get('ver') == 'eqtext': return r
                return r.up(dirty='dirty', stored=tx or '?')
            return r
        if tys and is_docmap(tys[0]) and tys[0].k == 'refmut':
            if l in ('insert', 'try_insert', 'or_insert', 'or_insert_with', 'entry'):
                r = self.store(X, bi, c.line, env, a, 'inserts')
                if isinstance(r, str): return r
                return r.up(dirty='dirty', stored='new')
            if l in ('remove', 'clear', 'drain', 'retain', 'remove_entry'):
                self.site(X, bi, c.line, 'removes')
                v = X.variant_at(env, (D0, (VER,)))
                ok = a.get('absent') or (v is not None and v[0] == 'v' and v[2] == 'None')
                if not ok: return '!removes a document that may be open in the editor (later edits of it are dropped)'
                self.sites[('removes', X.F.loc(bi, c.line))].add('not open')
                return a.up(dirty='dirty')
        if tys and CACHE in tys[0].s and tys[0].k == 'refmut' and 'Lock' not in tys[0].s:
            if d.path.startswith(CACHE):
                if l in self.clearers: return a.up(dirty='')
        return a
    def textval(self, X, bi, c, env, argv):
        """Symbol of the text handed to a setter."""
        if len(c.args) < 2: return None
        v = X.eval(bi, env, c.args[1])
        for _ in range(4):
            if v is None: return None
            if v[0] == 'str': return v[1]
            if v[0] in ('r', 's'): v = env.get(v[1])
            else: return None
        return None
    def on_stmt(self, X, bi, s, env, a):
        if s[0] == '=' and s[1][1]:
            p = X.resolve(env, s[1])
            if p[1] and p[1][0] == VER and p[0] == D0:
                isnone = s[2][0] == 'agg' and s[2][3] == 'None'
                self.site(X, bi, s[3], 'sets the version of')
                if isnone: return self.store(X, bi, s[3], env, a, 'sets the version of')
                r = self.store(X, bi, s[3], env, a, 'sets the version of')
                return r if isinstance(r, str) else r.up(vstored='1')
        return a

def lock_only(g):
    """A coroutine that waits for nothing but locks."""
    if g.kind != 'coroutine': return False
    for bi, c in g.calls():
        if c.decl is not None and c.decl.path == POLL and not guard_poll(c): return False
    return True

def guard_poll(c):
    t = c.argtys[0].s
    o = t.split('Output = ', 1)[1] if 'Output = ' in t else t
    return o.startswith('tokio::sync') or any(o.split('<')[0].endswith(g) for g in GUARDS)

def store_functions(prog):
    """Coroutines and functions of the language server that change documents, outermost."""
    def pred(d): return False
    writers = set()
    for f in prog.fns:
        if f.crate.name != CR or '::tests::' in f.path or f.path.startswith(DOC): continue
        for bi, c in f.calls():
            if c.decl is None or not c.argtys: continue
            t = c.argtys[0]; l = last(c.decl)
            if t.k == 'refmut' and (is_doc(t) or is_docmap(t)) and l not in ('get_mut', 'deref_mut', 'iter_mut', 'values_mut', 'as_mut', 'deref'): writers.add(f)
        for b in f.blocks:
            for s in b.stmts:
                if s[0] == '=' and s[1][1] and s[1][1][-1] != '*' and s[1][1][-1][0] == 'f' and s[1][1][-1][1] == 'version' and base_adt(f, s[1], len(s[1][1]) - 1) == DOC: writers.add(f)
    return writers

def store_rules(ck, prog):
    ws = store_functions(prog)
    outer = {prog.outer(f) for f in ws}
    # setters and effect-free methods of the document
    pure = {f.path.rsplit('::', 1)[-1] for f in prog.fns if f.path.startswith(DOC + '::') and f.kind == 'assoc' and not (f.ac >= 1 and f.ltys[1].k == 'refmut')} | {'get_mut', 'deref_mut', 'as_mut'}
    setters = {f.path.rsplit('::', 1)[-1] for f in prog.fns if f.path.startswith(DOC + '::') and f.kind == 'assoc' and f.ac >= 2 and f.ltys[1].k == 'refmut'}
    # cache operations that drop the entry of the document: nothing but None may remain
    clearers = {f.path.rsplit('::', 1)[-1] for f in prog.fns if f.path.startswith(CACHE + '::') and f.kind == 'assoc' and drops_entry(prog, f)}
    ck.count('cache_operations_that_drop_an_entry', len(clearers))
    # roots: callers inside the crate up to the notification handlers
    roots = set()
    for f in outer:
        callers = {prog.outer(g) for g, _, _ in prog.callers().get(f.d, []) if g.crate.name == CR and '::tests::' not in g.path}
        callers = {g for g in callers if g is not f}
        if callers and not f.path.startswith(CR + '::handler::'): roots |= callers
        roots.add(f)
    # a helper that works under the lock of its caller is looked at through its callers
    for _ in range(6):
        for f in list(roots):
            if f.is_async or any(c.decl is not None and c.argtys and is_doclock(c.argtys[0]) for g in prog.fns if prog.outer(g) is f for _, c in g.calls()): continue
            callers = {prog.outer(g) for g, _, _ in prog.callers().get(f.d, []) if g.crate.name == CR and '::tests::' not in g.path} - {f}
            if callers: roots.discard(f); roots |= callers; outer.add(f)
    n = 0
    for f in sorted(roots, key=lambda f: f.path):
        def pol(g, fr, c):
            if g.crate.name != CR: return False
            if g.path.startswith(DOC) or g.path.startswith(CACHE): return False
            o = prog.outer(g)
            if o in outer or g.kind in ('closure', 'coroutine') and o is f: return True
            return len(g.blocks) <= 40 or lock_only(g)
        F = Flat(prog, f, pol, rec_limit=0)
        m = Store(); m.pure = pure; m.setters = setters; m.clearers = clearers
        handler = f.path.split('::')[-1]
        needs_clear = f in [prog.outer(x) for x in roots] and f.path.startswith(CR + '::handler::')
        m.needs_clear = needs_clear; m.change = any(t.mentions('tower_lsp::lsp_types::DidChangeTextDocumentParams') or 'DidChangeTextDocumentParams' in t.s for t in f.ltys[1:f.ac + 1]) and f.is_async
        def on_ret(X, bi, env, a, m=m, f=f):
            if m.needs_clear and a.get('dirty') and not ('formatting' in f.path): return '!returns with the cached diagnostics of the previous text still stored'
            return a
        m.on_ret = on_ret
        X = Explorer(F, m, cap=96, max_states=600000); X.run({})
        ck.count('states', X.states); n += 1
        if X.overflow: ck.ob(False, 'overflow:' + f.path, 'state space not exhausted'); continue
        seen = set()
        for st, msg, bi, line in X.bad:
            k = (msg.split(' the ')[0], F.loc(bi, line).rsplit(':', 1)[0])
            if k in seen: continue
            seen.add(k)
            ck.ob(False, 'store:%s:%s' % (f.path, msg.split(' ')[0]), '%s %s (%s); path: %s' % (f.path, msg, F.loc(bi, line), ' ; '.join(X.witness(st, 8))))
        for (what, loc), why in sorted(m.sites.items()):
            if why: ck.ob(True, '', '', sample='%s %s: %s' % (loc, what, ', '.join(sorted(why)))); ck.count('store_sites')
        if m.change:
            for (a, rv), st in X.final.items():
                full = a.get('full')
                if a.get('stored') == '?': ck.notes.append('text stored by didChange not followed to a change event'); continue
                if full and a.get('stored') and a.get('stored') != full:
                    ck.ob(False, 'last-change', '%s stores %s of the content changes %s, not the last full one; path: %s' % (f.path, a.get('stored'), a.get('seq'), ' ; '.join(X.witness(st, 8))))
                elif full and a.get('stored'): ck.ob(True, '', '', sample='didChange %s: last full change stored' % a.get('seq'))
                if a.get('stored') and not a.get('vstored'):
                    ck.ob(False, 'version-not-stored', '%s stores a new text without its version; path: %s' % (f.path, ' ; '.join(X.witness(st, 8))))
                if a.get('vstored') and full and not a.get('stored'):
                    ck.ob(False, 'text-not-stored', '%s sets the version without storing the text of the change %s; path: %s' % (f.path, a.get('seq'), ' ; '.join(X.witness(st, 8))))
            # an edit of a known document is always applied
            lost = [(a, st) for (a, rv), st in X.final.items() if a.get('full') and not a.get('stored') and not a.get('absent') and a.get('held') != '' ]
            ck.ob(not lost, 'edit-dropped', '%s can return without applying an edit' % f.path)
            ck.ob(any(a.get('stored') and a.get('vstored') for (a, _), _ in X.final.items()), 'never-stored', '%s never stores an edit' % f.path)
    ck.floor('functions_changing_documents', n, 6)

def drops_entry(prog, f):
    """Every path of this cache method ends with the entry removed or emptied."""
    F = Flat(prog, f, lambda g, fr, c: False)
    class M(Model):
        init = 0
        def on_call(self, X, bi, c, env, argv, a):
            l = last(c.decl); t = c.argtys[0].s if c.argtys else ''
            if 'Map<' in t and RESULT in t:
                if l in ('remove', 'clear'): return 1
                if l == 'insert':
                    tr = dict(X.optree(bi, env, c.args[2])); v = tr.get(())
                    return 1 if v is not None and v[0] == 'v' and v[2] == 'None' else 0
            return a
    m = M(); X = Explorer(F, m, cap=64); X.run({})
    return not X.overflow and bool(X.final) and all(a == 1 for (a, _), _ in X.final.items())

# ---------------------------------------------------------------- diagnostics
class Diag(Model):
    """One diagnostics computation: snapshot numbers of text, version and TOML version."""
    init = (0, '', '')      # (snapshot, verified, cached)
    wants_stmts = True
    def __init__(self): self.linted = set(); self.built = []; self.sets = 0; self.rets = set()
    def read(self, X, bi, p, owner):
        pr = p[1]
        if isinstance(p[0], str) and p[0].startswith('DOC') and pr == (VER,): return ('str', 'VER' + p[0][3:])
        if isinstance(p[0], str) and p[0].startswith('DOC') and pr == (('f', 'toml_version'),): return ('str', 'TV' + p[0][3:])
        if p[0] == 'CACHED' and pr == (VER,): return ('str', 'VERC')
        return None
    def sym(self, X, bi, env, v, depth=0):
        while v is not None and depth < 5:
            if v[0] == 'str': return v[1]
            if v[0] in ('r', 's'):
                w = self.read(X, bi, v[1], None) or env.get(v[1])
                if w is None or w == v: return None
                v = w
            else: return None
            depth += 1
        return None
    def docnum(self, X, env, v):
        """Which snapshot of the document (or of a copy of it) this refers to."""
        for _ in range(3):
            if v is None or v[0] not in ('r', 's'): return None
            if str(v[1][0]).startswith('DOC'): return str(v[1][0])[3:]
            w = env.get((v[1][0], v[1][1] + (VER,)))
            if w is not None and w[0] == 'str' and w[1].startswith('VER'): return w[1][3:]
            v = env.get(v[1])
        return None
    def call_alts(self, X, bi, c, env, argv, a):
        d = c.decl; l = last(d); tys = c.argtys
        if d is None: return None
        n, ver, cached = a
        if tys and is_doclock(tys[0]) and l in ('read', 'try_read', 'write', 'try_write'):
            dt = X.F.ltys[c.dest[0]] if not c.dest[1] else None
            na = (min(n + 1, 4), '' if ver != 'cacheok' else ver, cached)
            if dt is not None and dt.d is not None and dt.d.path == RES: return [([((), ('v', RES, 'Ok'))], na), ([((), ('v', RES, 'Err'))], a)]
            return [([], na)]
        if tys and is_docmap(tys[0]) and l in ('get', 'get_mut'):
            return [([((), ('v', OPT, 'Some')), (opt_payload(), ('r', ('DOC%d' % n, ())))], a), ([((), ('v', OPT, 'None'))], a)]
        if d.path.startswith(CACHE + '::') and l == 'get':
            return [([((), ('v', OPT, 'Some')), (opt_payload(), ('r', ('CACHED', ())))], a), ([((), ('v', OPT, 'None'))], a)]
        if l in ('cloned', 'copied') and tys and RESULT in tys[0].s:
            out = []
            p = X.resolve(env, c.args[0][1]) if c.args[0][0] != 'const' else None
            v = X.variant_at(env, p) if p is not None else None
            if v is not None and v[0] == 'v' and v[2] == 'Some': return [([((), ('v', OPT, 'Some')), (opt_payload(), ('str', 'CACHEDRESULT')), (opt_payload() + (VER,), ('str', 'VERC'))], a)]
            if v is not None and v[0] == 'v': return [([((), ('v', OPT, 'None'))], a)]
        if l == 'clone' and tys and RESULT in tys[0].s and len(c.args) == 1: return None
        k = self.docnum(X, env, argv[0]) if tys and is_doc(tys[0]) and argv else None
        copy = lambda pre, k: [(pre + (VER,), ('str', 'VER' + k)), (pre + (('f', 'toml_version'),), ('str', 'TV' + k))]
        if l in ('cloned', 'clone') and tys and hasdoc(tys[0]) and is_optdoc(tys[0]):
            p = X.resolve(env, c.args[0][1]) if c.args[0][0] != 'const' else None
            v = X.variant_at(env, p) if p is not None else None
            if v is not None and v[0] == 'v':
                if v[2] == 'None': return [([((), ('v', OPT, 'None'))], a)]
                k = self.docnum(X, env, env.get((p[0], p[1] + opt_payload())))
                if k is not None: return [([((), ('v', OPT, 'Some'))] + copy(opt_payload(), k), a)]
        if k is not None:
            if l == 'clone': return [(copy((), k), a)]
            if l in ('text_arc', 'text'): return [([((), ('str', 'TEXT' + k))], a)]
            if l in ('line_index', 'line_index_arc'): return [([((), ('str', 'LI' + k))], a)]
        if l in ('as_ref', 'deref', 'borrow', 'as_str') and len(argv) == 1:
            s = self.sym(X, bi, env, argv[0])
            if s and s.startswith('TEXT'): return [([((), ('str', s))], a)]
        if l in ('eq', 'ne') and len(argv) == 2:
            ss = [self.sym(X, bi, env, v) for v in argv]
            for i in (0, 1):
                if argv[i] is not None and argv[i][0] == 'r' and ss[i] is None: ss[i] = self.sym(X, bi, env, ('s', argv[i][1]))
            for i in (0, 1):
                if ss[i] is None and argv[i] is not None and argv[i][0] == 'r':
                    w = X.variant_at(env, argv[i][1])
                    if w is not None and w[0] == 'v' and w[2] == 'None': ss[i] = 'VERnone'
            if all(ss) and ss[0] != ss[1] and {s[:3] for s in ss} == {'VER'}:
                t = 'cacheok' if 'VERC' in ss else 'cur:' + '/'.join(sorted(ss))
                return [([((), cbool(l == 'eq'))], (n, t, cached)), ([((), cbool(l != 'eq'))], a)]
        return None
    def on_call(self, X, bi, c, env, argv, a):
        d = c.decl; l = last(d)
        if d is None: return a
        if d.path == LINT_API or d.path.startswith('tombi_linter::linter::Linter') and l == 'lint':
            for v in argv:
                s = self.sym(X, bi, env, v)
                if s and s.startswith('TEXT'): self.linted.add(s[4:]); return (a[0], a[1], a[2] + 'L' + s[4:]) if 'L' not in a[2] else a
            self.linted.add('?'); return (a[0], a[1], 'L?')
        if d.path.startswith(CACHE + '::') and l == 'set':
            self.sets += 1
            if not a[1].startswith('cur:'): return '!stores a result in the cache without checking, under the document lock, that the document is still at the version linted'
        return a
    def on_stmt(self, X, bi, s, env, a):
        if s[0] == '=' and s[2][0] == 'agg' and s[2][2] is not None and s[2][2].path == RESULT:
            for nm, o in zip(s[2][4], s[2][5]):
                if str(nm) == 'version':
                    v = self.sym(X, bi, env, X.eval(bi, env, o))
                    self.built.append((v, X.F.loc(bi, s[3])))
                    want = a[2][1:] if a[2].startswith('L') else None
                    if v is None or want == '?': X.unknown = True
                    elif want is None or v != 'VER' + want: return '!labels diagnostics with version %s while the text linted is snapshot %s' % (v, want)
        return a
    def on_ret(self, X, bi, env, a):
        for l in X.F.ret_locals:
            v = env.get((l, ()))
            if v is not None and v[0] == 'v' and v[2] == 'Some':
                w = env.get((l, opt_payload()))
                wv = env.get((l, opt_payload() + (VER,)))
                if (w == ('str', 'CACHEDRESULT') or wv == ('str', 'VERC')) and a[1] != 'cacheok': return '!returns the cached diagnostics without checking that they are for the version the document has'
        return a

def diagnostics_rules(ck, prog):
    roots = set()
    for f in prog.fns:
        if f.crate.name != CR or '::tests::' in f.path: continue
        for b in f.blocks:
            for s in b.stmts:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][2] is not None and s[2][2].path == RESULT and not f.path.startswith('<'): roots.add(prog.outer(f))
        for bi, c in f.calls():
            if c.decl is not None and c.decl.path.startswith(CACHE + '::') and last(c.decl) in ('get', 'set'): roots.add(prog.outer(f))
    ck.need(roots, 'diagnostics', 'a function computing DiagnosticsResult')
    # innermost helpers are looked at through their callers
    tops = set()
    for f in roots:
        cs = {prog.outer(g) for g, _, _ in prog.callers().get(f.d, [])} & roots - {f}
        if not cs: tops.add(f)
    for f in sorted(tops, key=lambda f: f.path):
        def pol(g, fr, c):
            if g.crate.name != CR or g.path.startswith(DOC) or g.path.startswith(CACHE): return False
            return g.kind in ('closure', 'coroutine') or len(g.blocks) <= 60 or prog.outer(g) in roots
        F = Flat(prog, f, pol, rec_limit=0)
        m = Diag(); X = Explorer(F, m, cap=128, max_states=600000); X.unknown = False; X.run({})
        ck.count('states', X.states)
        if X.overflow: ck.ob(False, 'overflow:' + f.path, 'state space not exhausted'); continue
        for st, msg, bi, line in X.bad[:1]:
            ck.ob(False, 'diag:%s:%s' % (f.path, msg.split(' ')[0]), '%s %s (%s); path: %s' % (f.path, msg, F.loc(bi, line), ' ; '.join(X.witness(st, 8))))
        if not X.bad: ck.ob(True, '', '', sample='%s: version, text and cache entry agree on every path (linted snapshots %s, results %s, cache stores %d)' % (f.path, sorted(m.linted), sorted({b[0] for b in m.built}, key=str), m.sets))
        if m.built and not any(v for v, _ in m.built): ck.notes.append('%s: version of the result not followed' % f.path)
        ck.floor('results_built_in_%s' % f.path.split('::')[-1], len({l for _, l in m.built}), 1)
        if '?' in m.linted: ck.notes.append('%s: text linted not followed' % f.path)

def publish_rules(ck, prog):
    sl = Slicer(prog, follow=True, max_depth=4)
    n = 0; here = Slicer(prog, follow=False)
    for f in prog.fns:
        if f.crate.name != CR or '::tests::' in f.path: continue
        for bi, c in f.calls():
            if c.decl is None or not c.decl.path.endswith('Client::publish_diagnostics'): continue
            n += 1
            dt = sl.operand(f, c.args[2]); vt = sl.operand(f, c.args[3])
            res_d = any(t[0] == 'field' and t[1] == RESULT and t[2] == 'diagnostics' for t in dt)
            res_v = any(t[0] == 'field' and t[1] == RESULT and t[2] == 'version' for t in vt)
            some_v = any(t[0] == 'agg' and t[1] == OPT and t[2] == 'Some' for t in vt) or any(t[0] == 'field' and t[2] == 'version' for t in vt)
            ck.ob(not res_d or res_v, 'publish-version:%s' % prog.outer(f).path, '%s publishes a diagnostics result without the version it was computed for (%s)' % (prog.outer(f).path, f.loc(c.line)), sample='%s: version of the result' % f.loc(c.line))
            lossy = [t[1] for t in here.operand(f, c.args[3]) if t[0] == 'call' and t[1].startswith('core::option::Option::<T>::') and t[1].rsplit('::', 1)[-1] in ('and', 'xor', 'filter', 'take', 'zip', 'or', 'unwrap_or', 'get_or_insert', 'replace')]
            ck.ob(not (res_v and lossy), 'publish-other-version:%s' % prog.outer(f).path, '%s publishes a diagnostics result with a version changed by %s (%s)' % (prog.outer(f).path, ', '.join(x.rsplit('::', 1)[-1] for x in lossy), f.loc(c.line)))
            ck.ob(not res_v or res_d, 'publish-list:%s' % prog.outer(f).path, '%s publishes the version of a result with other diagnostics (%s)' % (prog.outer(f).path, f.loc(c.line)))
    ck.floor('publish_sites', n, 4)
    # requests that return diagnostics return those of the shared computation
    for p in ('handle_diagnostic', 'handle_workspace_diagnostic'):
        fs = [f for f in prog.fns if f.crate.name == CR and f.path.endswith('::%s::{closure#0}' % p)]
        if ck.need(fs, p, 'handler ' + p) is None or not fs: continue

MANAGER = 'tombi_lsp::config_manager::ConfigManager::'
def settings_rule(ck, prog):
    """A handler that changes the configuration or the schemas drops the cached diagnostics before it returns."""
    muts = {f.path for f in prog.fns if f.path.startswith(MANAGER) and f.kind == 'assoc' and f.path.rsplit('::', 1)[-1] in ('update_config_with_path', 'update_schema', 'associate_schema', 'update_editor_config', 'refresh_cache')}
    ck.floor('configuration_changing_operations', len(muts), 5)
    roots = set()
    for f in prog.fns:
        if f.crate.name != CR or '::tests::' in f.path or f.path.startswith(MANAGER): continue
        for bi, c in f.calls():
            if c.decl is not None and c.decl.path in muts: roots.add(prog.outer(f))
    clearers = {f.path for f in prog.fns if f.path.startswith(CACHE + '::') and f.kind == 'assoc' and empties(prog, f)}
    ck.count('cache_operations_that_empty_it', len(clearers))
    n = 0
    for f in sorted(roots, key=lambda f: f.path):
        class M(Model):
            init = 0
            def call_alts(self, X, bi, c, env, argv, a):
                d = c.decl
                if d is None or d.path != POLL: return None
                o = X.pending(bi, c)
                if o not in muts: return None
                t = poll_output(X.F, c)
                r = [((), ('v', POLLT, 'Ready'))]
                if is_result(t):
                    ok = r + [(READY, ('v', RES, 'Ok'))]
                    out = [(r + [(READY, ('v', RES, 'Err'))], a)]
                    if t.args and t.args[0].k == 'bool':
                        out += [(ok + [(READY + (('d', 'Ok'), ('f', '0')), T)], o), (ok + [(READY + (('d', 'Ok'), ('f', '0')), F_)], a)]
                    else: out.append((ok, o))
                    return out
                return [(r, o)]
            def on_call(self, X, bi, c, env, argv, a):
                if c.decl is not None and c.decl.path in clearers: return 0
                return a
            def on_ret(self, X, bi, env, a):
                return '!returns after %s with the cached diagnostics of the previous settings still stored' % a.rsplit('::', 1)[-1] if a else a
        F = Flat(prog, f, lambda g, fr, c: g.crate.name == CR and not g.path.startswith(MANAGER) and not g.path.startswith(CACHE) and len(g.blocks) <= 80, rec_limit=0)
        # which operation a poll drives: the future it polls was returned by that call
        org = FutureOrigin(F)
        pending = lambda bi, c: next((p for p in org.of(c.args[0]) if p in muts), None)
        X = Explorer(F, M(), cap=64); X.pending = pending; X.run({})
        ck.count('states', X.states); n += 1
        if X.overflow: ck.ob(False, 'overflow:' + f.path, 'state space not exhausted'); continue
        if X.bad:
            st, msg, bi, line = X.bad[0]
            ck.ob(False, 'settings:' + f.path, '%s %s; path: %s' % (f.path, msg, ' ; '.join(X.witness(st, 8))))
        else: ck.ob(True, '', '', sample='%s: cached diagnostics dropped after every change of settings' % f.path)
    ck.floor('handlers_changing_settings', n, 5)

def empties(prog, f):
    F = Flat(prog, f, lambda g, fr, c: False)
    class M(Model):
        init = 0
        def on_call(self, X, bi, c, env, argv, a):
            t = c.argtys[0].s if c.argtys else ''
            return 1 if 'Map<' in t and RESULT in t and last(c.decl) in ('clear', 'drain') else a
    X = Explorer(F, M(), cap=64); X.run({})
    return not X.overflow and bool(X.final) and all(a == 1 for (a, _), _ in X.final.items())

def ctor_versions(ck, prog):
    """The version a new document gets: that of the notification that carried the text, none for text read from disk."""
    sl = Slicer(prog, follow=True, max_depth=4); n = 0
    for f in prog.fns:
        if f.crate.name != CR or '::tests::' in f.path or f.path.startswith(DOC): continue
        for bi, c in f.calls():
            if c.callee is None or c.callee.path != DOC + '::new' or len(c.args) < 2: continue
            n += 1
            tx = sl.operand(f, c.args[0]); vt = sl.operand(f, c.args[1])
            note = {t[1] for t in tx if t[0] == 'field' and t[2] == 'text'}
            disk = any(t[0] == 'call' and ('read_to_string' in t[1] or 'tombi_fs' in t[1]) for t in tx)
            hasv = any(t[0] == 'field' and t[2] == 'version' and t[1] in note for t in vt)
            if note: ck.ob(hasv and not any(t[0] == 'op' for t in vt), 'ctor-version:' + prog.outer(f).path, '%s stores the text of a notification with a version that is not that of the notification (%s)' % (prog.outer(f).path, f.loc(c.line)), sample='%s: version of the notification' % f.loc(c.line))
            elif disk: ck.ob(not any(t[0] == 'agg' and t[2] == 'Some' for t in vt), 'ctor-version:' + prog.outer(f).path, '%s marks a text read from disk as open in the editor (%s)' % (prog.outer(f).path, f.loc(c.line)), sample='%s: no version for text read from disk' % f.loc(c.line))
            else: ck.notes.append('%s: origin of the text not recognised' % f.loc(c.line))
        for b in f.blocks:
            for s in b.stmts:
                if s[0] == '=' and s[1][1] and s[1][1][-1] != '*' and s[1][1][-1][0] == 'f' and s[1][1][-1][1] == 'version' and base_adt(f, s[1], len(s[1][1]) - 1) == DOC:
                    vt = set()
                    r = s[2]
                    if r[0] == 'use': vt = sl.up(f, r[1])
                    elif r[0] == 'agg':
                        if r[3] == 'None': continue
                        for o in r[5]: vt |= sl.up(f, o)
                    n += 1
                    if any(t[0] == 'agg' and t[2] == 'None' for t in vt): continue
                    ck.ob(any(t[0] == 'field' and t[2] == 'version' and t[1] != DOC for t in vt) and not any(t[0] == 'op' for t in vt), 'version:' + prog.outer(f).path, '%s sets the version of a document to something other than the version of the notification (%s)' % (prog.outer(f).path, f.loc(s[3])), sample='%s: version of the notification' % f.loc(s[3]))
    ck.floor('versions_stored', n, 3)

def close_rule(ck, prog):
    """didClose marks the document as no longer open."""
    fs = [f for f in prog.fns if f.crate.name == CR and f.path.endswith('did_close::handle_did_close')]
    if not ck.need(fs, 'did_close', 'handle_did_close'): return
    f = fs[0]
    class M(Store):
        def on_stmt(self, X, bi, s, env, a):
            if s[0] == '=' and s[1][1]:
                p = X.resolve(env, s[1])
                if p == (D0, (VER,)):
                    k = s[2]
                    v = None
                    if k[0] == 'agg': v = k[3]
                    elif k[0] == 'use': 
                        w = X.eval(bi, env, k[1]); v = w[2] if w is not None and w[0] == 'v' else None
                        if w is not None and w[0] == 's':
                            w = X.variant_at(env, w[1]); v = w[2] if w is not None and w[0] == 'v' else None
                    return a.up(vstored='None' if v == 'None' else 'other')
            return a
        def on_call(self, X, bi, c, env, argv, a):
            l = last(c.decl)
            if c.argtys and is_docmap(c.argtys[0]) and l == 'remove': return a.up(vstored='None')
            if l == 'take' and argv and argv[0] is not None and argv[0][0] == 'r' and argv[0][1] == (D0, (VER,)): return a.up(vstored='None')
            if c.decl is not None and c.decl.path.startswith(CACHE + '::') and l in ('close', 'clear', 'clear_all', 'untrack', 'reset'): return a.up(dirty='closed')
            return a
    m = M(); m.pure = m.setters = m.clearers = set()
    F = Flat(prog, f, lambda g, fr, c: g.crate.name == CR and not g.path.startswith(DOC) and not g.path.startswith(CACHE) and len(g.blocks) <= 60, rec_limit=0)
    X = Explorer(F, m, cap=64); X.run({})
    ck.count('states', X.states)
    bad = [st for (a, _), st in X.final.items() if a.get('vstored') != 'None' and not a.get('absent')]
    # `absent` is only valid for the lookup of the path
    ck.ob(not bad and X.final, 'close', '%s can return with the document still marked open; path: %s' % (f.path, ' ; '.join(X.witness(bad[0], 8)) if bad else ''), sample='didClose: version cleared on every path that finds the document')
    bad = [st for (a, _), st in X.final.items() if a.get('dirty') != 'closed']
    ck.ob(not bad and X.final, 'close-cache', '%s can return with the cached diagnostics of the open document; path: %s' % (f.path, ' ; '.join(X.witness(bad[0], 8)) if bad else ''))

def check(ck):
    prog = ck.prog
    ck.rule('a stored document is coherent: line index, syntax tree, document tree and their errors come from the text and TOML version stored with them')
    ck.rule('a document is changed in order of arrival, or after checking under the same lock that it is still at the version (or text) started from, absent or not open; an open document is never removed')
    ck.rule('didChange stores the last full content change together with its version')
    ck.rule('diagnostics carry the version of the text they were computed from; a cached result is returned or stored only for the current version; cached results are dropped when the text changes')
    derived_fields(ck, prog)
    store_rules(ck, prog)
    diagnostics_rules(ck, prog)
    publish_rules(ck, prog)
    settings_rule(ck, prog)
    ctor_versions(ck, prog)
    close_rule(ck, prog)
