"""Toggles of the configuration: a feature that is switched off does nothing, one that is on (or not mentioned) works.
Every request and notification handler of the language server, with the entry points of the extensions it calls, is
explored with one toggle assumed on and assumed off (all others on); what is done under `off` is compared with what is done
under `on`."""
import re
from props.common import *

CFG = 'tombi_config'
SERVER = 'tombi_lsp'

def bool_default(t): return t.d is not None and t.d.path.rsplit('::', 1)[-1] in ('BoolDefaultTrue', 'BoolDefaultFalse')

class Tree:
    """The toggles the configuration types offer: (owner struct, field) -> how it is written down"""
    def __init__(self, prog):
        self.adts = {a.path: a for a in prog.adts.values() if a.path.startswith(CFG)}
        self.toggles = {}; self.parents = {}
        for a in self.adts.values():
            if a.kind != 'struct': continue
            for n, t, _ in a.fields():
                if t.d is None or t.d.path != OPT or not t.args: continue
                p = t.args[0]
                if p.d is None or p.d.path not in self.adts: continue
                k = self.kind(p.d.path)
                self.parents.setdefault(p.d.path, []).append((a.path, n))
                if k: self.toggles[(a.path, n)] = (p.d.path, k)
    def holds_off(self, path, seen=()):
        """Is the setting, or one below it, off unless given?"""
        a = self.adts.get(path)
        if a is None or path in seen: return False
        fields = a.fields() if a.kind == 'struct' else [x for v in a.variants for x in v[2]]
        for n, t, _ in fields:
            if 'BoolDefaultFalse' in t.s: return True
            q = t.args[0] if t.d is not None and t.d.path == OPT and t.args else t
            if q.d is not None and self.holds_off(q.d.path, seen + (path,)): return True
        return False
    def kind(self, path):
        a = self.adts[path]
        if a.kind == 'struct':
            for n, t, _ in a.fields():
                if n == 'enabled':
                    if t.d is not None and t.d.path == OPT and bool_default(t.args[0]): return 'struct-option'
                    if bool_default(t): return 'struct'
            return None
        if a.kind == 'enum' and any(v[0] == 'Enabled' for v in a.variants): return 'enum'
        return None

def extension_crate(f): return f.crate.name.startswith('tombi_extension_') and f.crate.name != 'tombi_extension_manifest'

def mentions_field(o):
    if not isinstance(o, tuple): return False
    if len(o) > 2 and o[0] == 'f' and o[2] is not None and str(getattr(o[2], 'path', o[2])).startswith(CFG): return True
    return any(mentions_field(x) for x in o)

def reads_config(f, tree):
    """Does the body look into the toggles of the configuration?"""
    for b in f.blocks:
        if b.term[0] == 'call':
            c = b.term[1]; d = c.callee or c.decl
            if d is not None and d.path.startswith((CFG, '<' + CFG)) and any(CFG in t.s for t in c.argtys) and not d.path.endswith(('Clone>::clone', 'Default>::default')): return True
        for s in b.stmts:
            if s[0] == '=' and any(mentions_field(o) for o in s[2][1:]): return True
    return False

def relevant(prog, tree):
    """Functions of the server and the extensions that look at toggles, themselves or through what they call"""
    cand = [f for f in prog.fns if (f.crate.name == SERVER or extension_crate(f))]
    rel = {f for f in cand if reads_config(f, tree)}
    outer = {}
    for f in cand:
        if f.kind in ('closure', 'coroutine'):
            outer[f] = f.path.split('::{closure')[0]
    byp = {f.path: f for f in cand}
    work = True
    callers = {}
    for f in cand:
        for b in f.blocks:
            if b.term[0] == 'call':
                d = b.term[1].callee or b.term[1].decl
                if d is not None and d.fn is not None: callers.setdefault(d.fn, set()).add(f)
    todo = list(rel)
    while todo:
        f = todo.pop()
        nxt = set(callers.get(f, ()))
        if f in outer and outer[f] in byp: nxt.add(byp[outer[f]])
        for g in nxt - rel: rel.add(g); todo.append(g)
    return rel

class Tg(Model):
    """astate: nothing; the toggles are assumptions about the configuration"""
    init = None; feat = None; featname = 'features'
    def __init__(self, tree, target=None, on=True):
        self.tree = tree; self.target = target; self.on = on; self.read_toggles = set(); self.absent = False
        self.path = set()          # (owner, field) on the way to the target
        if target:
            todo = [target[0]]
            while todo:
                o = todo.pop()
                for a in tree.adts.values():
                    if a.kind == 'enum' and any(t.d is not None and t.d.path == o for v in a.variants for n, t, _ in v[2]): todo.append(a.path)
                    if a.kind == 'struct':
                        for n, t, _ in a.fields():
                            if t.d is not None and (t.d.path == o or t.d.path == OPT and t.args[0].d is not None and t.args[0].d.path == o) and (a.path, n) not in self.path:
                                self.path.add((a.path, n)); todo.append(a.path)
    def payload(self, adt, kind, v):
        c = cbool(v); P = (('d', 'Some'), ('f', '0'))
        out = [((), ('v', OPT, 'Some'))]
        if kind == 'enum':
            out.append((P, ('v', adt, 'Enabled'))); out.append((P + (('d', 'Enabled'), ('f', '0'), ('f', 'enabled'), ('f', '0')), c))
        elif kind == 'struct': out.append((P + (('f', 'enabled'), ('f', '0')), c))
        else:
            out.append((P + (('f', 'enabled'),), ('v', OPT, 'Some'))); out.append((P + (('f', 'enabled'), ('d', 'Some'), ('f', '0'), ('f', '0')), c))
        return out
    def read(self, X, bi, p, owner):
        if self.feat is not None:
            if p[1] and p[1][-1][0] == 'f' and p[1][-1][1] == '^' + self.featname: return [((), ('v', OPT, 'Some')), ((('d', 'Some'), ('f', '0')), ('r', ('FEAT', ())))]
        if owner is None or not owner.startswith(CFG) or not p[1] or p[1][-1][0] != 'f': return None
        k = (owner, p[1][-1][1])
        if k in self.tree.toggles:
            self.read_toggles.add(k)
            adt, kind = self.tree.toggles[k]
            if self.absent and not self.tree.holds_off(adt): return [((), ('v', OPT, 'None'))]
            if k == self.target: return self.payload(adt, kind, self.on)
            if k in self.path: return [((), ('v', OPT, 'Some')), ((('d', 'Some'), ('f', '0')), ('v', adt, 'Features'))] if kind == 'enum' else [((), ('v', OPT, 'Some'))]
            return self.payload(adt, kind, True) if kind != 'enum' else [((), ('v', OPT, 'Some')), ((('d', 'Some'), ('f', '0')), ('v', adt, 'Features'))]
        a = self.tree.adts.get(owner)
        if k in self.path:
            for n, t, _ in (a.fields() if a is not None and a.kind == 'struct' else ()):
                if n == k[1] and t.d is not None and t.d.path == OPT:
                    q = t.args[0].d.path; x = self.tree.adts.get(q)
                    return [((), ('v', OPT, 'Some'))] + ([((('d', 'Some'), ('f', '0')), ('v', q, 'Features'))] if x is not None and x.kind == 'enum' and any(v[0] == 'Features' for v in x.variants) else [])
    def call_alts(self, X, bi, c, env, argv, a):
        d = c.decl
        if d is None: return None
        full = (c.callee or d).path
        if d.path == 'core::clone::Clone::clone' and c.argtys and CFG in c.argtys[0].s and argv[0] is not None and argv[0][0] == 'r':
            return [(X.optree(bi, env, ('copy', argv[0][1])), a)]
        if d.path.endswith('bool>::then') and len(c.args) == 2:
            v = X.eval(bi, env, c.args[0])
            if v is not None and v[0] == 'c' and v[1] in ('0', 'false'): return [([((), ('v', OPT, 'None'))], a)]
        if d.path == 'core::option::Option::<core::option::Option<T>>::flatten' and c.args[0][0] != 'const':
            v = X.look(bi, env, X.resolve(env, c.args[0][1]))
            if v is not None and v[0] == 'v' and v[2] == 'None': return [([((), ('v', OPT, 'None'))], a)]
        if d.path == 'core::default::Default::default':
            rt = X.F.ltys[c.dest[0]]
            if rt.d is not None and rt.d.path == OPT: return [([((), ('v', OPT, 'None'))], a)]
            if bool_default(rt): return [([((('f', '0'),), cbool(rt.d.path.endswith('True')))], a)]
        if d.path.startswith('core::option::Option') and d.path.endswith('::unwrap_or_default'):
            rt = X.F.ltys[c.dest[0]]
            if bool_default(rt) and c.args[0][0] != 'const':
                p = X.resolve(env, c.args[0][1]); v = X.look(bi, env, p)
                default = [((('f', '0'),), cbool(rt.d.path.endswith('True')))]
                if v is not None and v[0] == 'v' and v[2] == 'None': return [(default, a)]
                if v is not None and v[0] == 'v' and v[2] == 'Some':
                    return [(X.optree(bi, env, ('copy', (p[0], p[1] + (('d', 'Some'), ('f', '0'))))), a)]
                return [(default, a), ([], a)]
        return None

ROOTPRE = '<tombi_lsp::backend::Backend as tower_lsp::LanguageServer>::'
QUIET = ('core::', 'alloc::', 'std::', 'tracing', '<tracing', '<core', '<alloc', '<std', CFG, '<' + CFG, 'tombi_schema_type', '<tombi_schema_type', 'log::')
FAM = re.compile(r'extensions::(\w+)::lsp::(\w+)::\w+$')

def inline_policy(rel):
    def pol(g, fr, c):
        if g.crate.name in (CFG, 'tombi_schema_type'): return not g.path.endswith(('Clone>::clone', 'PartialEq>::eq'))
        if g.kind in ('closure', 'coroutine') and (g.crate.name == SERVER or extension_crate(g)): return True
        return g in rel or (extension_crate(g) and any(x.s == 'bool' for x in g.ltys[1:g.ac + 1]))
    return pol

def setting_computed(F, i):
    """Is this part of finding out what the setting is?  (the body returns a piece of the configuration)"""
    t = F.bframe[i].fn.ltys[0]
    return CFG in t.s or 'BoolDefault' in t.s
def settings(F, i): return F.bframe[i].fn.crate.name in (CFG, 'tombi_schema_type')

def observe(F, X):
    """What was done: calls made outside the configuration types, other blocks passed, results"""
    sites = {}; blocks = set()
    for i in X.visited_blocks:
        if settings(F, i): continue
        b = F.blocks[i]; blocks.add(i)
        if b.term[0] != 'call': continue
        c = b.term[1]; d = c.callee or c.decl
        if d is None or d.path.startswith(QUIET) or is_noise(d.path): continue
        sites[(F.bframe[i].fn.path, d.path, c.line)] = i
    res = {('Some' if r[1] is not None and r[1][0] == 'v' and r[1][2] == 'Some' else 'None' if r[1] is not None and r[1][0] == 'v' and r[1][2] == 'None' else '?') if isinstance(r, tuple) and r[0] == 'Ok' else str(r and r[0]) for _, r in X.final}
    return sites, blocks, res, X.states, X.overflow

def is_noise(p): return any(n in p for n in ('tracing', 'log::', '::fmt::'))

_W = {}
def work(task):
    """One exploration: (root, toggle or None, how) -> observation (runs in a forked worker)"""
    root, toggle, how = task
    prog, tree, F, feat = _W['prog'], _W['tree'], _W['flats'][root], _W['feat'].get(root)
    m = Tg(tree, toggle if how == 'off' else None, how != 'off'); m.absent = how == 'absent'
    env = {}
    if feat is not None:
        m.feat = feat
        if how == 'off' and toggle[0].endswith('::Extensions'):
            env = {('FEAT', ()): ('v', feat, 'Enabled'), ('FEAT', (('d', 'Enabled'), ('f', '0'), ('f', 'enabled'), ('f', '0'))): cbool(False)}
        else: env = {('FEAT', ()): ('v', feat, 'Features')}
    X = Explorer(F, m, cap=48, max_states=400000); X.run(env)
    return task, observe(F, X), sorted(m.read_toggles)

def name_of(k): return '%s.%s' % (k[0].rsplit('::', 1)[-1], k[1])

class Family:
    """Which handler a toggle is about, from where it stands in the configuration"""
    def __init__(self, tree):
        self.features = {}     # extension -> features its configuration offers
        for o, n in tree.toggles:
            if o.endswith('LspFeatureTree') and '::extensions::' in o: self.features.setdefault(o.split('::extensions::')[1].split('::')[0], set()).add(n)
        self.tree = tree
    def ext(self, k):
        o = k[0]
        if '::extensions::' not in o: return None
        r = o.split('::extensions::')[1]
        return k[1] if r == 'Extensions' else r.split('::')[0]
    def of(self, k):
        """handlers the toggle must matter to"""
        o, n = k
        if o.endswith('::LspOptions'): return {n}
        m = FAM.search(o)
        if m: return {m.group(2)}
        if o.endswith('LspFeatureTree'): return {n}
        return set(self.features.get(self.ext(k), ()))
    def group(self, k): return self.tree.toggles[k][1] == 'enum'

def check(ck):
    prog = ck.prog
    tree = Tree(prog)
    tree.toggles = {k: v for k, v in tree.toggles.items() if k[0].endswith('::LspOptions') or '::extensions::' in k[0]}
    ck.floor('toggles', len(tree.toggles), 40)
    fam = Family(tree)
    rel = relevant(prog, tree); pol = inline_policy(rel)
    handlers = {f.path[len(ROOTPRE):].split('::')[0]: f for f in prog.fns if f.path.startswith(ROOTPRE) and f.kind == 'coroutine' and f.path.endswith('::{closure#0}') and f.path.count('{closure') == 1}
    handlers = {n: f for n, f in handlers.items() if any(g in rel for g in prog.reach([f]))}
    ck.floor('handlers_reading_toggles', len(handlers), 6)
    entries = {}
    for f in prog.fns:
        if f.crate.name != SERVER: continue
        for b in f.blocks:
            if b.term[0] != 'call': continue
            d = b.term[1].callee or b.term[1].decl
            g = d.fn if d is not None else None
            if g is None or not extension_crate(g) or not g.is_async: continue
            ps = [(t, n) for t, n in zip(g.ltys[1:g.ac + 1], g.lnames[1:g.ac + 1]) if 'ExtensionFeatures' in t.s and t.d is not None and t.d.path == OPT]
            if len(ps) == 1 and ps[0][1]: entries[g] = (ps[0][0].args[0].peel().d.path, ps[0][1])
    ck.floor('extension_entry_points', len(entries), 8)
    _W.update(prog=prog, tree=tree, flats={}, feat={})
    for n, f in handlers.items(): _W['flats'][n] = Flat(prog, f, pol, into=True)
    for g, (adt, pname) in entries.items():
        _W['flats'][g.path] = Flat(prog, prog.body_of(g), pol, into=True); _W['feat'][g.path] = adt
    import multiprocessing, gc
    gc.collect(); gc.freeze()
    ctx = multiprocessing.get_context('fork')
    obs = {}; reads = {}
    with ctx.Pool(7) as pool:
        for task, o, r in pool.imap_unordered(work, [(n, None, how) for how in ('on', 'absent') for n in handlers] + [(g.path, None, 'on') for g in entries], 1):
            obs[task] = o
            if task[2] == 'on': reads[task[0]] = [tuple(k) for k in r]
        tasks = [(n, k, 'off') for n in handlers for k in reads[n] if k in tree.toggles]
        for g in entries:
            ext = g.crate.name.rsplit('_', 1)[-1]
            tasks += [(g.path, k, 'off') for k in set(reads[g.path]) | {k for k in tree.toggles if k[0].endswith('::Extensions') and k[1] == ext} if k in tree.toggles and fam.group(k) and g.path.rsplit('::', 1)[-1] in fam.of(k)]
        for task, o, r in pool.imap_unordered(work, tasks, 1): obs[task] = o
    gc.unfreeze()
    effect = {}; gone = set()
    for t, o in obs.items():
        ck.count('states', o[3]); ck.count('explorations')
        if o[4]: ck.ob(False, 'overflow:%s:%s' % (t[0], t[2]), '%s: exploration did not finish' % t[0])
    for n in sorted(handlers):
        base = obs[(n, None, 'on')]; F = _W['flats'][n]
        miss = sorted(x for x in set(base[0]) - set(obs[(n, None, 'absent')][0]) if not setting_computed(F, base[0][x]))
        ck.ob(not miss, 'absent:' + n, 'with no setting given, %s leaves out what it does with everything switched on: %s' % (n, ', '.join('%s (%s)' % (x[1], F.loc(base[0][x], x[2])) for x in miss[:3])), sample='%s: %d calls with everything on, all of them also with no settings' % (n, len(base[0])))
        for k in reads[n]:
            if k not in tree.toggles: continue
            off = obs[(n, k, 'off')]
            more = sorted(x for x in set(off[0]) - set(base[0]) if not (x[1].endswith('::publish_diagnostics') and 'diagnostic' in k[1])); less = sorted(set(base[0]) - set(off[0]))
            ck.ob(not more, 'inverted:%s:%s' % (n, name_of(k)), '%s does this only when %s is switched off: %s' % (n, name_of(k), ', '.join('%s (%s)' % (x[1], F.loc(off[0][x], x[2])) for x in more[:3])),
                  sample='%s off: %s makes %d of its %d calls' % (name_of(k), n, len(off[0]), len(base[0])))
            mine = fam.ext(k)
            if mine:
                lost = [x for x in less if re.match(r'<?tombi_extension_(\w+?)::', x[1]) and re.match(r'<?tombi_extension_(\w+?)::', x[1]).group(1) != mine]
                ck.ob(not lost, 'foreign:%s:%s' % (n, name_of(k)), '%s of the %s extension also switches off in %s: %s' % (name_of(k), mine, n, ', '.join('%s (%s)' % (x[1], F.loc(base[0][x], x[2])) for x in lost[:3])), sample='%s: %s leaves the other extensions alone' % (n, name_of(k)))
            if less or off[1] != base[1] or off[2] != base[2]: effect.setdefault(k, set()).add(n)
            if k[0].endswith('::LspOptions') and k[1] == n:
                ext = sorted(x for x in off[0] if x[0].startswith(('tombi_extension_', '<tombi_extension_')) or x[1].startswith('tombi_extension_'))
                ck.ob(less and not ext and 'Some' not in off[2], 'served:' + n, '%s is served although switched off: %s' % (n, '; '.join('%s (%s)' % (x[1], F.loc(off[0][x], x[2])) for x in ext[:2]) or 'results %s' % sorted(off[2])),
                      sample='%s off: result %s, %d calls not made' % (n, sorted(off[2]), len(less)))
    for k in sorted(tree.toggles):
        want = {h for h in fam.of(k) if h in handlers}
        # an extension that has no such entry point has nothing to switch
        missing = sorted(want - effect.get(k, set()))
        ck.ob(effect.get(k) and not missing, 'no-effect:' + name_of(k), '%s changes nothing%s' % (name_of(k), ' in the handler of %s' % ', '.join(missing) if missing else ''), sample='%s matters to %s' % (name_of(k), sorted(effect.get(k, ()))))
    for g in sorted(entries, key=lambda g: g.path):
        base = obs[(g.path, None, 'on')]
        for t in sorted((t for t in obs if t[0] == g.path and t[2] == 'off'), key=lambda t: t[1]):
            off = obs[t]
            if '?' in off[2]: ck.notes.append('%s under %s off: result not understood' % (g.path, name_of(t[1])))
            ck.ob('Some' not in off[2] and off[2], 'answers:%s:%s' % (g.path, name_of(t[1])), '%s still answers when %s is switched off (for some input): it can make %d of %d calls' % (g.path, name_of(t[1]), len(off[0]), len(base[0])), sample='%s with %s off: only %s' % (g.path, name_of(t[1]), sorted(off[2])))
