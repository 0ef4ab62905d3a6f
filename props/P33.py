"""P33: a key or table that is defined twice is an error, and only then."""
import re
from props.common import *
from an.explore import place_ty

DT = 'tombi_document_tree::'
VALUE = DT + 'value::Value'; TABLE = DT + 'value::table::Table'; ARRAY = DT + 'value::array::Array'
TK = DT + 'value::table::TableKind'; AK = DT + 'value::array::ArrayKind'; KEY = DT + 'key::Key'; DTE = DT + 'DocumentTreeAndErrors'
SET = ('f', '#'); SOME0 = (('d', 'Some'), ('f', '0')); OK0 = (('d', 'Ok'), ('f', '0')); ERR0 = (('d', 'Err'), ('f', '0'))
ERR = DT + 'error::Error'
def last(c): return c.decl.path.rsplit('::', 1)[-1] if c.decl is not None else ''
def errvec(t):
    t = t.peel() if t is not None else None
    return bool(t is not None and t.d is not None and t.d.path == 'alloc::vec::Vec' and t.args and t.args[0].d is not None and t.args[0].d.path == ERR)
def reserrs(t): return bool(is_result(t) and len(t.args) == 2 and t.args[1].d is not None and t.args[1].d.path == 'alloc::vec::Vec' and errvec(t.args[1]))
def kindf(*pre): return tuple(pre) + (('f', 'kind'),)
def derived(f): return f.d.path.endswith('>::clone') or ' as core::cmp::' in f.path or ' as core::default::' in f.path or ' as core::clone::' in f.path

# ---------------------------------------------------------------- what TOML says
def group(k): return 'D' if k in ('ParentKey', 'KeyValue') else {'Table': 'T', 'ParentTable': 'P', 'InlineTable': 'I', 'Root': 'R'}[k]
OUTER = {('T', 'T'): None, ('T', 'P'): 'T', ('T', 'I'): None, ('T', 'D'): 'T',
         ('P', 'T'): 'T', ('P', 'P'): 'P', ('P', 'I'): None, ('P', 'D'): 'D',
         ('D', 'T'): None, ('D', 'P'): 'D', ('D', 'I'): None, ('D', 'D'): 'D',
         ('I', 'T'): None, ('I', 'P'): None, ('I', 'I'): None, ('I', 'D'): None,
         ('R', 'T'): 'R', ('R', 'P'): 'R', ('R', 'D'): 'R'}
INNER = dict(OUTER); INNER[('T', 'D')] = None
NAME = {'T': 'a table defined by its header', 'P': 'a table implied by a longer header', 'I': 'an inline table', 'D': 'a table made by dotted keys', 'R': 'the root'}

class DX(Explorer):
    def kill_below(self, env, p):
        keep = {k: v for k, v in env.items() if k[0] == p[0] and k[1][:len(p[1])] == p[1] and k[1] and (k[1][-1] == SET or k[1][-1] == ('f', 'kind'))}
        self.kill(env, p); env.update(keep)
    def group(self, env): return frozenset((k, v) for k, v in env.items() if k[1] and k[1][-1] == SET)
    def kindat(self, bi, env, p):
        v = self.look(bi, env, (p[0], p[1] + (('f', 'kind'),)))
        return v[2] if v is not None and v[0] == 'v' else None
    def assign(self, env, dest, tree):
        Explorer.assign(self, env, dest, [(s, v) for s, v in tree if not (s and s[0] == '@')])
        for s, v in tree:
            if s and s[0] == '@': env[s[1]] = v

class EM(Model):
    """Lists of errors are followed as sets of the sites that put an error there.  fail: the call that may fail.
    astate: (errors that must be returned, single errors at hand, own)"""
    init = (frozenset(), frozenset(), None)
    def __init__(self, fail=None): self.fail = fail; self.hit = 0; self.und = set()
    # what other functions of the tree do is decided for them separately
    def call_alts(self, X, bi, c, env, argv, a):
        l = last(c); d = c.callee; path = d.path if d is not None else ''
        must, single, own = a
        dt = X.F.ltys[c.dest[0]] if not c.dest[1] else place_ty(X.F, c.dest)
        r = self.special(X, bi, c, env, argv, a, l, path, dt)
        if r is not None: return r
        if dt is not None and errvec(dt) and dt.k == 'adt' and l in ('new', 'with_capacity', 'default'): return [([((SET,), ('set', frozenset()))], a)]
        if dt is not None and errvec(dt) and dt.k == 'adt' and ('into_vec' in l or 'box_' in l or l == 'from_elem'): return [([((SET,), ('set', frozenset({'own'}) | single))], (must, frozenset(), own))]
        if c.argtys and errvec(c.argtys[0]):
            r = self.vec(X, bi, c, env, argv, a, l, dt)
            if r is not None: return r
        if dt is not None and dt.d is not None and dt.d.path == DTE and bi in self.sites(X):
            out = [([((('f', 'errors'), SET), ('set', frozenset()))], a)]
            if bi == self.fail: self.hit += 1; out.append(([((('f', 'errors'), SET), ('set', frozenset({bi})))], (must | {bi}, single, own)))
            return out
        if l in ('into', 'from') and c.argtys and c.argtys[-1].d is not None and c.argtys[-1].d.path == DTE:
            t = dict(X.optree(bi, env, c.args[-1])); s = t.get((('f', 'errors'), SET))
            return [([((('f', '1'), SET), s)] if s is not None else [], a)]
        if dt is not None and is_result(dt) and bi in self.sites(X):
            if reserrs(dt):
                out = [([((), ('v', RES, 'Ok'))], a)]
                if bi == self.fail: self.hit += 1; out.append(([((), ('v', RES, 'Err')), (ERR0 + (SET,), ('set', frozenset({bi})))], (must | {bi}, single, own)))
                return out
            out = [([((), ('v', RES, 'Ok'))], a)]
            if bi == self.fail: self.hit += 1; out.append(([((), ('v', RES, 'Err'))], (must | {bi}, single | {bi}, own)))
            return out
        return None
    def special(self, *x): return None
    _sites = None
    def sites(self, X):
        if self._sites is None:
            s = set()
            for i, b in enumerate(X.F.blocks):
                if b.term[0] == 'call':
                    c = b.term[1]; d = c.callee
                    dt = X.F.ltys[c.dest[0]] if not c.dest[1] else place_ty(X.F, c.dest)
                    if fallible(c, dt): s.add(i)
            self._sites = s
        return self._sites
    def vec(self, X, bi, c, env, argv, a, l, dt):
        must, single, own = a
        v = argv[0] if argv and argv[0] is not None and argv[0][0] == 'r' else None
        k = (v[1][0], v[1][1] + (SET,)) if v is not None else None
        cur = env.get(k) if k is not None else None
        if l in ('is_empty', 'len') and cur is not None:
            if l == 'is_empty': return [([((), F_)], a)] + ([] if cur[1] or self.fail is None else [([((), T)], a)]) if cur[1] or self.fail is not None else [([((), T)], a)]
            return [([((), ('c', x))], a) for x in (('1', '2') if cur[1] else ('0', '1') if self.fail is not None else ('0',))]
        if l in ('push', 'insert') and k is not None:
            return [([(('@', k), ('set', (cur[1] if cur is not None else frozenset()) | single | {'own'}))], (must, frozenset(), own))]
        if l in ('extend', 'append', 'extend_from_slice') and k is not None and len(c.args) > 1:
            o = self.setof(X, bi, env, c.args[1])
            if o is None:
                w = argv[1]
                if w is not None and w[0] == 'r': o = env.get((w[1][0], w[1][1] + (SET,)))
            if o is None: self.und.add('extend'); o = ('set', frozenset())
            return [([(('@', k), ('set', (cur[1] if cur is not None else frozenset()) | o[1] | single))], (must, frozenset(), own))]
        if l in ('clear', 'truncate', 'drain') and k is not None: return [([(('@', k), ('set', frozenset()))], a)]
        if l in ('into_iter', 'iter', 'from', 'into', 'clone', 'to_vec', 'into_iter_sorted'):
            o = self.setof(X, bi, env, c.args[0]) or cur
            if o is not None: return [([((SET,), o)], a)]
        return None
    def setof(self, X, bi, env, o): return dict(X.optree(bi, env, o)).get((SET,))
    def on_ret(self, X, bi, env, a):
        must, single, own = a
        for l in X.F.ret_locals:
            t = X.F.ltys[l]
            if t is None or t.d is None: continue
            if t.d.path == DTE: s = env.get((l, (('f', 'errors'), SET))); r = True
            elif reserrs(t):
                v = X.variant_at(env, (l, ()))
                if v is None or v[0] != 'v': self.und.add('result'); return 0
                s = env.get((l, ERR0 + (SET,))) if v[2] == 'Err' else ('set', frozenset())
                r = v[2] == 'Err'
            else: continue
            if s is None:
                if must: self.und.add('errors')
                continue
            if must - s[1]: return '!an error is dropped'
        return 0

def fallible(c, dt):
    """Calls whose failure is an error of the document."""
    d = c.callee
    if dt is None or d is None or dt.d is None: return False
    if not d.path.startswith('tombi_') and not (c.decl is not None and c.decl.path.startswith('tombi_')): return False
    if c.argtys and c.argtys[0].d is not None and c.argtys[0].d.path == DTE: return False
    if dt.d.path == DTE: return True
    return bool(is_result(dt) and len(dt.args) == 2 and (reserrs(dt) or dt.args[1].d is not None and dt.args[1].d.path.startswith('tombi_') or dt.args[1].d is not None and 'Error' in dt.args[1].s))

def is_root(f):
    if f.crate.name != 'tombi_document_tree' or f.kind in ('closure', 'coroutine') or derived(f) or '::tests::' in f.path: return False
    t = f.ltys[0]
    if f.ac and f.ltys[1].d is not None and f.ltys[1].d.path == DTE: return False
    return bool(t.d is not None and (t.d.path == DTE or reserrs(t)))

def policy(root):
    def p(g, fr, c):
        if g.kind == 'closure': return True
        return g.crate.name == 'tombi_document_tree' and not is_root(g) and not derived(g) and (not is_result(g.ltys[0]) or reserrs(g.ltys[0]))
    return p

def kept(ck, prog):
    """The errors of every part end up in the errors of the whole."""
    n = 0; sites = 0
    for f in prog.fns:
        if not is_root(f): continue
        F = Flat(prog, f, policy(f))
        m0 = EM(); X0 = DX(F, m0, cap=40)
        ss = sorted(m0.sites(X0)); n += 1
        for s in ss:
            m = EM(s); X = DX(F, m, cap=400, max_states=60000); X.run(); ck.count('states', X.states)
            c = F.blocks[s].term[1]; what = last(c); sites += 1
            for st, msg, bi, line in X.bad[:1]:
                ck.ob(False, 'kept:%s:%s' % (short(f), what), '%s: the error of %s (%s) is not among the errors returned: %s' % (short(f), what, F.loc(s, c.line), ' ; '.join(X.witness(st, 4))))
            if not X.bad:
                ck.ob(True, 'kept:%s:%s' % (short(f), what), '', sample='%s: errors of %s are kept' % (short(f), what))
                if m.und and m.hit: ck.notes.append('%s: %s not followed (%s)' % (short(f), what, ', '.join(sorted(m.und))))
                if X.overflow: ck.notes.append('%s: too many states' % short(f))
    ck.floor('tree_builders', n, 25); ck.floor('fallible_parts', sites, 60)

def short(f): return re.sub(r'<impl [\w:]*IntoDocumentTreeAndErrors<([^<>]*(?:<[^<>]*>)?[^<>]*)> for ([\w:<>]+)>::', lambda m: m.group(2).rsplit('::', 1)[-1].strip('>') + '::', f.path).replace(DT, '')

# ---------------------------------------------------------------- tables
class MM(EM):
    """Table::merge / Table::insert with kinds assumed.  astate third: (item taken, outcome of a nested merge, inserted)"""
    init = (frozenset(), frozenset(), (0, None, False))
    def __init__(self, occupied, inner): EM.__init__(self); self.occupied = occupied; self.inner = inner; self.entry = 0; self.taken = 0; self.merged = set()
    def item(self, i):
        kind, sub = self.inner[i]
        t = [((), ('v', VALUE, kind))]
        if sub is not None: t.append(((('d', kind), ('f', '0'), ('f', 'kind')), ('v', TK if kind == 'Table' else AK, sub)))
        return t
    def special(self, X, bi, c, env, argv, a, l, path, dt):
        must, single, (taken, nested, ins) = a
        if l == 'next' and c.argtys and dt is not None and dt.d is not None and dt.d.path == OPT:
            own = self.inner is not None and c.argtys[0].mentions('indexmap::map::iter::IntoIter') or 'IntoIter' in c.argtys[0].s
            if own and self.inner is not None and not taken and dt.mentions(VALUE):
                self.taken += 1
                return [([((), ('v', OPT, 'Some'))] + [(SOME0 + (('f', '1'),) + s, v) for s, v in self.item(1)], (must, single, (1, nested, ins)))]
            return [([((), ('v', OPT, 'None'))], a)]
        if dt is not None and dt.d is not None and dt.d.path.endswith('::Entry') and dt.d.path.startswith('indexmap'):
            self.entry += 1
            return [([((), ('v', dt.d.path, '#0' if self.occupied else '#1'))], a)]
        if l in ('get_mut', 'into_mut', 'get', 'get_full_mut', 'get_key_value_mut') and dt is not None and (dt.peel().d is not None and dt.peel().d.path == VALUE):
            return [([((), ('r', ('V1', ())))], a)]
        if l in ('get_mut', 'get') and dt is not None and dt.d is not None and dt.d.path == OPT and dt.mentions(VALUE) and dt.mentions('&') is False and self.inner is not None:
            return [([((), ('v', OPT, 'Some')), (SOME0, ('r', ('V1', ())))] if self.occupied else [((), ('v', OPT, 'None'))], a)]
        if l in ('contains_key',) and self.inner is not None: return [([((), cbool(bool(self.occupied)))], a)]
        if l in ('insert', 'insert_entry', 'or_insert', 'insert_full') and any('VacantEntry' in t.s or 'IndexMap' in t.s for t in c.argtys[:1]): return [([], (must, single, (taken, nested, True)))]
        if path in (TABLE + '::merge', ARRAY + '::merge'):
            adt = TK if path.startswith(TABLE) else AK
            ks = []
            for o, v in zip(c.args, argv):
                t = dict(X.optree(bi, env, o)); k = t.get((('f', 'kind'),))
                if v is not None and v[0] == 'r': k = X.look(bi, env, (v[1][0], v[1][1] + (('f', 'kind'),)))
                ks.append(k[2] if k is not None and k[0] == 'v' else None)
            self.merged.add(tuple(ks))
            bad = ([((), ('v', RES, 'Err')), (ERR0 + (SET,), ('set', frozenset({bi})))], (must | {bi}, single, (taken, 'Err', ins)))
            ok = [((), ('v', RES, 'Ok'))]
            if adt == TK and None not in ks and (group(ks[0]), group(ks[1])) in OUTER:
                r = OUTER[group(ks[0]), group(ks[1])]
                if r is None: return [bad]
            return [(ok, (must, single, (taken, 'Ok', ins))), bad]
        if l in ('eq', 'ne') and len(argv) == 2 and c.argtys[0].peel().d is not None and c.argtys[0].peel().d.path in (TK, AK): return None
    def on_ret(self, X, bi, env, a):
        r = EM.on_ret(self, X, bi, env, a)
        if isinstance(r, str): return r
        v = None
        for l in X.F.ret_locals:
            w = X.variant_at(env, (l, ()))
            if w is not None and w[0] == 'v': v = w[2]
        k = X.kindat(bi, env, ('SELF', ()))
        return (v, k, a[2])

def kinds_of(g): return {'T': ['Table'], 'P': ['ParentTable'], 'I': ['InlineTable'], 'D': ['ParentKey', 'KeyValue'], 'R': ['Root']}[g]

def run_merge(ck, F, k1, k2, occupied, inner, byval=False, bykey=False):
    m = MM(occupied, inner)
    env = {}
    if not bykey:
        if byval: env[(1, (('f', 'kind'),))] = ('v', TK, k1)
        else: env[(1, ())] = ('r', ('SELF', ())); env[('SELF', (('f', 'kind'),))] = ('v', TK, k1)
        env[(2, (('f', 'kind'),))] = ('v', TK, k2)
    else:
        env[(1, (('f', 'kind'),))] = ('v', TK, k1)
        for s, v in m.item(1): env[(3, s)] = v
    if inner is not None:
        for s, v in m.item(0): env[('V1', s)] = v
    X = DX(F, m, cap=60, max_states=60000); X.run(env); ck.count('states', X.states); ck.count('merges')
    return m, X

def outcomes(X):
    out = {}
    for (a, r), st in X.final.items():
        if isinstance(a, tuple): out.setdefault(a, st)
    return out

def tables(ck, prog):
    fn = next((f for f in prog.fns if f.path == TABLE + '::merge'), None)
    if not ck.need(fn, 'Table::merge', 'puts two tables together'): return
    F = Flat(prog, fn, policy(fn))
    def dropped(X, key, txt):
        for st, msg, bi, line in X.bad[:1]: ck.ob(False, key, 'Table::merge: %s: %s (%s)' % (txt, msg, ' ; '.join(X.witness(st, 4)))); return True
    # the tables themselves
    for (g1, g2), res in sorted(OUTER.items()):
        for k1 in kinds_of(g1):
            for k2 in kinds_of(g2):
                m, X = run_merge(ck, F, k1, k2, False, None)
                key = 'tables:%s:%s' % (k1, k2); txt = '%s meets %s' % (NAME[g1], NAME[g2])
                if dropped(X, key, txt): continue
                o = outcomes(X)
                if not o or any(v is None for v, _, _ in o): ck.notes.append('%s not decided' % key); ck.count('undecided'); continue
                for (v, k, _), st in o.items():
                    w = ' ; '.join(X.witness(st, 4))
                    if res is None: ck.ob(v == 'Err', key, 'Table::merge: %s, and no error is returned (%s)' % (txt, w), sample='%s + %s: an error' % (k1, k2))
                    else:
                        ck.ob(v == 'Ok', key, 'Table::merge: %s, which TOML allows, and an error is returned (%s)' % (txt, w), sample='%s + %s: accepted' % (k1, k2))
                        if v == 'Ok' and k is not None: ck.ob(group(k) == res, key + ':kind', 'Table::merge: %s, and the result counts as %s instead of %s (%s)' % (txt, NAME[group(k)], NAME[res], w))
    # what is in them
    items = [('Table', k) for k in ('Table', 'ParentTable', 'InlineTable', 'ParentKey', 'KeyValue')] + [('Array', k) for k in ('Array', 'ArrayOfTable', 'ParentArrayOfTable')] + [('Integer', None), ('String', None)]
    outer = [('Root', 'Table'), ('Root', 'KeyValue'), ('Table', 'KeyValue'), ('ParentTable', 'ParentTable'), ('ParentTable', 'Table'), ('ParentKey', 'ParentKey'), ('Table', 'ParentTable')]
    for oi, (k1, k2) in enumerate(outer):
        for i1 in items:
            for i2 in items:
                if oi and (i1[0] not in ('Table', 'Integer') or i2[0] not in ('Table', 'Integer')): continue
                m, X = run_merge(ck, F, k1, k2, True, (i1, i2))
                judge_item(ck, 'Table::merge', m, X, i1, i2, '%s:%s' % (k1, k2))
        m, X = run_merge(ck, F, k1, k2, False, (('Integer', None), ('Integer', None)))
        for (v, k, (t, nst, ins)), st in outcomes(X).items():
            ck.ob(v == 'Ok' and (ins or not t), 'new:%s:%s' % (k1, k2), 'Table::merge: a key that is not there yet is %s (%s)' % ('not inserted' if v == 'Ok' else 'rejected', ' ; '.join(X.witness(st, 4))), sample='a new key is inserted')
        for st, msg, bi, line in X.bad[:1]: ck.ob(False, 'new:%s:%s' % (k1, k2), 'Table::merge: %s' % msg)
    ins = next((f for f in prog.fns if f.path == TABLE + '::insert'), None)
    if ck.need(ins, 'Table::insert', 'puts a value into a table'):
        FI = Flat(prog, ins, policy(ins))
        for i1 in items:
            for i2 in items:
                if i1 == ('Table', 'Table') and i2[1] in ('ParentKey', 'KeyValue'): continue
                m, X = run_merge(ck, FI, 'Table', None, True, (i1, i2), bykey=True)
                judge_item(ck, 'Table::insert', m, X, i1, i2, 'insert', item=False)
        m, X = run_merge(ck, FI, 'Table', None, False, (('Integer', None), ('Integer', None)), bykey=True)
        for (v, k, (t, nst, i)), st in outcomes(X).items(): ck.ob(v == 'Ok' and i, 'new:insert', 'Table::insert: a key that is not there yet is %s (%s)' % ('not inserted' if v == 'Ok' else 'rejected', ' ; '.join(X.witness(st, 4))))

def judge_item(ck, who, m, X, i1, i2, where, item=True):
    key = 'items:%s:%s:%s' % (where, i1[1] or i1[0], i2[1] or i2[0])
    name = lambda i: NAME[group(i[1])] if i[0] == 'Table' else {'Array': 'an array', 'ArrayOfTable': 'an array of tables', 'ParentArrayOfTable': 'the array of tables a header goes through'}[i[1]] if i[0] == 'Array' else 'a value'
    txt = '%s is defined again as %s' % (name(i1), name(i2))
    for st, msg, bi, line in X.bad[:1]:
        ck.ob(False, key, '%s: %s: %s (%s)' % (who, txt, msg, ' ; '.join(X.witness(st, 4)))); return
    if i1[0] == i2[0] == 'Table': want = INNER[group(i1[1]), group(i2[1])] is not None; nest = True
    elif i1[0] == i2[0] == 'Array': want = 'Array' not in (i1[1], i2[1]); nest = True
    else: want = False; nest = False
    o = outcomes(X)
    if m.und or not o or any(v is None for v, _, _ in o) or item and not m.taken: ck.notes.append('%s not decided %s' % (key, sorted(m.und))); ck.count('undecided'); return
    for (v, k, (t, n, ins)), st in o.items():
        if item and not t: continue
        w = ' ; '.join(X.witness(st, 5))
        if not want: ck.ob(v == 'Err', key, '%s: %s, and no error is returned (%s)' % (who, txt, w), sample='%s: an error' % txt)
        else:
            ck.ob(n is not None, key, '%s: %s, and the two are not merged (%s)' % (who, txt, w), sample='%s: merged' % txt)
            ck.ob((v == 'Ok') == (n == 'Ok') or n is None, key, '%s: %s, which TOML allows, and %s (%s)' % (who, txt, 'an error is returned' if v != 'Ok' else 'no error is returned', w))
        ck.ob(not ins, key + ':overwrite', '%s: %s, and the value is replaced (%s)' % (who, txt, w))


class AM(EM):
    """Array::merge.  astate third: (nested merge, appended)"""
    init = (frozenset(), frozenset(), (None, False))
    def __init__(self, have): EM.__init__(self); self.have = have; self.first = False
    def special(self, X, bi, c, env, argv, a, l, path, dt):
        must, single, (nested, app) = a
        if path == TABLE + '::merge':
            return [([((), ('v', RES, 'Ok'))], (must, single, ('Ok', app))), ([((), ('v', RES, 'Err')), (ERR0 + (SET,), ('set', frozenset({bi})))], (must | {bi}, single, ('Err', app)))]
        vec = bool(c.argtys) and (c.argtys[0].mentions(VALUE) or c.argtys[0].peel().d is not None and c.argtys[0].peel().d.path == ARRAY)
        if l in ('pop', 'remove', 'swap_remove', 'next', 'next_back', 'pop_if') and vec and dt is not None:
            if self.once(X, bi, c, env): return [([((), ('v', OPT, 'Some')), (SOME0, ('v', VALUE, 'Table'))] if is_opt(dt) else [((), ('v', VALUE, 'Table'))], a)]
        if l in ('last_mut', 'last', 'first_mut', 'first', 'get_mut', 'next_back') and vec and dt is not None and is_opt(dt):
            if l.startswith('first'): self.first = True
            return [([((), ('v', OPT, 'Some')), (SOME0, ('r', ('V1', ())))] if self.have else [((), ('v', OPT, 'None'))], a)]
        if l in ('is_empty', 'len') and vec: return None
        if l in ('push', 'extend', 'append', 'insert', 'extend_from_slice') and vec: return [([], (must, single, (nested, True)))]
    def once(self, X, bi, c, env): return 'Value' in c.argtys[0].s
    def on_ret(self, X, bi, env, a):
        r = EM.on_ret(self, X, bi, env, a)
        if isinstance(r, str): return r
        v = None
        for l in X.F.ret_locals:
            w = X.variant_at(env, (l, ()))
            if w is not None and w[0] == 'v': v = w[2]
        return (v,) + a[2]

def is_opt(t): return t is not None and t.d is not None and t.d.path == OPT

def arrays(ck, prog):
    fn = next((f for f in prog.fns if f.path == ARRAY + '::merge'), None)
    if not ck.need(fn, 'Array::merge', 'puts two arrays together'): return
    F = Flat(prog, fn, lambda g, fr, c: g.kind == 'closure' or g.crate.name == 'tombi_document_tree' and g.path.startswith(ARRAY) and g.path.rsplit('::', 1)[-1] not in ('push', 'extend', 'merge', 'last', 'first'))
    for k1 in ('ArrayOfTable', 'ParentArrayOfTable'):
        for k2 in ('ArrayOfTable', 'ParentArrayOfTable'):
            for have in (True, False):
                m = AM(have); X = DX(F, m, cap=60, max_states=60000)
                env = {(1, ()): ('r', ('SELF', ())), ('SELF', (('f', 'kind'),)): ('v', AK, k1), (2, (('f', 'kind'),)): ('v', AK, k2), ('V1', ()): ('v', VALUE, 'Table')}
                X.run(env); ck.count('states', X.states); ck.count('merges')
                key = 'arrays:%s:%s' % (k1, k2)
                txt = 'a header goes through an array of tables' if k2 != 'ArrayOfTable' else 'another element of an array of tables is defined'
                for st, msg, bi, line in X.bad[:1]: ck.ob(False, key, 'Array::merge: %s: %s (%s)' % (txt, msg, ' ; '.join(X.witness(st, 4))))
                o = outcomes(X)
                if not o or any(v[0] is None for v in o): ck.notes.append(key + ' not decided'); ck.count('undecided'); continue
                for (v, n, app), st in o.items():
                    w = ' ; '.join(X.witness(st, 4))
                    if k2 == 'ParentArrayOfTable' and have:
                        ck.ob(n is not None and not app, key, 'Array::merge: %s: %s (%s)' % (txt, 'its contents become another element' if app else 'its contents are lost', w), sample='%s: merged into the last element' % txt)
                        ck.ob(n is None or (v == n), key, 'Array::merge: %s, and %s (%s)' % (txt, 'an error is returned' if v == 'Err' else 'an error is dropped', w))
                    else:
                        ck.ob(app and n is None, key, 'Array::merge: %s: %s (%s)' % (txt, 'it is merged into an element that is already there' if n else 'it is lost', w), sample='%s: appended' % txt)
                        ck.ob(v == 'Ok', key, 'Array::merge: %s, and an error is returned (%s)' % (txt, w))
                ck.ob(not m.first, key + ':first', 'Array::merge: %s: the first element is taken instead of the last' % txt)

# ---------------------------------------------------------------- headers, kinds, items
def builder(prog, ast, out=None):
    return next((f for f in prog.fns if f.kind == 'assoc' and re.match(re.escape(DT) + r'[\w:]*<impl .*IntoDocumentTreeAndErrors<.*> for tombi_ast::(\w+::)*%s>::into_document_tree_and_errors$' % ast, f.path)), None)

class HM(EM):
    """How a header, a key-value or an inline table becomes tables.
    astate third: (parts popped, what `contains` said, child not yet used)"""
    init = (frozenset(), frozenset(), (0, None, None, None))
    def __init__(self, kind, base): EM.__init__(self); self.kind = kind; self.base = base; self.seen = set(); self.kinds = set()
    def special(self, X, bi, c, env, argv, a, l, path, dt):
        must, single, (n, cur, con, child) = a
        def at(n=n, cur=cur, con=con, child=child): return (must, single, (n, cur, con, child))
        if dt is not None and dt.d is not None and dt.d.path == DTE:
            what = dt.args[0].s if dt.args else ''
            if what.endswith(('Table', 'Value', 'tombi_document_tree::Table>')) and not what.startswith('alloc'):
                if child is not None: return [([], '!a part of the document is converted and then left out')]
                self.seen.add('child')
                return [([((('f', 'errors'), SET), ('set', frozenset()))] + ([((('f', 'tree'), ('f', 'kind')), ('v', TK, 'KeyValue'))] if what.endswith('::Table') else []), at(child=c.line))]
            return [([((('f', 'errors'), SET), ('set', frozenset()))], a)]
        if path == TABLE + '::merge':
            k = X.look(bi, env, (argv[0][1][0], argv[0][1][1] + (('f', 'kind'),))) if argv[0] is not None and argv[0][0] == 'r' else None
            k = k[2] if k is not None and k[0] == 'v' else None
            self.seen.add('merge:%s' % k)
            if k is not None and k != self.base: return [([], '!the keys of %s are merged into it as %s' % (self.kind, NAME[group(k)]))]
            return [([((), ('v', RES, 'Ok'))], at(child=None))]
        if path == TABLE + '::insert':
            t = dict(X.optree(bi, env, c.args[0])); k = t.get((('f', 'kind'),))
            return [([((), ('v', RES, 'Ok'))] + ([(OK0 + (('f', 'kind'),), k)] if k is not None else []), at(child=None))]
        if l in ('push', 'extend', 'insert') and c.argtys and not errvec(c.argtys[0]) and (c.argtys[0].mentions(VALUE) or c.argtys[0].mentions(ARRAY) or c.argtys[0].peel().d is not None and c.argtys[0].peel().d.path == ARRAY): return [([], at(child=None))]
        if l == 'pop' and c.argtys and c.argtys[0].mentions(KEY):
            if n < 0: return [([((), ('v', OPT, 'None'))], a)]
            return [([((), ('v', OPT, 'Some'))], at(n=min(n + 1, 3), cur=con, con=None))] + ([([((), ('v', OPT, 'None'))], at(n=-1))] if n else [])
        if l == 'next' and c.argtys and 'Rev' in c.argtys[0].s and c.argtys[0].mentions(KEY):
            return [([((), ('v', OPT, 'Some'))], at(n=min(n + 1, 3))), ([((), ('v', OPT, 'None'))], a)]
        if l in ('contains', 'any') and c.argtys and c.argtys[0].mentions(KEY):
            return [([((), T)], at(con=True)), ([((), F_)], at(con=False))]
        if path.endswith(('::insert_table', '::insert_array_of_tables')):
            arr = path.endswith('tables')
            mk = argv[2] if arr and len(argv) > 2 else None
            ak = self.made(X.prog, mk[1]) if mk is not None and mk[0] in ('fn', 'clo') else None
            if n == 1: want = None if self.kind == 'table' else 'ArrayOfTable'
            else:
                if cur is None: return [([], '!a part of the header is inserted without asking whether it is an array of tables')]
                want = 'ParentArrayOfTable' if cur else None
            got = ak if arr else None
            self.seen.add((min(n, 2), want))
            if arr and ak is None: self.und.add('constructor'); return [([((), ('v', RES, 'Ok'))], a)]
            if got != want: return [([], '!%s of the header is inserted as %s instead of %s' % ('the last part' if n == 1 else 'an earlier part', got or 'a table', want or 'a table'))]
            return [([((), ('v', RES, 'Ok'))], a)]
    def made(self, prog, path):
        f = next((x for x in prog.fns if x.path == path), None)
        if f is None: return None
        ks = {s[2][3] and dict(zip(s[2][3], s[2][5])).get('kind') for b in f.blocks for s in b.stmts if s[0] == '=' and s[2][0] == 'agg' and s[2][2] is not None and s[2][1] == 'adt' and s[2][2] and s[2][3] and 'kind' in s[2][3]}
        F = Flat(prog, f, policy(f)); X = DX(F, EM(), cap=40); X.m.on_ret = lambda X_, bi, env, a: tuple(sorted({env.get((l, (('f', 'kind'),)), None)[2] for l in X_.F.ret_locals if env.get((l, (('f', 'kind'),))) is not None}))
        X.run()
        out = {a for a, _ in X.final}
        return next(iter(out))[0] if len(out) == 1 and next(iter(out)) else None
    def on_ret(self, X, bi, env, a):
        must, single, (n, cur, con, child) = a
        if child is not None: return '!a part of the document is converted and then left out'
        for l in X.F.ret_locals:
            t = X.F.ltys[l]
            if t.d is None or t.d.path != DTE: continue
            for pre in ((('f', 'tree'), ('f', 'kind')), (('f', 'tree'), ('d', 'Table'), ('f', '0'), ('f', 'kind')), (('f', 'tree'), ('d', 'Array'), ('f', '0'), ('f', 'kind'))):
                v = env.get((l, pre))
                if v is not None and v[0] == 'v': self.kinds.add((v[2], n))
        return 0

def shapes(ck, prog):
    for ast, kind, base in (('Root', 'the root', 'Root'), ('Table', 'table', 'Table'), ('ArrayOfTable', 'array', 'Table'), ('KeyValue', 'a key-value', None), ('InlineTable', 'an inline table', 'Table'), ('Array', 'an array', None)):
        fn = builder(prog, ast)
        if not ck.need(fn, 'builder of ' + ast, 'converts a part of the syntax tree'): continue
        stop = ('insert_table', 'insert_array_of_tables')
        pol = policy(fn)
        F = Flat(prog, fn, lambda g, fr, c: pol(g, fr, c) and g.path.rsplit('::', 1)[-1] not in stop and not g.path.startswith(ARRAY + '::push') and not g.path.startswith(ARRAY + '::extend') and 'comment_directives' not in g.path)
        m = HM(kind, base); X = DX(F, m, cap=400, max_states=100000); X.run(); ck.count('states', X.states)
        for st, msg, bi, line in X.bad[:1]: ck.ob(False, 'shape:' + ast, '%s: %s (%s): %s' % (short(fn), msg, F.loc(bi, line), ' ; '.join(X.witness(st, 4))))
        if X.overflow: ck.notes.append('%s: too many states' % short(fn)); ck.count('undecided')
        if not X.bad: ck.ob(True, 'shape:' + ast, '', sample='%s: every part is used, headers are split into tables and arrays of tables' % ast)
        if ast in ('Table', 'ArrayOfTable') and not X.bad:
            need = {(1, None if ast == 'Table' else 'ArrayOfTable'), (2, 'ParentArrayOfTable'), (2, None)}
            if not need <= m.seen: ck.notes.append('%s: the header is not followed (%s)' % (short(fn), sorted(map(str, need - m.seen)))); ck.count('undecided')
        if ast == 'InlineTable':
            ck.ob(all(k == 'InlineTable' for k, _ in m.kinds), 'kind:InlineTable', '%s: an inline table counts as %s' % (short(fn), ', '.join(sorted(NAME[group(k)] for k, _ in m.kinds if k != 'InlineTable'))))
        if ast == 'Array': ck.ob(all(k == 'Array' for k, _ in m.kinds), 'kind:Array', '%s: an array counts as %s' % (short(fn), ', '.join(sorted(k for k, _ in m.kinds))))
        if ast == 'KeyValue':
            for k, n in m.kinds:
                ck.ob(group(k) == 'D' if k in ('Root', 'Table', 'ParentTable', 'InlineTable', 'ParentKey', 'KeyValue') else True, 'kind:KeyValue', '%s: a table made by dotted keys counts as %s' % (short(fn), NAME[group(k)]))
        if ast in ('InlineTable', 'Array', 'KeyValue') and not m.kinds: ck.notes.append('%s: kind not decided' % short(fn)); ck.count('undecided')
        ck.count('builders_followed')
    # what stands around a part of a header
    for name, want in (('insert_table', 'Table'), ('insert_array_of_tables', 'Array')):
        fn = next((f for f in prog.fns if f.path == DT + 'value::table::' + name), None)
        if fn is None: ck.notes.append('%s: not found' % name); continue
        F = Flat(prog, fn, policy(fn)); m = IM(); X = DX(F, m, cap=60)
        X.run({(1, ()): ('r', ('SELF', ())), ('SELF', (('f', 'kind'),)): ('v', TK, 'Table')}); ck.count('states', X.states)
        for o in m.got:
            ck.ob(o[0] in ('ParentTable', None) and o[1] in (want, None), 'around:' + name, '%s: %s is put into %s' % (name, 'a ' + str(o[1]), NAME[group(o[0])] if o[0] else '?'), sample='%s: around a part of a header stands a table implied by it' % name)
            ck.ob(o[2] in ('Table', None), 'around:%s:inner' % name, '%s: the table of the header counts as %s' % (name, NAME[group(o[2])] if o[2] else '?'))
        if not m.got: ck.notes.append('%s not decided' % name)

class IM(EM):
    def __init__(self): EM.__init__(self); self.got = set()
    def special(self, X, bi, c, env, argv, a, l, path, dt):
        if path == TABLE + '::insert':
            t = dict(X.optree(bi, env, c.args[0])); k = t.get((('f', 'kind'),)); w = dict(X.optree(bi, env, c.args[2]))
            v = w.get(()); ik = w.get((('d', 'Table'), ('f', '0'), ('f', 'kind')))
            self.got.add((k[2] if k is not None and k[0] == 'v' else None, v[2] if v is not None and v[0] == 'v' else None, ik[2] if ik is not None and ik[0] == 'v' else None))
            return [([((), ('v', RES, 'Ok'))], a)]

def keys(ck, prog):
    """Two keys are the same if they denote the same text, however they are written."""
    n = 0
    for f in prog.fns:
        if f.crate.name != 'tombi_document_tree' or f.kind == 'closure': continue
        l = f.path.rsplit('::', 1)[-1]
        if not (re.fullmatch(r'<&?%s as core::(cmp::PartialEq|hash::Hash)>::(eq|hash)' % re.escape(KEY), f.path) or l == 'equivalent' and 'Equivalent<%s>' % KEY in f.path): continue
        read = set()
        for b in f.blocks:
            for s in b.stmts:
                if s[0] != '=': continue
                for pl in places(s[2]):
                    for i, e in enumerate(pl[1]):
                        if e != '*' and e[0] == 'f' and owner(f, pl, i) == KEY: read.add(str(e[1]))
            if b.term[0] == 'call':
                d = b.term[1].callee
                if d is not None and d.path.startswith(KEY + '::') or d is not None and '<%s as tombi_document_tree::' % KEY in d.path: read.add(d.path.rsplit('::', 1)[-1])
                for a in b.term[1].args:
                    if a[0] != 'const':
                        for i, e in enumerate(a[1][1]):
                            if e != '*' and e[0] == 'f' and owner(f, a[1], i) == KEY: read.add(str(e[1]))
        n += 1
        ck.ob(read <= {'value'}, 'keys:' + l, '%s: keys are compared by %s instead of the text they denote' % (f.path, ', '.join(sorted(read))), sample='%s uses the text a key denotes' % f.path.replace(DT, ''))
    ck.floor('key_identity', n, 3)

def owner(f, pl, k):
    t = f.ltys[pl[0]]
    for e in pl[1][:k]:
        if e == '*': t = t.args[0] if t is not None and t.args else None
        elif e[0] == 'f': t = e[2]
        elif e[0] == 'd': pass
        else: t = t.args[0] if t is not None and t.args else None
    return t.d.path if t is not None and t.d is not None else None
def places(r):
    k = r[0]
    if k in ('ref', 'refmut', 'raw', 'fakeref', 'discr'): return [r[1]]
    if k in ('use', 'repeat'): return [r[1][1]] if r[1][0] != 'const' else []
    if k == 'cast': return [r[2][1]] if r[2][0] != 'const' else []
    if k == 'bin': return [o[1] for o in r[2:4] if o[0] != 'const']
    if k == 'agg': return [o[1] for o in r[5] if o[0] != 'const']
    return []

def check(ck):
    prog = ck.prog
    kept(ck, prog); tables(ck, prog); arrays(ck, prog); shapes(ck, prog); keys(ck, prog)
    ck.rule('defining a key or table again => error, unless TOML lets the two definitions be combined; then combined without error; errors of the parts are errors of the whole')
