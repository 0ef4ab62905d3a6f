"""Whole-program facts: loading, normalisation, call graph."""
import glob, json, os, sys, hashlib

class Ty:
    __slots__ = ('s', 'k', 'd', 'args')
    def __init__(self, s, k): self.s = s; self.k = k; self.d = None; self.args = ()
    def __repr__(self): return self.s
    def peel(self):
        t = self
        while t.k in ('ref', 'refmut', 'ptr') and t.args: t = t.args[0]
        return t
    def mentions(self, path):
        seen = set(); st = [self]
        while st:
            t = st.pop()
            if id(t) in seen: continue
            seen.add(id(t))
            if t.d is not None and t.d.path == path: return True
            st.extend(t.args)
        return False

class Def:
    __slots__ = ('h', 'path', 'crate', 'fn', 'tail')
    def __init__(self, h, path, crate): self.h = h; self.path = path; self.crate = crate; self.fn = None
    def __repr__(self): return self.path

class Const:
    """A constant operand: function item, literal, or named constant."""
    __slots__ = ('fn', 'res', 'virt', 'tr', 'args', 'ty', 'v', 's', 'cd', 'ct', 'st')
    def __init__(self): self.fn = self.res = self.ty = self.v = self.s = self.cd = self.ct = self.st = None; self.virt = False; self.tr = False; self.args = ()
    def __repr__(self):
        if self.fn: return 'fn ' + (self.res or self.fn).path
        if self.s is not None: return repr(self.s)
        if self.cd: return 'const ' + self.cd.path + ('=' + self.v if self.v is not None else '')
        return 'const ' + str(self.v if self.v is not None else self.ct if self.ct is not None else self.ty)

class Block:
    __slots__ = ('stmts', 'term')

class Call:
    __slots__ = ('func', 'args', 'dest', 'target', 'line', 'exp', 'argtys')
    @property
    def callee(self):
        """Def of the best-known callee (resolved if possible) or None."""
        if self.func[0] == 'const' and self.func[1].fn: return self.func[1].res or self.func[1].fn
        return None
    @property
    def decl(self):
        if self.func[0] == 'const' and self.func[1].fn: return self.func[1].fn
        return None

class Fn:
    def __init__(self, prog, crate, raw):
        self.prog = prog; self.crate = crate; self.raw = raw
        self.d = crate.defs[raw['d']]
        self.path = self.d.path
        self.kind = raw['k']
        self.file = raw['file']; self.lo = raw['lo']; self.hi = raw['hi']
        self.caps = raw['caps']
        self.is_async = bool(raw['async'])
        self.pub = bool(raw['vis'])
        self.exp = bool(raw['exp'])
        self.par = crate.defs[raw['par']] if raw['par'] >= 0 else None
        self.root = crate.defs[raw['root']]
        self.ti = crate.defs[raw['ti']] if raw['ti'] >= 0 else None
        self.trait = crate.defs[raw['trait']] if raw['trait'] >= 0 else None
        self.st = crate.tys[raw['st']] if raw['st'] >= 0 else None
        self.attrs = raw['attrs']
        self._b = None
        self.ac = raw['ac']
    def __repr__(self): return self.path
    @property
    def name(self):
        return self.path.rsplit('::', 1)[-1]
    def load(self):
        if self._b is None:
            c = self.crate
            self._lt = [c.tys[l[0]] for l in self.raw['locals']]
            self._ln = [l[1] if len(l) > 1 else None for l in self.raw['locals']]
            self._b = [c.block(b) for b in self.raw['bbs']]
        return self._b
    @property
    def blocks(self): return self.load()
    @property
    def ltys(self): self.load(); return self._lt
    @property
    def lnames(self): self.load(); return self._ln
    def calls(self):
        """All (bb index, Call) in non-cleanup blocks."""
        for i, b in enumerate(self.blocks):
            if b.term[0] == 'call': yield i, b.term[1]
    def loc(self, line=None): return f"{self.file}:{line or self.lo}"

class Adt:
    def __init__(self, crate, raw):
        self.d = crate.defs[raw['d']]; self.path = self.d.path; self.kind = raw['k']
        self.file = raw['file']; self.lo = raw['lo']; self.attrs = raw['attrs']
        # variants: name, discr, [(field, Ty, attrs)], attrs
        self.variants = [(v[0], v[1], [(f[0], crate.tys[f[1]], f[2]) for f in v[2]], v[3]) for v in raw['vs']]
        self.crate = crate.name
    def by_discr(self, val):
        for v in self.variants:
            if v[1] == val: return v[0]
        return None
    def fields(self): return self.variants[0][2]

class Crate:
    def __init__(self, prog, data):
        self.name = data['crate']; self.kind = data['kind']; self.files = data['files']
        self.bin = 'Executable' in self.kind
        self.defs = []
        for h, p, k in data['defs']:
            d = prog.defs.get(h)
            if d is None:
                d = Def(h, p, k); prog.defs[h] = d
            self.defs.append(d)
        raw = data['tys']
        self.tys = [Ty(t[0], t[1]) for t in raw]
        for t, r in zip(self.tys, raw):
            if r[2] >= 0: t.d = self.defs[r[2]]
            t.args = tuple(self.tys[a] for a in r[3])
        self.fns = [Fn(prog, self, f) for f in data['fns']]
        self.adts = [Adt(self, a) for a in data['adts']]
        self.impls = [dict(d=self.defs[i['d']], st=self.tys[i['st']], tr=self.defs[i['tr']] if i['tr'] >= 0 else None,
                           ta=[self.tys[t] for t in i['ta']],
                           items=[(self.defs[a], self.defs[b] if b >= 0 else None) for a, b in i['items']]) for i in data['impls']]
        self.traits = [dict(d=self.defs[i['d']], items=[(self.defs[a], b) for a, b in i['items']]) for i in data['traits']]
    def place(self, p):
        pr = []
        for e in p[1:]:
            if e == '*': pr.append('*')
            elif e[0] == 'f': pr.append(('f', e[1], self.tys[e[2]]))
            elif e[0] == 'd': pr.append(('d', e[1]))
            elif e[0] == 'i': pr.append(('i', e[1]))
            else: pr.append(tuple(e))
        return (p[0], tuple(pr))
    def const(self, o):
        c = Const()
        if 'fn' in o:
            c.fn = self.defs[o['fn']]; c.res = self.defs[o['r']] if o['r'] >= 0 else None
            c.virt = bool(o['v']); c.tr = bool(o['tr'])
            c.args = tuple(self.tys[a] for a in o['a'])
        else:
            c.ty = self.tys[o['t']]
            c.v = o.get('v'); c.s = o.get('s'); c.ct = o.get('ct'); c.st = o.get('st')
            if 'cd' in o: c.cd = self.defs[o['cd']]
        return c
    def op(self, o):
        if 'c' in o: return ('copy', self.place(o['c']))
        if 'm' in o: return ('move', self.place(o['m']))
        return ('const', self.const(o))
    def rv(self, r):
        k = r[0]
        if k in ('use', 'repeat'): return (k, self.op(r[1]))
        if k in ('ref', 'refmut', 'fakeref', 'raw', 'discr'): return (k, self.place(r[1]))
        if k == 'tls': return (k, self.defs[r[1]])
        if k == 'cast': return (k, r[1], self.op(r[2]), self.tys[r[3]])
        if k == 'bin': return (k, r[1], self.op(r[2]), self.op(r[3]))
        if k == 'un': return (k, r[1], self.op(r[2]))
        if k == 'agg':
            return (k, r[1], self.defs[r[2]] if r[2] >= 0 else None, r[3], tuple(r[4]) if r[1] != 'tuple' else tuple(str(i) for i in range(len(r[5]))), tuple(self.op(o) for o in r[5]))
        raise Exception(k)
    def block(self, b):
        B = Block(); B.stmts = []
        for s in b['s']:
            if s[0] == '=': B.stmts.append(('=', self.place(s[1]), self.rv(s[2]), s[3]))
            elif s[0] == 'sd': B.stmts.append(('sd', self.place(s[1]), s[2]))
            else: B.stmts.append((s[0], s[1]))
        t = b['t']; k = t[0]
        if k == 'call':
            c = Call(); c.func = self.op(t[1]); c.args = [self.op(a) for a in t[2]]; c.dest = self.place(t[3])
            c.target = t[4] if t[4] >= 0 else None; c.line = t[5]; c.exp = t[6]; c.argtys = [self.tys[a] for a in t[7]]
            B.term = ('call', c)
        elif k == 'goto': B.term = ('goto', t[1])
        elif k == 'switch':
            B.term = ('switch', self.op(t[1]), [(v, bb) for v, bb in t[2]], t[3], self.tys[t[4]], t[5])
        elif k == 'drop': B.term = ('drop', self.place(t[1]), t[2], t[3])
        elif k == 'assert': B.term = ('assert', self.op(t[1]), t[2], t[3], t[4], t[5])
        elif k == 'yield': B.term = ('yield', self.op(t[1]), t[2], self.place(t[3]), t[4])
        else: B.term = (k,)
        return B

def succs(term):
    k = term[0]
    if k == 'goto': return [term[1]]
    if k == 'call': return [term[1].target] if term[1].target is not None else []
    if k == 'switch': return [b for _, b in term[2]] + [term[3]]
    if k in ('drop',): return [term[2]]
    if k == 'assert': return [term[4]]
    if k == 'yield': return [term[2]]
    if k == 'fork': return list(term[1])
    return []

class Prog:
    def __init__(self, facts_dir):
        self.defs = {}
        self.crates = []
        self.adts = {}
        for f in sorted(glob.glob(os.path.join(facts_dir, '*.json'))):
            with open(f) as fh: data = json.load(fh)
            self.crates.append(Crate(self, data))
        self.fns = []
        self.by_path = {}
        for c in self.crates:
            for f in c.fns:
                if f.d.fn is not None:   # lib+bin of the same crate: keep both by path
                    pass
                f.d.fn = f
                self.fns.append(f)
                self.by_path.setdefault(f.path, []).append(f)
            for a in c.adts: self.adts[a.path] = a
        self.impl_of = {}   # trait item Def -> [(impl item Def, self Ty)]
        self.impls = []
        self.trait_items = {}
        for c in self.crates:
            for i in c.impls:
                self.impls.append((c, i))
                for a, b in i['items']:
                    if b is not None: self.impl_of.setdefault(b, []).append((a, i['st']))
            for t in c.traits:
                for a, dflt in t['items']: self.trait_items[a] = (t['d'], dflt)
        self.children = {}
        for f in self.fns:
            if f.kind in ('closure', 'coroutine') and f.par is not None:
                self.children.setdefault(f.par, []).append(f)
        self._edges = {}
    # --- lookup -----------------------------------------------------------
    def fn(self, path):
        """Unique function with this exact path, or None."""
        l = self.by_path.get(path, [])
        return l[0] if len(l) == 1 else (l[0] if l else None)
    def find(self, suffix):
        return [f for f in self.fns if f.path == suffix or f.path.endswith('::' + suffix)]
    def body_of(self, f):
        """For an async fn: the coroutine body; otherwise itself."""
        if f.is_async:
            for ch in self.children.get(f.d, []):
                if ch.kind == 'coroutine': return ch
        return f
    def outer(self, f):
        """Enclosing named function of a closure/coroutine."""
        r = f.root.fn
        return r if r is not None else f
    # --- call graph -------------------------------------------------------
    def callees_of_const(self, c):
        """Workspace bodies a function constant may run, CHA for unresolved trait calls."""
        out = []
        if c.res is not None:
            out.append(c.res)
            if c.res.fn is None and c.fn is not c.res: pass
        elif c.fn is not None:
            if c.tr or c.virt:
                out.extend(a for a, _ in self.impl_of.get(c.fn, []))
                out.append(c.fn)
            else: out.append(c.fn)
        # call through Fn*/Future traits on closure types
        for t in c.args[:1]:
            t = t.peel()
            if t.k in ('closure', 'coroutine') and t.d is not None: out.append(t.d)
            if t.k == 'adt' and t.s.startswith('core::pin::Pin<'):
                u = t.args[0].peel() if t.args else None
                if u is not None and u.k == 'coroutine': out.append(u.d)
        return out
    def edges(self, f):
        """[(Def callee, line, kind)] kinds: call, ref (closure/fn value mentioned)."""
        e = self._edges.get(f)
        if e is not None: return e
        e = []
        def op_refs(o, line):
            if o[0] == 'const' and o[1].fn is not None:
                for d in self.callees_of_const(o[1]): e.append((d, line, 'ref'))
        for b in f.blocks:
            for s in b.stmts:
                if s[0] != '=': continue
                rv = s[2]
                if rv[0] == 'agg':
                    if rv[1] in ('closure', 'coroutine', 'coroclosure'): e.append((rv[2], s[3], 'ref'))
                    for o in rv[5]: op_refs(o, s[3])
                elif rv[0] in ('use', 'repeat'): op_refs(rv[1], s[3])
                elif rv[0] == 'cast': op_refs(rv[2], s[3])
            t = b.term
            if t[0] == 'call':
                c = t[1]
                if c.func[0] == 'const':
                    for d in self.callees_of_const(c.func[1]): e.append((d, c.line, 'call'))
                    # generic callee instantiated with function items/closures
                    for ty in c.func[1].args:
                        if ty.k == 'fndef' and ty.d is not None: e.append((ty.d, c.line, 'ref'))
                for a in c.args: op_refs(a, c.line)
        self._edges[f] = e
        return e
    def reach(self, roots, stop=None):
        """Workspace functions reachable from roots: {Fn: (caller Fn, line) or None}. stop(Def)->bool cuts."""
        seen = {}
        st = []
        for r in roots:
            seen[r] = None; st.append(r)
        while st:
            f = st.pop()
            for d, line, k in self.edges(f):
                if stop and stop(d): continue
                g = d.fn
                if g is not None and g not in seen:
                    seen[g] = (f, line); st.append(g)
        return seen
    def chain(self, seen, f):
        out = [f]
        while seen.get(f): f = seen[f][0]; out.append(f)
        return [x.path for x in reversed(out)]
    def callers(self):
        if not hasattr(self, '_callers'):
            m = {}
            for f in self.fns:
                for d, line, k in self.edges(f): m.setdefault(d, []).append((f, line, k))
            self._callers = m
        return self._callers
    def call_sites(self, pred, fns=None):
        """All call terminators whose callee satisfies pred(Def): (Fn, bb, Call)."""
        for f in (fns or self.fns):
            for i, c in f.calls():
                for d in (c.callee, c.decl):
                    if d is not None and pred(d):
                        yield f, i, c
                        break
