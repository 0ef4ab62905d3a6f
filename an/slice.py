"""Backward provenance slices: which constants, fields, calls and parameters a
value may be computed from.  Flow-insensitive, field-sensitive, interprocedural
through callee return values."""
from .facts import Call

class Tok(tuple):
    """('field', owner, name) ('call', path) ('const', v) ('str', s) ('param', fnpath, i, name) ('named', path) ('agg', adt, variant)"""

def npr(pr): return tuple(e if e == '*' else (e[0], str(e[1])) if e[0] in ('f', 'd') else ('i',) for e in pr)

class Graph:
    """Uniform view of a Fn or Flat."""
    def __init__(self, g):
        self.g = g
        self.blocks = g.blocks; self.ltys = g.ltys; self.lnames = g.lnames
        self.defs = {}
        for bi, b in enumerate(self.blocks):
            for s in b.stmts:
                if s[0] == '=': self.defs.setdefault(s[1][0], []).append((bi, s))
            if b.term[0] == 'call':
                c = b.term[1]
                self.defs.setdefault(c.dest[0], []).append((bi, c))
        # values written through &mut arguments
        self.mutcalls = {}
        borrow = {}
        for bi, b in enumerate(self.blocks):
            for s in b.stmts:
                if s[0] == '=' and s[2][0] in ('refmut',) and not s[1][1]: borrow[s[1][0]] = s[2][1]
        for bi, b in enumerate(self.blocks):
            if b.term[0] == 'call':
                c = b.term[1]
                for a, t in zip(c.args, c.argtys):
                    if a[0] != 'const' and t.k == 'refmut':
                        l = a[1][0]; n = 0
                        while l in borrow and n < 6:
                            p = borrow[l]; l = p[0]; n += 1
                            if p[1] and p[1][0] != '*': break
                        self.mutcalls.setdefault(l, []).append((bi, c))

class Slicer:
    def __init__(self, prog, follow=True, max_depth=6, through_mut=False, stop_call=None, ok_only=False):
        self.ok_only = ok_only
        self.prog = prog; self.follow = follow; self.max_depth = max_depth
        self.through_mut = through_mut; self.stop_call = stop_call
        self._g = {}; self._ret = {}
    def graph(self, g):
        r = self._g.get(id(g))
        if r is None: r = (Graph(g), g); self._g[id(g)] = r
        return r[0]
    def base_adt(self, G, place, k):
        t = G.ltys[place[0]]
        for e in place[1][:k]:
            if e == '*': t = t.args[0] if t is not None and t.args else None
            elif e[0] == 'f': t = e[2]
            elif e[0] == 'd': pass
            else: t = t.args[0] if t is not None and t.args else None
        return t.d.path if t is not None and t.d is not None else None
    def place(self, g, place, depth=0):
        """Tokens for a place of graph g (Fn or Flat)."""
        out = set(); self._walk_place(g, place, out, set(), depth); return out
    def operand(self, g, o, depth=0):
        out = set(); self._walk_op(g, o, out, set(), depth); return out
    def ret(self, fn, depth=0):
        """Tokens of a function's return value."""
        if fn in self._ret: return self._ret[fn]
        self._ret[fn] = set()
        out = set(); self._walk_place(fn, (0, ()), out, set(), depth)
        self._ret[fn] = out
        return out
    def _const(self, c, out):
        if c.fn is not None: out.add(('fn', (c.res or c.fn).path))
        elif c.s is not None: out.add(('str', c.s))
        elif c.cd is not None:
            out.add(('named', c.cd.path))
            if c.v is not None: out.add(('const', c.v))
        elif c.v is not None: out.add(('const', c.v))
        else: out.add(('const', str(c.ct or c.ty)))
    def _walk_op(self, g, o, out, seen, depth):
        if o[0] == 'const': self._const(o[1], out); return
        self._walk_place(g, o[1], out, seen, depth)
    def _fields(self, G, place, out):
        for i, e in enumerate(place[1]):
            if e != '*' and e[0] == 'f':
                if str(e[1]).startswith('^'): out.add(('upvar', str(e[1])[1:]))
                else: out.add(('field', self.base_adt(G, place, i), str(e[1])))
    def _walk_place(self, g, place, out, seen, depth):
        G = self.graph(g)
        l, pr = place
        self._fields(G, place, out)
        q = npr(tuple(e for e in pr if e != '*'))
        key = (id(g), l, q)
        if key in seen: return
        seen.add(key)
        ds = G.defs.get(l, [])
        hit = False
        for bi, s in ds:
            if isinstance(s, Call):
                dq = npr(tuple(e for e in s.dest[1] if e != '*'))
                if dq[:len(q)] == q or q[:len(dq)] == dq:
                    hit = True; self._walk_call(g, G, bi, s, q[len(dq):], out, seen, depth)
                continue
            dq = npr(tuple(e for e in s[1][1] if e != '*'))
            if dq[:len(q)] == q: rest = ()
            elif q[:len(dq)] == dq: rest = q[len(dq):]
            else: continue
            hit = True
            self._walk_rv(g, G, s, rest, out, seen, depth)
        if self.through_mut:
            for bi, c in G.mutcalls.get(l, []):
                if callable(self.through_mut) and not self.through_mut(c): continue
                d = c.callee
                if d is not None: out.add(('mut', d.path))
                for a in c.args: self._walk_op(g, a, out, seen, depth)
        if not ds:
            fn = g if hasattr(g, 'ac') else None
            root = getattr(g, 'root_fn', None)
            if root is not None and 1 <= l <= root.ac: out.add(('param', root.path, l, root.lnames[l]))
            if fn is not None and 1 <= l <= fn.ac and fn.kind != 'coroutine':
                out.add(('param', fn.path, l, G.lnames[l]))
                ty = G.ltys[l]
    def _addproj(self, p, rest):
        return (p[0], tuple(p[1]) + tuple(('f', e[1], None) if e[0] == 'f' else e for e in rest))
    def _walk_rv(self, g, G, s, rest, out, seen, depth):
        r = s[2]; k = r[0]
        if k in ('use', 'repeat', 'cast', 'un'):
            o = r[1] if k in ('use', 'repeat') else r[2]
            if o[0] == 'const': self._const(o[1], out)
            else: self._walk_place(g, self._addproj(o[1], rest), out, seen, depth)
            if k == 'un' : out.add(('op', r[1]))
            if k == 'cast': out.add(('cast', r[3].s))
        elif k in ('ref', 'refmut', 'fakeref', 'raw'):
            self._walk_place(g, self._addproj(r[1], rest), out, seen, depth)
        elif k == 'discr':
            self._walk_place(g, r[1], out, seen, depth)
        elif k == 'bin':
            out.add(('op', r[1]))
            self._walk_op(g, r[2], out, seen, depth); self._walk_op(g, r[3], out, seen, depth)
        elif k == 'agg':
            if r[1] == 'adt' and r[2] is not None: out.add(('agg', r[2].path, r[3]))
            if r[1] in ('closure', 'coroutine') and r[2] is not None:
                out.add(('closure', r[2].path))
            q = rest
            if q and q[0][0] == 'd':
                if r[3] is not None and q[0][1] != str(r[3]): return
                q = q[1:]
            if q and q[0][0] == 'f':
                for n, o in zip(r[4], r[5]):
                    if str(n) == q[0][1]:
                        if o[0] == 'const': self._const(o[1], out)
                        else: self._walk_place(g, self._addproj(o[1], q[1:]), out, seen, depth)
                return
            for o in r[5]: self._walk_op(g, o, out, seen, depth)
        elif k == 'hof':
            c = r[1]
            if c.callee is not None: out.add(('call', c.callee.path))
            for a in c.args: self._walk_op(g, a, out, seen, depth)
    def _walk_call(self, g, G, bi, c, rest, out, seen, depth):
        d = c.callee
        if d is not None:
            out.add(('call', d.path))
            if c.decl is not d: out.add(('call', c.decl.path))
            if self.stop_call is not None and self.stop_call(d.path): return
            if self.ok_only and d.path.endswith('from_residual'): return
            cands = []
            if self.follow and depth < self.max_depth:
                if d.fn is not None: cands = [d.fn]
                elif c.func[0] == 'const' and (c.func[1].tr or c.func[1].virt) and c.func[1].res is None:
                    cands = [a.fn for a, _ in self.prog.impl_of.get(c.decl, []) if a.fn is not None]
                    if len(cands) > 6: cands = []
            for f in cands:
                b = f
                for t in self.ret(f, depth + 1):
                    if t[0] != 'param': out.add(t)
                if f.is_async:
                    for t in self.ret(self.prog.body_of(f), depth + 1):
                        if t[0] not in ('param', 'upvar'): out.add(t)
        else: self._walk_op(g, c.func, out, seen, depth)
        for a, t in zip(c.args, c.argtys):
            self._walk_op(g, a, out, seen, depth)
            if t.k == 'closure' and t.d is not None and t.d.fn is not None and depth < self.max_depth:
                for x in self.ret(t.d.fn, depth + 1):
                    if x[0] not in ('param', 'upvar'): out.add(x)
        # poll of an un-inlined coroutine: the coroutine body's return
        if c.decl is not None and c.decl.path == 'core::future::future::Future::poll' and c.argtys:
            t = c.argtys[0]
            while t.args and t.k != 'coroutine': t = t.args[0]
            if t.k == 'coroutine' and t.d is not None and t.d.fn is not None and depth < self.max_depth:
                for x in self.ret(t.d.fn, depth + 1):
                    if x[0] not in ('param', 'upvar'): out.add(x)

    # -- upward: resolve parameters at the call sites ------------------------
    def creators(self, d):
        """(fn, agg stmt) creating closure/coroutine d."""
        if not hasattr(self, '_creators'):
            m = {}
            for f in self.prog.fns:
                for b in f.blocks:
                    for s in b.stmts:
                        if s[0] == '=' and s[2][0] == 'agg' and s[2][1] in ('closure', 'coroutine') and s[2][2] is not None:
                            m.setdefault(s[2][2], []).append((f, s))
            self._creators = m
        return self._creators.get(d, [])
    def callsites(self, d):
        if not hasattr(self, '_callsites'):
            m = {}
            for f in self.prog.fns:
                for bi, c in f.calls():
                    if c.func[0] != 'const': continue
                    for x in self.prog.callees_of_const(c.func[1]): m.setdefault(x, []).append((f, bi, c))
            self._callsites = m
        return self._callsites.get(d, [])
    def up(self, fn, o, skip=None, limit=4000):
        """Tokens of operand o of fn with parameters and captures resolved through all
        call sites.  Unresolvable parameters stay as ('param', ...)."""
        out = set(); done = set(); work = [(fn, o)]; n = 0
        while work and n < limit:
            n += 1
            f, o = work.pop()
            toks = self.operand(f, o)
            for t in toks:
                if t[0] == 'param':
                    pf = self.prog.fn(t[1])
                    key = (t[1], t[2])
                    if key in done: continue
                    done.add(key)
                    if pf is None: out.add(t); continue
                    if pf.kind in ('closure', 'coroutine'):
                        if t[2] == 1: continue
                        out.add(t); continue
                    cs = self.callsites(pf.d)
                    if not cs: out.add(t)
                    for g, bi, c in cs:
                        if skip is not None and skip(g): continue
                        if t[2] - 1 < len(c.args): work.append((g, c.args[t[2] - 1]))
                elif t[0] == 'upvar':
                    key = ('^', f.path, t[1])
                    if key in done: continue
                    done.add(key)
                    for g, s in self.creators(f.d):
                        for nme, x in zip(s[2][4], s[2][5]):
                            if str(nme) == '^' + t[1]: work.append((g, x))
                else: out.add(t)
        return out
