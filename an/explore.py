"""Path-sensitive abstract interpretation of a Flat graph (ESP style).

State = (block, environment of abstract constants / enum variants / references,
automaton state of the property).  Values are joined away (widened) when a block
accumulates too many environments, so exploration always terminates and always
over-approximates the feasible paths."""
from collections import deque
from .facts import Call

STD_VARIANTS = {
    'core::option::Option': ['None', 'Some'],
    'core::result::Result': ['Ok', 'Err'],
    'core::ops::control_flow::ControlFlow': ['Continue', 'Break'],
    'core::task::poll::Poll': ['Ready', 'Pending'],
    'either::Either': ['Left', 'Right'],
    'alloc::borrow::Cow': ['Borrowed', 'Owned'],
}
STD_DISCR = {'core::cmp::Ordering': {'255': 'Less', '-1': 'Less', '0': 'Equal', '1': 'Greater', '18446744073709551615': 'Less'}}

T = ('c', '1'); F_ = ('c', '0')
def cbool(b): return T if b else F_
BAD = object()

def strip(pr):
    return tuple('*' if e == '*' else (e[0], str(e[1])) if e[0] in ('f', 'd') else ('i',) for e in pr)

def variants_of(prog, adt):
    if adt in STD_VARIANTS: return STD_VARIANTS[adt]
    a = prog.adts.get(adt)
    return [v[0] for v in a.variants] if a is not None and a.kind == 'enum' else (None if a is None else [v[0] for v in a.variants])

def discr_to_variant(prog, adt, val):
    if adt in STD_DISCR: return STD_DISCR[adt].get(val)
    if adt in STD_VARIANTS:
        try: return STD_VARIANTS[adt][int(val)]
        except Exception: return None
    a = prog.adts.get(adt)
    return a.by_discr(val) if a is not None else '#' + val

def variant_to_discr(prog, adt, name):
    if adt in STD_DISCR:
        for k, v in STD_DISCR[adt].items():
            if v == name: return k
    if adt in STD_VARIANTS: return str(STD_VARIANTS[adt].index(name))
    a = prog.adts.get(adt)
    if a is not None:
        for v in a.variants:
            if v[0] == name: return v[1]
    if name.startswith('#'): return name[1:]
    return None

def place_ty(F, place):
    """Type of a MIR place (un-stripped), or None."""
    t = F.ltys[place[0]]
    for e in place[1]:
        if e == '*': t = t.args[0] if t is not None and t.args else None
        elif e[0] == 'f': t = e[2]
        elif e[0] == 'd': pass
        else: t = t.args[0] if t is not None and t.args else None
    return t

def base_adt(F, place, k):
    """ADT path of the object whose field is projection k of place."""
    t = F.ltys[place[0]]
    for e in place[1][:k]:
        if e == '*': t = t.args[0] if t is not None and t.args else None
        elif e[0] == 'f': t = e[2]
        elif e[0] == 'd': pass
        else: t = t.args[0] if t is not None and t.args else None
    return t.d.path if t is not None and t.d is not None else None

class Model:
    """Property hooks.  Override what is needed."""
    init = 0
    def read(self, X, bi, place, owner):
        """Assumed value of a (resolved) place being read, or None.  owner: path of
        the ADT whose field the last projection selects."""
        return None
    def discr(self, X, bi, place, adt):
        """Assumed variant of an enum being matched on, or None."""
        return None
    def call(self, X, bi, call, env, argv):
        """Assumed result of an opaque call: a value, or None."""
        return None
    def call_alts(self, X, bi, call, env, argv, a):
        """Alternatives of an opaque call: [(tree of the result, automaton state)], or None."""
        return None
    def on_call(self, X, bi, call, env, argv, a): return a
    def on_stmt(self, X, bi, stmt, env, a): return a
    def on_drop(self, X, bi, place, env, a): return a
    def on_ret(self, X, bi, env, a): return a
    def on_edge(self, X, bi, kind, info, env, a): return a
    wants_stmts = False

class Explorer:
    def __init__(self, flat, model, cap=64, max_states=400000):
        self.F = flat; self.prog = flat.prog; self.m = model; self.cap = cap; self.max_states = max_states
        self.live = self._liveness()
        self.bad = []          # (state, message)
        self.final = {}        # (astate, env-return-value) at root returns -> state
        self.states = 0; self.widened = 0; self.transitions = 0
        self.overflow = False
        self.visited_blocks = set()
        self.owner = {}
        self.edges = None      # set to {} to record the graph of states

    # -- liveness of locals -------------------------------------------------
    def _liveness(self):
        F = self.F; n = len(F.blocks)
        use = [None] * n; dfn = [None] * n
        borrowed = set()
        def uop(o, s):
            if o[0] != 'const': s.add(o[1][0]); up(o[1], s)
        def up(p, s):
            for e in p[1]:
                if e != '*' and e[0] == 'i' and isinstance(e[1], int): s.add(e[1])
        for i, b in enumerate(F.blocks):
            u = set(); d = set()
            def see(s):
                for x in s:
                    if x not in d: u.add(x)
            for s in b.stmts:
                if s[0] == '=':
                    r = s[2]; k = r[0]; t = set()
                    if k in ('use', 'repeat'): uop(r[1], t)
                    elif k in ('ref', 'refmut', 'fakeref', 'raw'):
                        t.add(r[1][0]); up(r[1], t)
                        if '*' not in r[1][1]: borrowed.add(r[1][0])
                    elif k == 'discr': t.add(r[1][0])
                    elif k == 'cast': uop(r[2], t)
                    elif k == 'bin': uop(r[2], t); uop(r[3], t)
                    elif k == 'un': uop(r[2], t)
                    elif k == 'agg':
                        for o in r[5]: uop(o, t)
                    see(t)
                    if s[1][1]: see({s[1][0]})
                    else: d.add(s[1][0])
                elif s[0] == 'D': d.add(s[1])
                elif s[0] == 'sd': see({s[1][0]})
            t = b.term; q = set()
            if t[0] == 'call':
                c = t[1]; uop(c.func, q)
                for a in c.args: uop(a, q)
                if c.dest[1]: q.add(c.dest[0])
                see(q)
                if not c.dest[1]: d.add(c.dest[0])
            elif t[0] == 'switch': uop(t[1], q); see(q)
            elif t[0] == 'assert': uop(t[1], q); see(q)
            elif t[0] == 'drop': pass
            elif t[0] == 'ret': see(set(F.ret_locals))
            use[i] = u; dfn[i] = d
        self.borrowed = borrowed
        preds = [[] for _ in range(n)]
        for i in range(n):
            for s in F.succ(i): preds[s].append(i)
        live = [set(u) for u in use]
        wl = deque(range(n - 1, -1, -1)); inq = [True] * n
        out = [set() for _ in range(n)]
        while wl:
            i = wl.popleft(); inq[i] = False
            o = set()
            for s in F.succ(i): o |= live[s]
            new = use[i] | (o - dfn[i])
            if new != live[i]:
                live[i] = new
                for p in preds[i]:
                    if not inq[p]: inq[p] = True; wl.append(p)
        return live

    # -- environment --------------------------------------------------------
    def resolve(self, env, place):
        cur = (place[0], ())
        if place[1]:
            r = self._resolve(env, place)
            if r not in self.owner:
                i = len(place[1]) - 1
                if place[1][i] != '*' and place[1][i][0] == 'f': self.owner[r] = base_adt(self.F, place, i)
                # enclosing fields reached through the same run of projections
                n = len(r[1]) - 1; i -= 1
                while i >= 0 and n > 0 and place[1][i] != '*':
                    q = (r[0], r[1][:n])
                    if place[1][i][0] == 'f' and q not in self.owner: self.owner[q] = base_adt(self.F, place, i)
                    i -= 1; n -= 1
            return r
        return cur
    def _resolve(self, env, place):
        cur = (place[0], ())
        for e in place[1]:
            if e == '*':
                v = env.get(cur)
                if v is not None and v[0] == 'r': cur = v[1]
                elif v is not None and v[0] == 's' : cur = (('S', v[1]), ())
                else: cur = (('S', cur), ())
            elif e[0] in ('f', 'd'): cur = (cur[0], cur[1] + ((e[0], str(e[1])),))
            else: cur = (cur[0], cur[1] + (('i',),))
        return cur
    @staticmethod
    def _root_mentions(root, place):
        while isinstance(root, tuple):
            q = root[1]
            if q[0] == place[0] and q[1][:len(place[1])] == place[1]: return True
            root = q[0]
        return False
    def _val_mentions(self, v, place):
        k = v[0]
        if k in ('s', 'ns', 'ds', 't', 'r', 'br'):
            q = v[1]
            if k == 'r': return self._root_mentions(q[0], place)
            if q[0] == place[0] and q[1][:len(place[1])] == place[1]: return True
            return self._root_mentions(q[0], place)
        return False
    def kill(self, env, place):
        r, pr = place; n = len(pr)
        dead = [k for k, v in env.items() if (k[0] == r and k[1][:n] == pr) or self._root_mentions(k[0], place) or self._val_mentions(v, place)]
        for k in dead: del env[k]
    def subtree(self, env, place):
        r, pr = place; n = len(pr)
        return [(k[1][n:], v) for k, v in env.items() if k[0] == r and k[1][:n] == pr]
    def assign(self, env, dest, tree):
        """dest resolved; tree: list of (suffix, value)."""
        self.kill(env, dest)
        for suf, v in tree:
            env[(dest[0], dest[1] + suf)] = v
    def eval(self, bi, env, o):
        """Scalar value of an operand or None."""
        if o[0] == 'const':
            c = o[1]
            if c.v is not None:
                if c.v == 'true': return T
                if c.v == 'false': return F_
                if len(c.v) == 1 and c.ty is not None and c.ty.s == 'char': return ('c', str(ord(c.v)))
                return ('c', c.v)
            if c.s is not None: return ('str', c.s)
            if c.fn is not None: return ('fn', (c.res or c.fn).path)
            return None
        p = self.resolve(env, o[1])
        a = self.assumed(bi, p)
        if a is not None: return a if isinstance(a, tuple) else dict(a).get(())
        v = env.get(p)
        if v is None: return ('s', p)
        return v
    def optree(self, bi, env, o):
        if o[0] == 'const':
            v = self.eval(bi, env, o)
            return [((), v)] if v is not None else []
        p = self.resolve(env, o[1])
        a = self.assumed(bi, p)
        if a is not None: return [((), a)] if isinstance(a, tuple) else list(a)
        t = self.subtree(env, p)
        if not any(s == () for s, _ in t): t.append(((), ('s', p)))
        return t
    def variant_at(self, env, p):
        """('v',adt,name) or ('nv',adt,excl) known at place p, through copies."""
        v = env.get(p)
        n = 0
        while v is not None and v[0] == 's' and n < 8:
            if v[1] == p: return None
            p = v[1]; v = env.get(p); n += 1
        return v if v is not None and v[0] in ('v', 'nv') else None
    def assumed(self, bi, p):
        """The model's assumption about place p, directly or as part of an enclosing field."""
        a = self.m.read(self, bi, p, self.owner.get(p))
        if a is not None: return a
        pr = p[1]
        for k in range(len(pr) - 1, 0, -1):
            if pr[k - 1][0] != 'f': continue
            q = (p[0], pr[:k])
            if q not in self.owner: continue
            a = self.m.read(self, bi, q, self.owner[q])
            if a is None: continue
            if isinstance(a, tuple): return None
            rest = pr[k:]; n = len(rest)
            t = [(s[n:], v) for s, v in a if s[:n] == rest]
            return t or None
        return None
    def look(self, bi, env, p):
        """Known or assumed variant of the value at place p."""
        a = self.assumed(bi, p)
        if a is not None:
            a = a if isinstance(a, tuple) else dict(a).get(())
            if a is not None and a[0] == 'v': return a
        return self.variant_at(env, p)
    def set_variant(self, env, p, adt, name):
        q = p; n = 0
        while True:
            v = env.get(q)
            env[q] = ('v', adt, name)
            if v is not None and v[0] == 's' and v[1] != q and n < 8: q = v[1]; n += 1
            else: break
        self._subst(env, q, ('v', adt, name))
    def exclude(self, env, p, adt, names):
        vs = variants_of(self.prog, adt)
        old = self.variant_at(env, p)
        ex = set(names) | (set(old[2]) if old is not None and old[0] == 'nv' else set())
        if vs is not None:
            rest = [v for v in vs if v not in ex]
            if len(rest) == 1: self.set_variant(env, p, adt, rest[0]); return
        q = p; n = 0
        while True:
            v = env.get(q); env[q] = ('nv', adt, frozenset(ex))
            if v is not None and v[0] == 's' and v[1] != q and n < 8: q = v[1]; n += 1
            else: break
    def _subst(self, env, p, val):
        for k, v in list(env.items()):
            if v[0] == 's' and v[1] == p: env[k] = val
            elif v[0] == 'ns' and v[1] == p and val[0] == 'c': env[k] = F_ if val == T else T
            elif v[0] == 't' and v[1] == p and val[0] == 'v': env[k] = cbool((val[2] == v[3]) == v[4])
            elif v[0] == 'ds' and v[1] == p and val[0] == 'v':
                d = variant_to_discr(self.prog, val[1], val[2])
                if d is not None: env[k] = ('c', d)
    def tree_of_ref(self, env, v):
        if v is not None and v[0] == 'r': return v[1]
        if v is not None and v[0] == 's': return (('S', v[1]), ())
        return None

    # -- transfer -----------------------------------------------------------
    def do_stmt(self, bi, env, s):
        if s[0] == 'D':
            self.kill(env, (s[1], ())); return
        if s[0] == 'L': self.kill(env, (s[1], ())); return
        if s[0] == 'sd':
            p = self.resolve(env, s[1]); ty = place_ty(self.F, s[1])
            return
        if s[0] != '=': return
        dest = self.resolve(env, s[1]); r = s[2]; k = r[0]
        if k == 'use':
            t = self.optree(bi, env, r[1])
            if r[1][0] != 'const': t = [(a, v) for a, v in t if v is not None and not self._val_mentions(v, dest)]
            self.assign(env, dest, [(a, v) for a, v in t if v is not None])
        elif k in ('ref', 'refmut', 'raw', 'fakeref'):
            p = self.resolve(env, r[1])
            lit = env.get((r[1][0], ())) if r[1][1] == ('*',) else None
            self.kill(env, dest)
            if lit is not None and lit[0] == 'str': env[dest] = lit
            elif not (p[0] == dest[0]): env[dest] = ('r', p)
        elif k == 'discr':
            p = self.resolve(env, r[1]); a = self.assumed(bi, p); ty = place_ty(self.F, r[1]); adt = ty.d.path if ty is not None and ty.d is not None else None
            a = a if a is None or isinstance(a, tuple) else dict(a).get(())
            v = a if a is not None and a[0] in ('v', 'nv') else self.variant_at(env, p)
            if v is None and adt is not None:
                dv = self.m.discr(self, bi, p, adt)
                if dv is not None: v = ('v', adt, dv)
            self.kill(env, dest)
            if v is not None and v[0] == 'v':
                d = variant_to_discr(self.prog, v[1], v[2])
                if d is not None: env[dest] = ('c', d)
            elif adt is not None: env[dest] = ('ds', p, adt)
        elif k == 'agg':
            kind, d, var, names, ops = r[1], r[2], r[3], r[4], r[5]
            trees = [self.optree(bi, env, o) for o in ops]
            self.kill(env, dest)
            adt = d.path if d is not None else (r[6] if len(r) > 6 else None)
            isenum = kind == 'adt' and adt is not None and (adt in STD_VARIANTS or (adt in self.prog.adts and self.prog.adts[adt].kind == 'enum'))
            if isenum: env[dest] = ('v', adt, var)
            elif kind == 'closure' and d is not None: env[dest] = ('clo', d.path)
            for n, t in zip(names, trees):
                pre = ((('d', var),) if isenum else ()) + (('f', str(n)),)
                for suf, v in t:
                    if v is not None and not self._val_mentions(v, dest): env[(dest[0], dest[1] + pre + suf)] = v
        elif k == 'un':
            v = self.eval(bi, env, r[2]); self.kill(env, dest)
            if r[1] == 'Not' and v is not None:
                if v in (T, F_): env[dest] = F_ if v == T else T
                elif v[0] == 's': env[dest] = ('ns', v[1])
                elif v[0] == 'ns': env[dest] = ('s', v[1])
                elif v[0] == 't': env[dest] = ('t', v[1], v[2], v[3], not v[4])
        elif k == 'bin':
            a = self.eval(bi, env, r[2]); b = self.eval(bi, env, r[3]); self.kill(env, dest)
            if a is not None and b is not None and a[0] == 'c' and b[0] == 'c':
                try:
                    x, y = int(a[1]), int(b[1])
                    f = {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}.get(r[1])
                    if f is not None: env[dest] = cbool(f)
                    elif r[1] in ('BitAnd', 'BitOr', 'BitXor') and {x, y} <= {0, 1}:
                        env[dest] = ('c', str({'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[r[1]]))
                except ValueError: pass
            elif a is not None and b is not None and r[1] in ('BitAnd', 'BitOr'):
                for u, w in ((a, b), (b, a)):
                    if u == F_ and r[1] == 'BitAnd': env[dest] = F_
                    elif u == T and r[1] == 'BitOr': env[dest] = T
                    elif u == T and r[1] == 'BitAnd' or u == F_ and r[1] == 'BitOr':
                        if w[0] in ('s', 'ns', 't'): env[dest] = w
            elif a is not None and b is not None and r[1] in ('Eq', 'Ne'):
                for u, w in ((a, b), (b, a)):
                    if u in (T, F_) and w[0] in ('s', 'ns'):
                        flip = (u == F_) != (r[1] == 'Ne')
                        env[dest] = (('ns' if w[0] == 's' else 's'), w[1]) if flip else w
                # comparison of a discriminant with a constant
                for u, w in ((a, b), (b, a)):
                    if u[0] == 'c' and w[0] == 'ds':
                        nm = discr_to_variant(self.prog, w[2], u[1])
                        if nm is not None: env[dest] = ('t', w[1], w[2], nm, r[1] == 'Eq')
        elif k == 'cast':
            t = self.optree(bi, env, r[2])
            self.assign(env, dest, [(a, v) for a, v in t if v is not None and not self._val_mentions(v, dest)])
        else:
            self.kill(env, dest)

    def do_call(self, bi, env, c):
        """Opaque call: list of successor envs' result assignment (mutates env)."""
        argv = [self.eval(bi, env, a) for a in c.args]
        return argv
    def apply_call(self, bi, env, c, argv):
        m = self.m.call(self, bi, c, env, argv)
        dest = self.resolve(env, c.dest)
        if isinstance(m, list):   # alternatives
            out = []
            for v in m:
                e = dict(env); self._havoc(e, c, argv); self.kill(e, dest)
                if v is not None: e[dest] = v
                out.append(e)
            return out
        if m is not None:
            self._havoc(env, c, argv)
            self.kill(env, dest); env[dest] = m
            return [env]
        d = c.decl; path = d.path if d is not None else ''
        cpath = c.callee.path if c.callee is not None else path
        last = path.rsplit('::', 1)[-1]
        tree = None
        a0 = argv[0] if argv else None
        if last in ('deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'as_str', 'as_slice', 'as_bytes', 'as_path', 'by_ref', 'as_deref', 'as_deref_mut') and a0 is not None and a0[0] in ('r', 's') and len(argv) == 1:
            rt = self.F.ltys[c.dest[0]]
            if path.startswith('core::option::Option') or path.startswith('core::result::Result'):
                src = self.tree_of_ref(env, a0)
                tree = []
                vv = self.look(bi, env, src) if src else None
                adt = 'core::option::Option' if path.startswith('core::option') else 'core::result::Result'
                if vv is not None and vv[0] == 'v': tree = [((), vv)]
                elif src is not None:
                    # keep correlation with the source option
                    tree = [((), ('s', src))]
                for var in (('Some',) if adt.endswith('Option') else ('Ok', 'Err')):
                    if src is not None: tree.append(((('d', var), ('f', '0')), ('r', (src[0], src[1] + (('d', var), ('f', '0'))))))
            else: tree = [((), a0)]
        elif last == 'clone' and len(argv) == 1 and a0 is not None and a0[0] in ('r', 's') or (last in ('copied', 'cloned') and len(argv) == 1):
            if last == 'clone':
                src = self.tree_of_ref(env, a0)
                if src is not None:
                    tree = self.subtree(env, src)
                    if not any(s == () for s, _ in tree): tree.append(((), ('s', src)))
            elif c.args[0][0] != 'const':
                p = self.resolve(env, c.args[0][1]); vv = self.variant_at(env, p)
                tree = [((), vv if vv is not None else ('s', p))]
        elif path.startswith('core::ops::try_trait::Try::branch') or cpath.endswith('Try>::branch'):
            if c.args[0][0] != 'const':
                p = self.resolve(env, c.args[0][1]); vv = self.variant_at(env, p)
                ty = c.argtys[0]; isopt = ty.d is not None and ty.d.path == 'core::option::Option'
                okv, erv = ('Some', 'None') if isopt else ('Ok', 'Err')
                CF = 'core::ops::control_flow::ControlFlow'
                okt = [((('d', 'Continue'), ('f', '0')) + s, v) for s, v in self.subtree(env, (p[0], p[1] + (('d', okv), ('f', '0'))))]
                ert = [((('d', 'Break'), ('f', '0'), ('d', erv), ('f', '0')) + s, v) for s, v in self.subtree(env, (p[0], p[1] + (('d', erv), ('f', '0'))))]
                adt = 'core::option::Option' if isopt else 'core::result::Result'
                brk = [(((('d', 'Break'), ('f', '0'))), ('v', adt, erv))]
                outs = []
                if vv is None or vv[0] == 'nv' or vv[2] == okv:
                    e = dict(env)
                    if vv is None: self.set_variant(e, p, adt, okv)
                    self.assign(e, dest, [((), ('v', CF, 'Continue'))] + okt); outs.append(e)
                if vv is None or vv[0] == 'nv' or vv[2] == erv:
                    e = dict(env)
                    if vv is None: self.set_variant(e, p, adt, erv)
                    self.assign(e, dest, [((), ('v', CF, 'Break'))] + brk + ert); outs.append(e)
                return outs
        elif path.startswith('core::ops::try_trait::FromResidual::from_residual') or cpath.endswith('FromResidual>::from_residual') or last == 'from_residual':
            ty = self.F.ltys[c.dest[0]]
            if ty is not None and ty.d is not None:
                erv = {'core::option::Option': 'None', 'core::result::Result': 'Err'}.get(ty.d.path)
                if erv: tree = [((), ('v', ty.d.path, erv))]
        elif last in ('is_some', 'is_none', 'is_ok', 'is_err') and len(argv) == 1 and (path.startswith('core::option::Option') or path.startswith('core::result::Result')):
            src = self.tree_of_ref(env, a0)
            if src is not None:
                var = {'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err'}[last]
                adt = 'core::option::Option' if last in ('is_some', 'is_none') else 'core::result::Result'
                vv = self.look(bi, env, src)
                if vv is not None and vv[0] == 'v': tree = [((), cbool(vv[2] == var))]
                else: tree = [((), ('t', src, adt, var, True))]
        elif last in ('unwrap_or_default', 'unwrap_or', 'unwrap', 'expect') and (path.startswith('core::option::Option') or path.startswith('core::result::Result')) and c.args[0][0] != 'const':
            t0 = dict(self.optree(bi, env, c.args[0])); vv = t0.get(())
            if vv is not None and vv[0] == 's': vv = self.variant_at(env, vv[1]) or vv
            okv = 'Some' if path.startswith('core::option') else 'Ok'
            if vv is not None and vv[0] == 'v':
                if vv[2] == okv:
                    pre = (('d', okv), ('f', '0'))
                    tree = [(k[2:], v) for k, v in t0.items() if k[:2] == pre]
                    if not tree and vv[0] == 'v':
                        p = self.resolve(env, c.args[0][1]); tree = [((), ('s', (p[0], p[1] + pre)))]
                elif last == 'unwrap_or': tree = self.optree(bi, env, c.args[1])
                elif last == 'unwrap_or_default' and not c.dest[1] and self.F.ltys[c.dest[0]].k == 'bool': tree = [((), F_)]
        elif path in ('core::option::Option::<T>::or', 'core::option::Option::<T>::and', 'core::option::Option::<T>::ok_or', 'core::bool::<impl bool>::then_some') and c.args[0][0] != 'const':
            t0 = dict(self.optree(bi, env, c.args[0])); vv = t0.get(())
            if last == 'then_some':
                if vv in (T, F_):
                    tree = [((), ('v', 'core::option::Option', 'Some' if vv == T else 'None'))]
                    if vv == T: tree += [((('d', 'Some'), ('f', '0')) + k, v) for k, v in self.optree(bi, env, c.args[1])]
            else:
                p = self.resolve(env, c.args[0][1])
                known = vv if vv is not None and vv[0] == 'v' else self.variant_at(env, p)
                kn = known[2] if known is not None and known[0] == 'v' else None
                outs = []
                for var in ('Some', 'None'):
                    if kn is not None and kn != var: continue
                    e = dict(env)
                    if kn is None: self.set_variant(e, p, 'core::option::Option', var)
                    if last == 'or': tr = ([(k, v) for k, v in t0.items() if k] + [((), ('v', 'core::option::Option', 'Some'))]) if var == 'Some' else self.optree(bi, e, c.args[1])
                    elif last == 'and': tr = self.optree(bi, e, c.args[1]) if var == 'Some' else [((), ('v', 'core::option::Option', 'None'))]
                    elif var == 'Some': tr = [((), ('v', 'core::result::Result', 'Ok'))] + [((('d', 'Ok'), ('f', '0')) + k[2:], v) for k, v in t0.items() if len(k) >= 2]
                    else: tr = [((), ('v', 'core::result::Result', 'Err'))] + [((('d', 'Err'), ('f', '0')) + k, v) for k, v in self.optree(bi, e, c.args[1])]
                    self._havoc(e, c, argv)
                    self.assign(e, dest, [(a, v) for a, v in tr if v is not None and not self._val_mentions(v, dest)])
                    outs.append(e)
                return outs
        elif path == 'core::ops::bit::Not::not' or cpath.endswith('as core::ops::bit::Not>::not'):
            if a0 in (T, F_): tree = [((), F_ if a0 == T else T)]
        elif last in ('eq', 'ne') and 'PartialEq' in path and len(argv) == 2:
            ps = [self.tree_of_ref(env, a) for a in argv]
            for _ in range(3):  # &&T comparisons
                ps = [self.tree_of_ref(env, env.get(q)) if q is not None and env.get(q) is not None and env[q][0] == 'r' else q for q in ps]
            vs = [self.variant_at(env, q) if q is not None else None for q in ps]
            cs = [env.get(q) if q is not None else None for q in ps]
            if all(v is not None and v[0] == 'v' for v in vs):
                if vs[0][2] != vs[1][2]: tree = [((), cbool(last == 'ne'))]
                elif self._unit(vs[0]): tree = [((), cbool(last == 'eq'))]
            elif all(x is not None and x[0] == 'c' for x in cs):
                tree = [((), cbool((cs[0] == cs[1]) == (last == 'eq')))]
            else:
                for i in (0, 1):
                    if vs[i] is not None and vs[i][0] == 'v' and self._unit(vs[i]) and ps[1 - i] is not None:
                        tree = [((), ('t', ps[1 - i], vs[i][1], vs[i][2], last == 'eq'))]
        elif last in ('into', 'from', 'to_owned', 'into_iter', 'into_future', 'new_unchecked', 'must_use') and len(argv) == 1:
            rt = self.F.ltys[c.dest[0]] if not c.dest[1] else None
            if rt is not None and c.argtys and (rt.s == c.argtys[0].s): tree = self.optree(bi, env, c.args[0])
            elif last in ('into_future', 'new_unchecked'): tree = self.optree(bi, env, c.args[0])
        elif path == 'core::mem::take' and a0 is not None and a0[0] == 'r':
            tree = self.subtree(env, a0[1]); 
        elif path == 'core::mem::replace' and a0 is not None and a0[0] == 'r':
            tree = self.subtree(env, a0[1]); new = self.optree(bi, env, c.args[1])
            self.assign(env, a0[1], new)
            self.assign(env, dest, [(a, v) for a, v in tree if v is not None and not self._val_mentions(v, dest)])
            return [env]
        self._havoc(env, c, argv)
        if tree is not None:
            self.assign(env, dest, [(a, v) for a, v in tree if v is not None and not self._val_mentions(v, dest)])
        else:
            self.kill(env, dest)
        return [env]
    def _unit(self, v):
        if v[1] in STD_VARIANTS: return v[2] == 'None'
        a = self.prog.adts.get(v[1])
        if a is None: return v[1] in STD_DISCR
        for x in a.variants:
            if x[0] == v[2]: return not x[2]
        return False
    def _havoc(self, env, c, argv):
        for a, t, v in zip(c.args, c.argtys, argv):
            if v is not None and v[0] == 'r' and t.k == 'refmut':
                last = c.decl.path.rsplit('::', 1)[-1] if c.decl is not None else ''
                if last in ('deref_mut', 'as_mut', 'by_ref', 'new_unchecked', 'borrow_mut', 'iter_mut'): continue
                self.kill_below(env, v[1])
    def kill_below(self, env, p):
        self.kill(env, p)

    # -- main loop ----------------------------------------------------------
    def prune(self, env, bi):
        live = self.live[bi]; b = self.borrowed
        def root(k):
            r = k
            while isinstance(r, tuple): r = r[1][0]
            return r
        out = {}
        for k, v in env.items():
            r = k[0]
            if isinstance(r, int):
                if r in live or r in b: out[k] = v
            else:
                rr = root(r)
                if rr in live or rr in b: out[k] = v
                elif v[0] in ('c', 'v', 'nv'): out[k] = v
        # drop self-symbols
        return {k: v for k, v in out.items() if not (v[0] == 's' and v[1] == k)}
    def run(self, init_env=None, starts=None):
        F = self.F
        self.seen = {}
        self.per = {}
        self.parent = {}
        start_env = frozenset((init_env or {}).items())
        wl = [(F.entry, start_env, a) for a in (starts if starts is not None else [self.m.init])]
        for st in wl: self.parent[st] = None; self.seen[st] = True
        while wl:
            state = wl.pop()
            self.states += 1
            if self.states > self.max_states: self.overflow = True; break
            bi, envf, a = state
            self.visited_blocks.add(bi)
            for nb, nenv, na in self.step(state, bi, dict(envf), a):
                self.transitions += 1
                nenv = self.prune(nenv, nb)
                key = (nb, na, self.group(nenv))
                lst = self.per.setdefault(key, [])
                fe = frozenset(nenv.items())
                ns = (nb, fe, na)
                if ns in self.seen:
                    if self.edges is not None: self.edges.setdefault(state, []).append(ns)
                    continue
                # subsumption: an existing weaker env covers this one
                o = next((o for o in lst if o <= fe), None)
                if o is not None:
                    if self.edges is not None: self.edges.setdefault(state, []).append((nb, o, na))
                    continue
                if len(lst) >= self.cap:
                    self.widened += 1
                    w = self.per.get(('w',) + key)
                    base = w if w is not None else lst[0]
                    fe = frozenset(base & fe) if w is not None else frozenset.intersection(*lst, fe)
                    self.per[('w',) + key] = fe
                    ns = (nb, fe, na)
                    if self.edges is not None: self.edges.setdefault(state, []).append(ns)
                    if ns in self.seen: continue
                elif self.edges is not None: self.edges.setdefault(state, []).append(ns)
                lst.append(fe)
                self.seen[ns] = True; self.parent[ns] = state
                wl.append(ns)
        return self
    def cycle(self, same):
        """A cycle of recorded states all of whose edges satisfy same(astate, astate), or None."""
        color = {}
        for root in list(self.edges):
            if root in color: continue
            color[root] = 1; st = [(root, iter(self.edges.get(root, ())))]
            while st:
                s, it = st[-1]
                for t in it:
                    if not same(s[2], t[2]): continue
                    c = color.get(t)
                    if c == 1: return [x for x, _ in st[[x for x, _ in st].index(t):]]
                    if c is None:
                        color[t] = 1; st.append((t, iter(self.edges.get(t, ())))); break
                else:
                    color[s] = 2; st.pop()
        return None
    def group(self, env):
        """Facts that widening must not lose: environments are only merged when these agree."""
        return None
    def fail(self, state, msg, bi, line):
        self.bad.append((state, msg, bi, line))
    def step(self, state, bi, env, a):
        F = self.F; b = F.blocks[bi]; m = self.m
        for s in b.stmts:
            if m.wants_stmts:
                a = m.on_stmt(self, bi, s, env, a)
                if isinstance(a, str) and a.startswith('!'): self.fail(state, a[1:], bi, s[3] if s[0] == '=' else 0); return
            self.do_stmt(bi, env, s)
        t = b.term; k = t[0]
        if k == 'goto': yield t[1], env, a
        elif k == 'fork':
            for x in t[1]: yield x, dict(env), a
        elif k == 'drop':
            a = m.on_drop(self, bi, t[1], env, a)
            if isinstance(a, str) and a.startswith('!'): self.fail(state, a[1:], bi, t[3]); return
            yield t[2], env, a
        elif k == 'assert': yield t[4], env, a
        elif k == 'ret':
            a2 = m.on_ret(self, bi, env, a)
            if isinstance(a2, str) and a2.startswith('!'): self.fail(state, a2[1:], bi, 0)
            else: self.final.setdefault((a2, self._retval(env)), state)
        elif k == 'call':
            c = t[1]
            argv = self.do_call(bi, env, c)
            al = m.call_alts(self, bi, c, env, argv, a)
            if al is not None:
                for alt in al:
                    tree, a2 = alt[0], alt[1]
                    if isinstance(a2, str) and a2.startswith('!'): self.fail(state, a2[1:], bi, c.line); continue
                    if c.target is None: continue
                    e = dict(env); dest = self.resolve(e, c.dest); self._havoc(e, c, argv)
                    if len(alt) > 2:
                        for k2, v2 in alt[2].items():
                            if v2 is None: e.pop(k2, None)
                            else: e[k2] = v2
                    self.assign(e, dest, tree)
                    if len(alt) > 3: e.update(alt[3])
                    yield c.target, e, a2
                return
            a = m.on_call(self, bi, c, env, argv, a)
            alts = a if isinstance(a, list) else [a]
            for a in alts:
                if isinstance(a, str) and a.startswith('!'): self.fail(state, a[1:], bi, c.line); continue
                if c.target is None: continue
                for e in self.apply_call(bi, dict(env), c, argv): yield c.target, e, a
        elif k == 'switch':
            yield from self.switch(state, bi, env, a, t)
    def _retval(self, env):
        for l in self.F.ret_locals:
            v = env.get((l, ()))
            if v is not None:
                if v[0] in ('v',): 
                    p = env.get((l, (('d', v[2]), ('f', '0'))))
                    return (v[2], p if p is not None and p[0] in ('c', 'v') else None)
                if v[0] == 'c': return v
        return None
    def switch(self, state, bi, env, a, t):
        v = self.eval(bi, env, t[1]); targets = t[2]; other = t[3]
        m = self.m
        def go(x, e, info):
            a2 = m.on_edge(self, bi, x, info, e, a)
            if isinstance(a2, str) and a2.startswith('!'): self.fail(state, a2[1:], bi, t[5]); return []
            return [(x, e, a2)]
        if v is not None and v[0] == 'c':
            for val, x in targets:
                if val == v[1]: yield from go(x, env, ('c', v)); return
            yield from go(other, env, ('c', v)); return
        if v is not None and v[0] in ('s', 'ns') :
            p = v[1]; isb = t[4].k == 'bool'
            for val, x in targets:
                e = dict(env); cv = ('c', val)
                if v[0] == 'ns': cv = F_ if cv == T else T
                e[p] = cv; self._subst(e, p, cv)
                yield from go(x, e, (v, val))
            e = dict(env)
            if isb and len(targets) == 1:
                cv = ('c', '1' if targets[0][0] == '0' else '0')
                if v[0] == 'ns': cv = F_ if cv == T else T
                e[p] = cv; self._subst(e, p, cv)
            yield from go(other, e, (v, None)); return
        if v is not None and v[0] == 't':
            _, p, adt, var, pos = v
            for val, x in targets + [(None, other)]:
                if val is None:
                    if len(targets) != 1: yield from go(x, dict(env), (v, None)); continue
                    val = '1' if targets[0][0] == '0' else '0'
                truth = (val == '1') == pos
                cur = self.variant_at(env, p)
                if cur is not None:
                    if cur[0] == 'v' and (cur[2] == var) != truth: continue
                    if cur[0] == 'nv' and var in cur[2] and truth: continue
                e = dict(env)
                if truth: self.set_variant(e, p, adt, var)
                else: self.exclude(e, p, adt, [var])
                yield from go(x, e, (v, val))
            return
        if v is not None and v[0] == 'ds':
            _, p, adt = v
            cur = self.variant_at(env, p)
            listed = []
            for val, x in targets:
                nm = discr_to_variant(self.prog, adt, val)
                if nm is not None: listed.append(nm)
                if cur is not None and nm is not None:
                    if cur[0] == 'v' and cur[2] != nm: continue
                    if cur[0] == 'nv' and nm in cur[2]: continue
                e = dict(env)
                if nm is not None: self.set_variant(e, p, adt, nm)
                yield from go(x, e, (v, nm))
            if F_unreach(self.F, other): return
            vs = variants_of(self.prog, adt)
            if vs is not None:
                ex = set(listed) | (set(cur[2]) if cur is not None and cur[0] == 'nv' else set())
                if cur is not None and cur[0] == 'v' and cur[2] in ex: return
                if all(x in ex for x in vs): return
            e = dict(env)
            if not (cur is not None and cur[0] == 'v'): self.exclude(e, p, adt, listed)
            yield from go(other, e, (v, None)); return
        for val, x in targets: yield from go(x, dict(env), (v, val))
        yield from go(other, dict(env), (v, None))
    # -- witnesses ----------------------------------------------------------
    def path(self, state, limit=40):
        out = []; s = state
        while s is not None:
            out.append(s[0]); s = self.parent.get(s)
        out.reverse()
        return out
    def witness(self, state, n=12):
        """Readable tail of branch decisions / calls leading to a state."""
        F = self.F; ev = []
        p = self.path(state)
        for i, bi in enumerate(p):
            t = F.blocks[bi].term
            if t[0] == 'call':
                d = t[1].decl
                if d is not None and t[1].exp == 0: ev.append('%s: call %s' % (F.loc(bi, t[1].line), d.path))
            elif t[0] == 'switch' and i + 1 < len(p):
                vals = [v for v, x in t[2] if x == p[i + 1]]
                ev.append('%s: branch %s' % (F.loc(bi, t[5]), vals[0] if vals else 'otherwise'))
        return ev[-n:]

def F_unreach(F, b):
    n = 0
    while n < 3:
        t = F.blocks[b].term
        if t[0] == 'unreach': return True
        if t[0] != 'goto': return False
        b = t[1]; n += 1
    return False
