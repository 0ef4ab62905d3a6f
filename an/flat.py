"""Flattening: a whole-entry-point control-flow graph with resolved workspace
callees, async bodies and closures inlined.

Nothing is executed: the result is a graph of MIR statements and terminators
over renamed locals, on which the explorer (explore.py) and the slices
(slice.py) run."""
from .facts import Block, Call, succs

IDENT_CALLS = (
    'core::future::into_future::IntoFuture::into_future', 'core::pin::Pin::<Ptr>::new_unchecked',
    'core::pin::Pin::<Ptr>::new', 'alloc::boxed::Box::<T>::pin', 'alloc::boxed::Box::<T>::new',
    'futures_util::future::future::FutureExt::boxed', 'futures_util::FutureExt::boxed',
    'core::pin::Pin::<Ptr>::as_mut', 'alloc::boxed::Box::<T>::into_pin',
)
POLL = 'core::future::future::Future::poll'
FNCALLS = ('core::ops::function::FnOnce::call_once', 'core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut')

def is_ident_call(path):
    return path in IDENT_CALLS or path.endswith('::IntoFuture>::into_future') or path.endswith('FutureExt::boxed') or path.endswith('FutureExt::boxed_local')

class Frame:
    __slots__ = ('fn', 'parent', 'line', 'depth', 'off', 'id')
    def __init__(self, fn, parent, line, off, id):
        self.fn = fn; self.parent = parent; self.line = line; self.off = off; self.id = id
        self.depth = parent.depth + 1 if parent else 0
    def has(self, fn):
        f = self
        while f is not None:
            if f.fn is fn: return True
            f = f.parent
        return False
    def count(self, fn):
        n = 0; f = self
        while f is not None:
            n += f.fn is fn; f = f.parent
        return n
    def stack(self):
        out = []; f = self
        while f is not None: out.append(f); f = f.parent
        return list(reversed(out))

class Flat:
    """policy(def_fn, frame, site_call) -> bool : inline this workspace body here?"""
    def __init__(self, prog, root, policy, max_blocks=60000, max_depth=25, expand_escaping=True, rec_limit=0, cha_max=12, into=False):
        self.into = into
        self.prog = prog; self.policy = policy; self.max_blocks = max_blocks; self.max_depth = max_depth
        self.rec_limit = rec_limit; self.cha_max = cha_max
        self.blocks = []; self.frames = []; self.bframe = []
        self.ltys = []; self.lnames = []
        self.truncated = []
        self.inlined = set()
        self.root_fn = root
        body = root
        self.entry, fr = self._inline(body, None, 0)
        self.root_frame = fr
        self.ret_locals = {0}
        if root.is_async:
            # root is an async fn: run its coroutine directly, captures = params
            co = prog.body_of(root)
            # find the aggregate in the root body
            self._expand_root_coroutine(co, fr)
        self._phase2(expand_escaping)
        self._prune_polls()

    # -- renaming ----------------------------------------------------------
    def new_local(self, ty, name=None):
        self.ltys.append(ty); self.lnames.append(name); return len(self.ltys) - 1
    def _inline(self, fn, parent, line, caps=None):
        """Copy fn's blocks; returns (entry block, frame).  caps: ('upvar name' -> local) for closures."""
        fr = Frame(fn, parent, line, len(self.ltys), len(self.frames))
        self.frames.append(fr); self.inlined.add(fn)
        off = fr.off; base = len(self.blocks)
        self.ltys.extend(fn.ltys); self.lnames.extend(fn.lnames)
        def pl(p):
            l, pr = p
            if caps is not None and l == 1 and pr:
                # upvar access: _1.^x  or (*_1).^x
                k = 0
                while k < len(pr) and pr[k] == '*': k += 1
                if k < len(pr) and pr[k][0] == 'f' and pr[k][1] in caps:
                    l2 = caps[pr[k][1]]; pr2 = pr[k + 1:]
                    return (l2, tuple(('i', e[1] + off) if e != '*' and e[0] == 'i' and isinstance(e[1], int) else e for e in pr2))
            return (l + off, tuple(('i', e[1] + off) if e != '*' and e[0] == 'i' and isinstance(e[1], int) else e for e in pr))
        def op(o): return o if o[0] == 'const' else (o[0], pl(o[1]))
        def rv(r):
            k = r[0]
            if k in ('use', 'repeat'): return (k, op(r[1]))
            if k in ('ref', 'refmut', 'fakeref', 'raw', 'discr'): return (k, pl(r[1]))
            if k == 'cast': return (k, r[1], op(r[2]), r[3])
            if k == 'bin': return (k, r[1], op(r[2]), op(r[3]))
            if k == 'un': return (k, r[1], op(r[2]))
            if k == 'agg': return (k, r[1], r[2], r[3], r[4], tuple(op(o) for o in r[5]))
            return r
        todo = []
        for i, b in enumerate(fn.blocks):
            B = Block(); B.stmts = []
            for s in b.stmts:
                if s[0] == '=': B.stmts.append(('=', pl(s[1]), rv(s[2]), s[3]))
                elif s[0] == 'sd': B.stmts.append(('sd', pl(s[1]), s[2]))
                else: B.stmts.append((s[0], s[1] + off))
            t = b.term; k = t[0]
            if k == 'call':
                c = t[1]; d = Call(); d.func = op(c.func) if c.func[0] != 'const' else c.func
                d.args = [op(a) for a in c.args]; d.dest = pl(c.dest)
                d.target = c.target + base if c.target is not None else None
                d.line = c.line; d.exp = c.exp; d.argtys = c.argtys
                B.term = ('call', d)
                todo.append(base + i)
            elif k == 'goto': B.term = ('goto', t[1] + base)
            elif k == 'switch': B.term = ('switch', op(t[1]), [(v, x + base) for v, x in t[2]], t[3] + base, t[4], t[5])
            elif k == 'drop': B.term = ('drop', pl(t[1]), t[2] + base, t[3])
            elif k == 'assert': B.term = ('assert', op(t[1]), t[2], t[3], t[4] + base, t[5])
            elif k == 'yield': B.term = ('yield', op(t[1]), t[2] + base, pl(t[3]), t[4])
            else: B.term = t
            self.blocks.append(B); self.bframe.append(fr)
        for bi in todo: self._try_inline(bi, fr)
        return base, fr
    def _from_impls(self):
        r = self.prog.__dict__.get('_from_impls')
        if r is None: r = self.prog._from_impls = [f for f in self.prog.fns if f.path.endswith('::from') and 'core::convert::From<' in f.path and f.ac == 1]
        return r
    def _try_inline(self, bi, fr):
        c = self.blocks[bi].term[1]
        if c.func[0] != 'const' or c.func[1].fn is None: return
        k = c.func[1]
        cands = []
        if self.into and k.fn.path == 'core::convert::Into::into' and len(c.argtys) == 1:
            dt = self.ltys[c.dest[0]] if not c.dest[1] else self.place_ty(c.dest)
            cands = [f for f in self._from_impls() if dt is not None and f.ltys[0].s == dt.s and f.ltys[1].s == c.argtys[0].s][:1]
        elif k.res is not None:
            if k.res.fn is not None: cands = [k.res.fn]
        else:
            if (k.tr or k.virt) and k.fn.path not in FNCALLS and k.fn.path != POLL:
                cands = [a.fn for a, _ in self.prog.impl_of.get(k.fn, []) if a.fn is not None]
                if k.fn.fn is not None: cands.append(k.fn.fn)
                if len(cands) > self.cha_max: return
            elif k.fn.fn is not None: cands = [k.fn.fn]
        cands = [f for f in cands if f.kind not in ('closure', 'coroutine')]
        if not cands: return
        ok = [f for f in cands if self.policy(f, fr, c)]
        if not ok: return
        if len(ok) != len(cands) and len(cands) > 1 and not any(self.policy(f, fr, c) for f in cands): return
        entries = []
        for f in ok:
            if fr.count(f) > self.rec_limit or fr.depth >= self.max_depth or len(self.blocks) > self.max_blocks:
                self.truncated.append((f, c.line, fr)); continue
            entries.append(self._splice(bi, fr, f, c, c.args))
        if not entries: return
        if len(ok) < len(cands): entries.append(self._opaque_copy(bi, fr))
        self._enter(bi, entries)
    def _enter(self, bi, entries):
        B = self.blocks[bi]
        B.term = ('goto', entries[0]) if len(entries) == 1 else ('fork', entries)
    def _opaque_copy(self, bi, fr):
        N = Block(); N.stmts = []; N.term = self.blocks[bi].term
        self.blocks.append(N); self.bframe.append(fr)
        return len(self.blocks) - 1
    def _retarget(self, lo, hi, ret_place, dest, target, fr, line, wrap=None):
        """Make every 'ret' of blocks[lo:hi] belonging to frame fr continue at target."""
        for j in range(lo, hi):
            if self.bframe[j] is fr and self.blocks[j].term[0] == 'ret':
                if dest is not None:
                    if wrap: self.blocks[j].stmts.append(('=', dest, ('agg', 'adt', None, wrap[1], ('0',), (('move', ret_place),), wrap[0]), line))
                    else: self.blocks[j].stmts.append(('=', dest, ('use', ('move', ret_place)), line))
                self.blocks[j].term = ('goto', target) if target is not None else ('unreach',)
    def _splice(self, bi, fr, f, c, args):
        lo = len(self.blocks)
        # entry stub assigning parameters
        stub = Block(); stub.stmts = []; stub.term = None
        self.blocks.append(stub); self.bframe.append(fr)
        e, nf = self._inline(f, fr, c.line)
        for i, a in enumerate(args):
            stub.stmts.append(('=', (nf.off + 1 + i, ()), ('use', a), c.line))
        stub.term = ('goto', e)
        self._retarget(lo, len(self.blocks), (nf.off, ()), c.dest, c.target, nf, c.line)
        return lo
    # -- coroutines and closures ------------------------------------------
    def _expand_root_coroutine(self, co, fr):
        for bi, b in enumerate(self.blocks):
            if self.bframe[bi] is not fr: continue
            for s in b.stmts:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'coroutine' and s[2][2] is co.d:
                    caps = self._caps(s, bi)
                    e, nf = self._inline(co, fr, co.lo, caps)
                    b.stmts = b.stmts[:b.stmts.index(s)] + self._capassign(s)
                    b.term = ('goto', e)
                    self.ret_locals = {nf.off}
                    self.consumed = {id(s)}
                    return
    def _caps(self, s, bi):
        """Capture locals of an aggregate statement (allocated once)."""
        m = self.__dict__.setdefault('_capm', {})
        r = m.get(id(s))
        if r is None:
            names = s[2][4]
            r = {}
            for n, o in zip(names, s[2][5]):
                r[n] = self.new_local(o[1].ty if o[0] == 'const' else self.place_ty(o[1]), n)
            m[id(s)] = r
            self.__dict__.setdefault('_keep', []).append(s)
        return r
    def place_ty(self, place):
        t = self.ltys[place[0]]
        for e in place[1]:
            if e == '*': t = t.args[0] if t is not None and t.args else None
            elif e[0] == 'f': t = e[2]
            elif e[0] == 'd': pass
            else: t = t.args[0] if t is not None and t.args else None
        return t
    def _capassign(self, s):
        r = self._capm[id(s)]
        return [('=', (r[n], ()), ('use', o), s[3]) for n, o in zip(s[2][4], s[2][5])]
    def _install_caps(self, bi, s):
        b = self.blocks[bi]
        for i, x in enumerate(b.stmts):
            if x is s:
                # idempotent
                k = ('capdone', id(s))
                if k in self.__dict__.setdefault('_capdone', set()): return
                self._capdone.add(k)
                b.stmts[i:i + 1] = self._capassign(s) + [s]
                return
    def _defs(self):
        d = {}
        for bi, b in enumerate(self.blocks):
            for s in b.stmts:
                if s[0] == '=': d.setdefault(s[1][0], []).append((bi, s))
            if b.term[0] == 'call': d.setdefault(b.term[1].dest[0], []).append((bi, b.term[1]))
        return d
    def _resolve_agg(self, o, defs, depth=0, seen=None, fns=None):
        """Closure/coroutine aggregate statements that operand o may hold (fns: collects function items)."""
        if seen is None: seen = set()
        if o[0] == 'const':
            if fns is not None and o[1].fn is not None and not any(k.fn is o[1].fn and k.res is o[1].res for k in fns): fns.append(o[1])
            return []
        if depth > 40: return []
        l, pr = o[1]
        pr = tuple(e for e in pr if e != '*')
        key = (l, pr)
        if key in seen: return []
        seen.add(key)
        out = []
        def field_suffix(dp, pr):
            n = len(dp)
            return pr[n:] if pr[:n] == dp else None
        def nm(pr): return tuple(e if e == '*' else e[:2] for e in pr)
        for bi, s in defs.get(l, []):
            if isinstance(s, Call):
                if s.dest[1]: continue
                d = s.callee
                if d is not None and s.args and (is_ident_call(d.path) or (s.decl is not None and is_ident_call(s.decl.path))):
                    out += self._resolve_agg(s.args[0], defs, depth + 1, seen, fns)
                continue
            dp = nm(tuple(e for e in s[1][1] if e != '*')); q = nm(pr)
            if q[:len(dp)] != dp: continue
            rest = q[len(dp):]
            r = s[2]
            if r[0] == 'agg' and r[1] in ('closure', 'coroutine') and not rest: out.append((bi, s))
            elif r[0] == 'agg' and rest:
                for n, x in zip(r[4], r[5]):
                    r2 = rest[1:] if rest[0][0] == 'd' else rest
                    if r2 and r2[0][0] == 'f' and str(r2[0][1]) == str(n):
                        out += self._resolve_agg(x if x[0] == 'const' else (x[0], (x[1][0], x[1][1] + r2[1:])), defs, depth + 1, seen, fns)
            elif r[0] in ('use', 'cast'):
                x = r[1] if r[0] == 'use' else r[2]
                out += self._resolve_agg(x if x[0] == 'const' else (x[0], (x[1][0], x[1][1] + rest)), defs, depth + 1, seen, fns)
            elif r[0] in ('ref', 'refmut'):
                out += self._resolve_agg(('copy', (r[1][0], r[1][1] + rest)), defs, depth + 1, seen, fns)
        uniq = []
        for bi, s in out:
            if not any(s is t for _, t in uniq): uniq.append((bi, s))
        return uniq
    def _phase2(self, expand_escaping):
        if not hasattr(self, 'consumed'): self.consumed = set()
        done = set()
        for _round in range(40):
            defs = self._defs()
            changed = False
            n0 = len(self.blocks)
            for bi in range(n0):
                b = self.blocks[bi]
                if b.term[0] != 'call' or bi in done: continue
                c = b.term[1]
                d = c.decl
                if d is None:
                    # a call through a function pointer that only holds known functions
                    if c.func[0] == 'const' or c.target is None: continue
                    fns = []; other = self._resolve_agg(c.func, defs, fns=fns)
                    if not fns or other: continue
                    done.add(bi); fr = self.bframe[bi]; entries = []
                    for k in fns:
                        n = self._new_block(fr); call = Call(); call.func = ('const', k); call.dest = c.dest; call.target = c.target; call.line = c.line; call.exp = c.exp
                        call.args = c.args; call.argtys = c.argtys
                        self.blocks[n].term = ('call', call); self._try_inline(n, fr); entries.append(n)
                    self._enter(bi, entries); changed = True
                    continue
                fr = self.bframe[bi]
                if d.path == POLL:
                    aggs = self._resolve_agg(c.args[0], defs)
                    aggs = [(abi, s) for abi, s in aggs if s[2][1] == 'coroutine']
                    if not aggs: continue
                    done.add(bi)
                    entries = []
                    for abi, s in aggs:
                        f = s[2][2].fn
                        if f is None or not self.policy(f, fr, c):
                            self.consumed.add(id(s)) if f is None else None
                            continue
                        if fr.count(f) > self.rec_limit or fr.depth >= self.max_depth or len(self.blocks) > self.max_blocks:
                            self.truncated.append((f, c.line, fr)); continue
                        self.consumed.add(id(s))
                        caps = self._caps(s, abi); self._install_caps(abi, s)
                        lo = len(self.blocks)
                        e, nf = self._inline(f, fr, c.line, caps)
                        self._retarget(lo, len(self.blocks), (nf.off, ()), c.dest, c.target, nf, c.line, wrap=('core::task::poll::Poll', 'Ready'))
                        entries.append(e)
                    if entries:
                        if len(entries) < len(aggs): entries.append(self._opaque_copy(bi, fr))
                        self._enter(bi, entries); changed = True
                elif d.path in FNCALLS or d.path.split('::<')[0] in FNCALLS:
                    fns = []
                    aggs = [(abi, s) for abi, s in self._resolve_agg(c.args[0], defs, fns=fns) if s[2][1] == 'closure']
                    fns = [k for k in fns if (k.res or k.fn).fn is not None and self.policy((k.res or k.fn).fn, fr, c)] if len(c.args) > 1 and c.args[1][0] != 'const' else []
                    if not aggs and not fns: continue
                    done.add(bi)
                    entries = []
                    for k in fns:
                        f = (k.res or k.fn).fn
                        n = self._new_block(fr); call = Call(); call.func = ('const', k); call.dest = c.dest; call.target = c.target; call.line = c.line; call.exp = c.exp
                        call.args = [('move', (c.args[1][1][0], c.args[1][1][1] + (('f', str(i), f.ltys[i + 1]),))) for i in range(f.ac)]
                        call.argtys = [f.ltys[i + 1] for i in range(f.ac)]
                        self.blocks[n].term = ('call', call); done.add(n)
                        self._try_inline(n, fr); entries.append(n)
                    for abi, s in aggs:
                        f = s[2][2].fn
                        if f is None or not self.policy(f, fr, c) or fr.count(f) > self.rec_limit or fr.depth >= self.max_depth: continue
                        self.consumed.add(id(s))
                        entries.append(self._closure_body(bi, fr, f, abi, s, c.dest, c.target, c.line, args_tuple=c.args[1] if len(c.args) > 1 else None))
                    if entries:
                        if len(entries) < len(aggs) + len(fns): entries.append(self._opaque_copy(bi, fr))
                        self._enter(bi, entries); changed = True
                else:
                    # closures handed to a callee we do not look into: may run any number of times
                    cl = []
                    for ai, a in enumerate(c.args):
                        for abi, s in self._resolve_agg(a, defs):
                            f = s[2][2].fn
                            if f is None or not self.policy(f, fr, c) or fr.count(f) > self.rec_limit or fr.depth >= self.max_depth or len(self.blocks) > self.max_blocks: continue
                            if (d.path in IDENT_CALLS or is_ident_call(d.path)): continue
                            if s[2][1] == 'coroutine' and not self._spawnlike(d.path): continue
                            cl.append((abi, s, f))
                    if not cl:
                        if d.path in self.COMB and len(c.args) > 1 and c.args[-1][0] == 'const' and c.args[-1][1].fn is not None and c.target is not None:
                            done.add(bi)
                            if self._desugar_fn(bi, fr, c): changed = True
                        continue
                    done.add(bi)
                    if self._desugar(bi, fr, c, cl, defs, done):
                        changed = True; continue
                    if 'block_on' in d.path and all(s[2][1] == 'coroutine' for _, s, _ in cl):
                        # runs the future to completion exactly once, yields its output
                        entries = []
                        for abi, s, f in cl:
                            self.consumed.add(id(s))
                            caps = self._caps(s, abi); self._install_caps(abi, s)
                            lo = len(self.blocks)
                            e, nf = self._inline(f, fr, c.line, caps)
                            self._retarget(lo, len(self.blocks), (nf.off, ()), c.dest, c.target, nf, c.line)
                            entries.append(e)
                        self._enter(bi, entries); changed = True
                        continue
                    # bi: stmts -> fork[ call , body -> fork ]
                    callb = self._opaque_copy(bi, fr); done.add(callb)
                    head = self._new_block(fr)
                    entries = [callb]
                    for abi, s, f in cl:
                        self.consumed.add(id(s))
                        if s[2][1] == 'coroutine':
                            caps = self._caps(s, abi); self._install_caps(abi, s)
                            lo = len(self.blocks)
                            e, nf = self._inline(f, fr, c.line, caps)
                            self._retarget(lo, len(self.blocks), (nf.off, ()), None, head, nf, c.line)
                        else:
                            e = self._closure_body(bi, fr, f, abi, s, None, head, c.line, hof=c)
                        entries.append(e)
                    self.blocks[head].term = ('fork', entries)
                    self.blocks[bi].term = ('goto', head)
                    changed = True
            if not changed and expand_escaping:
                # coroutines/closures nobody in the graph consumes: may run once created
                for bi in range(len(self.blocks)):
                    b = self.blocks[bi]
                    for s in list(b.stmts):
                        if s[0] == '=' and s[2][0] == 'agg' and s[2][1] in ('coroutine', 'closure') and id(s) not in self.consumed:
                            self.consumed.add(id(s))
                            f = s[2][2].fn if s[2][2] is not None else None
                            fr = self.bframe[bi]
                            if f is None or not self.policy(f, fr, None) or fr.count(f) > self.rec_limit or fr.depth >= self.max_depth or len(self.blocks) > self.max_blocks: continue
                            caps = self._caps(s, bi); self._install_caps(bi, s)
                            i = next(k for k, x in enumerate(b.stmts) if x is s)
                            cont = self._new_block(fr)
                            self.blocks[cont].stmts = b.stmts[i + 1:]; self.blocks[cont].term = b.term
                            if bi in done: done.add(cont)
                            b.stmts = b.stmts[:i + 1]
                            lo = len(self.blocks)
                            e, nf = self._inline(f, fr, s[3], caps)
                            self._retarget(lo, len(self.blocks), (nf.off, ()), None, cont, nf, s[3])
                            b.term = ('fork', [cont, e])
                            changed = True
                            break
            if not changed: break
    # -- combinators of Option/Result/bool are replaced by their definition -----
    COMB = {
        # name: (variant whose payload is handed over, how: 'val'|'ref', wrap of the result, what the other variant yields)
        'core::result::Result::<T, E>::map': ('Ok', 'val', ('Result', 'Ok'), 'same'),
        'core::result::Result::<T, E>::map_err': ('Err', 'val', ('Result', 'Err'), 'same'),
        'core::result::Result::<T, E>::and_then': ('Ok', 'val', None, 'same'),
        'core::result::Result::<T, E>::or_else': ('Err', 'val', None, 'same'),
        'core::result::Result::<T, E>::unwrap_or_else': ('Err', 'val', None, 'payload'),
        'core::result::Result::<T, E>::inspect': ('Ok', 'ref', 'self', 'self'),
        'core::result::Result::<T, E>::inspect_err': ('Err', 'ref', 'self', 'self'),
        'core::result::Result::<T, E>::is_ok_and': ('Ok', 'val', None, 'false'),
        'core::result::Result::<T, E>::is_err_and': ('Err', 'val', None, 'false'),
        'core::result::Result::<T, E>::map_or': ('Ok', 'val', None, 'arg1'),
        'core::option::Option::<T>::map': ('Some', 'val', ('Option', 'Some'), 'none'),
        'core::option::Option::<T>::and_then': ('Some', 'val', None, 'none'),
        'core::option::Option::<T>::or_else': ('None', None, None, 'self'),
        'core::option::Option::<T>::unwrap_or_else': ('None', None, None, 'payload'),
        'core::option::Option::<T>::is_some_and': ('Some', 'val', None, 'false'),
        'core::option::Option::<T>::is_none_or': ('Some', 'val', None, 'true'),
        'core::option::Option::<T>::map_or': ('Some', 'val', None, 'arg1'),
        'core::option::Option::<T>::inspect': ('Some', 'ref', 'self', 'self'),
        'core::option::Option::<T>::filter': ('Some', 'ref', 'filter', 'none'),
        'core::option::Option::<T>::ok_or_else': ('None', None, ('Result', 'Err'), 'ok'),
        'core::bool::<impl bool>::then': ('true', None, ('Option', 'Some'), 'none'),
    }
    ADT = {'Result': 'core::result::Result', 'Option': 'core::option::Option'}
    class _IntTy:
        k = 'int'; s = 'isize'; d = None; args = ()
        def peel(self): return self
    class _BoolTy(_IntTy):
        k = 'bool'; s = 'bool'
    def _mk(self, adt, var, ops): return ('agg', 'adt', None, var, tuple(str(i) for i in range(len(ops))), tuple(ops), self.ADT[adt])
    def _desugar(self, bi, fr, c, cl, defs, done):
        d = c.decl.path
        if d in self.ITER and c.target is not None and not any(s[2][1] != 'closure' for _, s, _ in cl) and len(cl) >= 1: return self._desugar_iter(bi, fr, c, cl, d, done)
        sp = self.COMB.get(d)
        if sp is None or c.target is None or any(s[2][1] != 'closure' for _, s, _ in cl): return False
        var, how, wrap, other = sp
        line = c.line
        isbool = var == 'true'
        recv = self.new_local(c.argtys[0], None)
        b = self.blocks[bi]
        b.stmts.append(('=', (recv, ()), ('use', c.args[0]), line))
        adt = 'Option' if 'option' in d else 'Result'
        def blk(stmts, term):
            i = self._new_block(fr); self.blocks[i].stmts = stmts; self.blocks[i].term = term; return i
        T, F = [('const', self._cbool(v)) for v in (True, False)]
        selfuse = ('use', ('move', (recv, ())))
        ovar = {'Ok': 'Err', 'Err': 'Ok', 'Some': 'None', 'None': 'Some'}.get(var)
        def pay(v): return (recv, (('d', v), ('f', '0', None)))
        oth = []
        if other in ('self',): oth = [('=', c.dest, selfuse, line)]
        elif other == 'same': oth = [('=', c.dest, self._mk('Result', ovar, [('move', pay(ovar))]), line)]
        elif other == 'payload': oth = [('=', c.dest, ('use', ('move', pay(ovar))), line)]
        elif other == 'none': oth = [('=', c.dest, self._mk('Option', 'None', []), line)]
        elif other == 'ok': oth = [('=', c.dest, self._mk('Result', 'Ok', [('move', pay('Some'))]), line)]
        elif other == 'false': oth = [('=', c.dest, ('use', F), line)]
        elif other == 'true': oth = [('=', c.dest, ('use', T), line)]
        elif other == 'arg1': oth = [('=', c.dest, ('use', c.args[1]), line)]
        ob = blk(oth, ('goto', c.target))
        entries = []
        for abi, s, f in cl:
            self.consumed.add(id(s))
            rl = self.new_local(f.ltys[0], None)
            if wrap == 'self': after = blk([('=', c.dest, selfuse, line)], ('goto', c.target))
            elif wrap == 'filter':
                nb = blk([('=', c.dest, self._mk('Option', 'None', []), line)], ('goto', c.target))
                yb = blk([('=', c.dest, selfuse, line)], ('goto', c.target))
                after = blk([], ('switch', ('copy', (rl, ())), [('0', nb)], yb, self._BoolTy(), line))
            elif wrap is None: after = blk([('=', c.dest, ('use', ('move', (rl, ()))), line)], ('goto', c.target))
            else: after = blk([('=', c.dest, self._mk(wrap[0], wrap[1], [('move', (rl, ()))]), line)], ('goto', c.target))
            args = []
            if how == 'val': args = [('use', ('move', pay(var)))]
            elif how == 'ref': args = [('ref', pay(var))]
            caps = self._caps(s, abi); self._install_caps(abi, s)
            stub = blk([], None)
            lo = len(self.blocks)
            e, nf = self._inline(f, fr, line, caps)
            for i, a in enumerate(args):
                if 2 + i <= f.ac: self.blocks[stub].stmts.append(('=', (nf.off + 2 + i, ()), a, line))
            self.blocks[stub].term = ('goto', e)
            self._retarget(lo, len(self.blocks), (nf.off, ()), (rl, ()), after, nf, line)
            entries.append(stub)
        hb = entries[0] if len(entries) == 1 else blk([], ('fork', entries))
        if isbool: b.term = ('switch', ('copy', (recv, ())), [('0', ob)], hb, self._BoolTy(), line)
        else:
            dl = self.new_local(self._IntTy(), None)
            b.stmts.append(('=', (dl, ()), ('discr', (recv, ())), line))
            idx = {'Ok': '0', 'Err': '1', 'None': '0', 'Some': '1'}
            b.term = ('switch', ('move', (dl, ())), [(idx[var], hb), (idx[ovar], ob)], blk([], ('unreach',)), self._IntTy(), line)
        return True
    def _desugar_fn(self, bi, fr, c):
        """A combinator handed a function item: call it on the payload."""
        var, how, wrap, other = self.COMB[c.decl.path]
        if wrap in ('self', 'filter') or var == 'true' or other == 'arg1' and len(c.args) < 3: return False
        k = c.args[-1][1]; line = c.line
        recv = self.new_local(c.argtys[0], None); b = self.blocks[bi]
        b.stmts.append(('=', (recv, ()), ('use', c.args[0]), line))
        def blk(stmts, term):
            i = self._new_block(fr); self.blocks[i].stmts = stmts; self.blocks[i].term = term; return i
        ovar = {'Ok': 'Err', 'Err': 'Ok', 'Some': 'None', 'None': 'Some'}[var]
        def pay(v): return (recv, (('d', v), ('f', '0', None)))
        T, F = [('const', self._cbool(v)) for v in (True, False)]
        oth = {'self': lambda: ('use', ('move', (recv, ()))), 'same': lambda: self._mk('Result', ovar, [('move', pay(ovar))]), 'payload': lambda: ('use', ('move', pay(ovar))),
               'none': lambda: self._mk('Option', 'None', []), 'ok': lambda: self._mk('Result', 'Ok', [('move', pay('Some'))]), 'false': lambda: ('use', F), 'true': lambda: ('use', T), 'arg1': lambda: ('use', c.args[1])}[other]()
        ob = blk([('=', c.dest, oth, line)], ('goto', c.target))
        dt = self.place_ty(c.dest) if c.dest[1] else self.ltys[c.dest[0]]
        if wrap is not None:
            i = 1 if wrap == ('Result', 'Err') else 0
            rty = dt.args[i] if dt is not None and len(dt.args) > i else None
        else: rty = dt
        rl = self.new_local(rty, None)
        res = ('use', ('move', (rl, ()))) if wrap is None else self._mk(wrap[0], wrap[1], [('move', (rl, ()))])
        after = blk([('=', c.dest, res, line)], ('goto', c.target))
        call = Call(); call.func = ('const', k); call.dest = (rl, ()); call.line = line; call.exp = 1; call.target = after
        t0 = c.argtys[0]; pi = 1 if var == 'Err' else 0
        call.args = [('move', pay(var))] if how else []
        call.argtys = [t0.args[pi] if len(t0.args) > pi else t0] if how else []
        hb = blk([], ('call', call))
        dl = self.new_local(self._IntTy(), None)
        b.stmts.append(('=', (dl, ()), ('discr', (recv, ())), line))
        idx = {'Ok': '0', 'Err': '1', 'None': '0', 'Some': '1'}
        b.term = ('switch', ('move', (dl, ())), [(idx[var], hb), (idx[ovar], ob)], blk([], ('unreach',)), self._IntTy(), line)
        self._try_inline(hb, fr)
        return True
    # -- consuming iterator methods become loops over Iterator::next --------------
    ITER = {'core::iter::traits::iterator::Iterator::' + n: n for n in ('any', 'all', 'for_each', 'find', 'find_map', 'fold')}
    def _desugar_iter(self, bi, fr, c, cl, d, done):
        from .facts import Ty, Const
        nd = next((x for x in self.prog.defs.values() if x.path == 'core::iter::traits::iterator::Iterator::next'), None)
        od = next((x for x in self.prog.defs.values() if x.path == 'core::option::Option'), None)
        if nd is None or od is None: return False
        how = self.ITER[d]; line = c.line
        def blk(stmts, term):
            i = self._new_block(fr); self.blocks[i].stmts = stmts; self.blocks[i].term = term; return i
        b = self.blocks[bi]
        rt = c.argtys[0]
        if rt.k == 'refmut': recv = c.args[0]; rty = rt; itl = None
        else:
            itl = self.new_local(rt, None); b.stmts.append(('=', (itl, ()), ('use', c.args[0]), line))
            rty = Ty('&mut ' + rt.s, 'refmut'); rty.args = (rt,)
        f0 = cl[0][2]
        if how == 'fold' and f0.ac < 3: return False
        pt = f0.ltys[3 if how == 'fold' else 2] if f0.ac >= 2 else rt
        item = pt.args[0] if how == 'find' and pt.args else pt
        oty = Ty('core::option::Option<%s>' % item.s, 'adt'); oty.d = od; oty.args = (item,)
        opt = self.new_local(oty, None)
        k = Const(); k.fn = nd; k.tr = True; k.args = (rt.args[0] if rt.k == 'refmut' and rt.args else rt,)
        call = Call(); call.func = ('const', k); call.dest = (opt, ()); call.line = line; call.exp = 1; call.argtys = [rty]
        head_stmts = []
        if how == 'fold':
            acc = self.new_local(f0.ltys[2], None); b.stmts.append(('=', (acc, ()), ('use', c.args[1]), line))
        if itl is not None:
            rl0 = self.new_local(rty, None); head_stmts.append(('=', (rl0, ()), ('refmut', (itl, ())), line)); call.args = [('move', (rl0, ()))]
        else:
            # reborrow: the receiver is used on every round
            o = recv if recv[0] == 'const' else ('copy', recv[1]); call.args = [o]
        head = blk(head_stmts, None)
        dl = self.new_local(self._IntTy(), None)
        T, F = [('const', self._cbool(v)) for v in (True, False)]
        end = [('=', c.dest, ('use', ('move', (acc, ()))), line)] if how == 'fold' else {'any': [('=', c.dest, ('use', F), line)], 'all': [('=', c.dest, ('use', T), line)], 'for_each': [],
               'find': [('=', c.dest, self._mk('Option', 'None', []), line)], 'find_map': [('=', c.dest, self._mk('Option', 'None', []), line)]}[how]
        eb = blk(end, ('goto', c.target))
        pay = (opt, (('d', 'Some'), ('f', '0', item)))
        entries = []
        for abi, s, f in cl:
            self.consumed.add(id(s))
            rl = self.new_local(f.ltys[0], None)
            if how == 'fold': after = blk([('=', (acc, ()), ('use', ('move', (rl, ()))), line)], ('goto', head))
            elif how == 'for_each': after = blk([], ('goto', head))
            elif how in ('any', 'all'):
                hit = blk([('=', c.dest, ('use', T if how == 'any' else F), line)], ('goto', c.target))
                after = blk([], ('switch', ('copy', (rl, ())), [('0', head if how == 'any' else hit)], hit if how == 'any' else head, self._BoolTy(), line))
            elif how == 'find':
                hit = blk([('=', c.dest, self._mk('Option', 'Some', [('move', pay)]), line)], ('goto', c.target))
                after = blk([], ('switch', ('copy', (rl, ())), [('0', head)], hit, self._BoolTy(), line))
            else:
                d2 = self.new_local(self._IntTy(), None)
                hit = blk([('=', c.dest, ('use', ('move', (rl, ()))), line)], ('goto', c.target))
                after = blk([('=', (d2, ()), ('discr', (rl, ())), line)], ('switch', ('move', (d2, ())), [('0', head), ('1', hit)], blk([], ('unreach',)), self._IntTy(), line))
            caps = self._caps(s, abi); self._install_caps(abi, s)
            stub = blk([], None); lo = len(self.blocks)
            e, nf = self._inline(f, fr, line, caps)
            if how == 'fold': self.blocks[stub].stmts += [('=', (nf.off + 2, ()), ('use', ('move', (acc, ()))), line), ('=', (nf.off + 3, ()), ('use', ('copy', pay)), line)]
            elif f.ac >= 2: self.blocks[stub].stmts.append(('=', (nf.off + 2, ()), ('ref', pay) if how == 'find' else ('use', ('copy', pay)), line))
            self.blocks[stub].term = ('goto', e)
            self._retarget(lo, len(self.blocks), (nf.off, ()), (rl, ()), after, nf, line)
            entries.append(stub)
        hb = entries[0] if len(entries) == 1 else blk([], ('fork', entries))
        test = blk([('=', (dl, ()), ('discr', (opt, ())), line)], ('switch', ('move', (dl, ())), [('0', eb), ('1', hb)], blk([], ('unreach',)), self._IntTy(), line))
        call.target = test
        self.blocks[head].term = ('call', call)
        done.add(head)
        b.term = ('goto', head)
        return True
    @staticmethod
    def _cbool(v):
        from .facts import Const
        k = Const(); k.v = 'true' if v else 'false'; return k
    def _spawnlike(self, path):
        return 'spawn' in path or 'block_on' in path or 'join' in path or 'timeout' in path or 'FuturesUnordered' in path or path.endswith('::push')
    def _new_block(self, fr):
        N = Block(); N.stmts = []; N.term = ('unreach',)
        self.blocks.append(N); self.bframe.append(fr)
        return len(self.blocks) - 1
    def _closure_body(self, bi, fr, f, abi, s, dest, target, line, args_tuple=None, hof=None):
        caps = self._caps(s, abi); self._install_caps(abi, s)
        stub = self._new_block(fr)
        lo = len(self.blocks)
        e, nf = self._inline(f, fr, line, caps)
        if args_tuple is not None and args_tuple[0] != 'const':
            for i in range(2, f.ac + 1):
                src = (args_tuple[1][0], args_tuple[1][1] + (('f', str(i - 2), f.ltys[i]),))
                self.blocks[stub].stmts.append(('=', (nf.off + i, ()), ('use', ('move', src)), line))
        elif hof is not None:
            # the closure's arguments derive from the receiver of the call
            for i in range(2, f.ac + 1):
                self.blocks[stub].stmts.append(('=', (nf.off + i, ()), ('hof', hof), line))
        self.blocks[stub].term = ('goto', e)
        self._retarget(lo, len(self.blocks), (nf.off, ()), dest, target, nf, line)
        return stub
    def _prune_polls(self):
        """Await loops: the Ready branch only (a pending future is polled again)."""
        for bi, b in enumerate(self.blocks):
            if b.term[0] == 'yield': b.term = ('unreach',)
        for bi, b in enumerate(self.blocks):
            t = b.term
            if t[0] == 'switch' and len(b.stmts) and b.stmts[-1][0] == '=' and b.stmts[-1][2][0] == 'discr':
                p = b.stmts[-1][2][1]
                ty = self.ltys[p[0]] if not p[1] else None
                if ty is not None and ty.d is not None and ty.d.path == 'core::task::poll::Poll':
                    r = [x for v, x in t[2] if v == '0']
                    if r and self._leads_to_yield([x for v, x in t[2] if v == '1'], b): b.term = ('goto', r[0])
    def _leads_to_yield(self, xs, b):
        # the pending arm of an await lowers to (drop)* then yield, now 'unreach'
        n = 0
        while xs and n < 6:
            t = self.blocks[xs[0]].term
            if t[0] == 'unreach': return True
            xs = succs(t); n += 1
        return False
    # -- graph helpers -----------------------------------------------------
    def succ(self, b): return succs(self.blocks[b].term)
    def reachable(self, start=None, cut=None):
        seen = set(); st = [self.entry if start is None else start]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            if cut and cut(b): continue
            st.extend(self.succ(b))
        return seen
    def loc(self, bi, line):
        f = self.bframe[bi].fn
        return '%s:%s' % (f.file, line)
    def where(self, bi):
        return self.bframe[bi].fn.path
    def chain(self, bi):
        return [f.fn.path for f in self.bframe[bi].stack()]
