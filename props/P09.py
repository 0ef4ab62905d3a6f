"""Locks as an order: which lock may be waited for while which is held, over the whole call graph.  A lock is named by
the type it protects (every shared one has its own); a guard is a local of a guard type, held from its definition until
it is dropped or moved away (a may-analysis over MIR), and calls made meanwhile count with everything they may lock."""
from props.common import *
from an.facts import succs, Call
from an.slice import Graph
import re

GUARD = re.compile(r'(?:^|[<( ,])(?:[\w:]+::)?(RwLockReadGuard|RwLockWriteGuard|MutexGuard|OwnedRwLockReadGuard|OwnedRwLockWriteGuard|OwnedMutexGuard|RwLockMappedWriteGuard|MappedMutexGuard)<')
SPAWN = re.compile(r'(^|::)(spawn\w*|block_on|push_background_task)$')

def lock_arg(t):
    """The protected type of a lock type, or None."""
    t = t.peel()
    while t.k == 'adt' and t.d is not None and t.d.path.rsplit('::', 1)[-1] in ('Arc', 'LazyLock', 'Box', 'OnceLock') and t.args: t = t.args[0].peel()
    if t.k == 'adt' and t.d is not None and t.d.path.rsplit('::', 1)[-1] in ('RwLock', 'Mutex') and t.args: return t.args[0]
    return None

def norm(s): return re.sub(r"'\w+", "'_", s)

def guards_in(t, depth=0):
    """Classes of the guards a value of this type owns."""
    out = set()
    if t is None or depth > 4: return out
    if t.k in ('ref', 'refmut', 'ptr'): return out
    if t.k == 'adt' and t.d is not None:
        n = t.d.path.rsplit('::', 1)[-1]
        if n in ('RwLockReadGuard', 'RwLockWriteGuard', 'MutexGuard', 'OwnedRwLockReadGuard', 'OwnedRwLockWriteGuard', 'OwnedMutexGuard', 'RwLockMappedWriteGuard', 'MappedMutexGuard'):
            a = [x for x in t.args if x.k not in ('region',)]
            if a: out.add(norm(a[0].s))
            return out
        if n in ('Option', 'Result', 'Poll', 'PoisonError', 'ControlFlow', 'MaybeUninit', 'Box', 'TryLockError'):
            for a in t.args: out |= guards_in(a, depth + 1)
        return out
    if t.k == 'tuple':
        for a in t.args: out |= guards_in(a, depth + 1)
    return out

def acquires(c):
    """(class, writes?) of the lock this call waits for, or None."""
    d = c.decl
    if d is None or not c.argtys: return None
    n = d.path.rsplit('::', 1)[-1]
    if n in ('read', 'write', 'lock', 'blocking_read', 'blocking_write', 'blocking_lock', 'read_owned', 'write_owned', 'lock_owned'):
        if 'RwLock' in d.path or 'Mutex' in d.path:
            a = lock_arg(c.argtys[0])
            if a is not None: return (norm(a.s), 'read' not in n)
    return None

def lock_types(prog, fns):
    """{class: protected Ty} of every lock waited for."""
    out = {}
    for f in fns:
        for bi, c in f.calls():
            a = acquires(c)
            if a: out[a[0]] = lock_arg(c.argtys[0])
    return out

def many(prog, ty):
    """Does a value protected by such a lock contain further locks of the same kind (so there is one per node of a tree)?"""
    key = norm(ty.s); seen = set(); st = [ty]; first = True
    while st:
        t = st.pop()
        if id(t) in seen: continue
        seen.add(id(t))
        a = lock_arg(t) if t.k == 'adt' else None
        if a is not None and norm(a.s) == key: return True
        st.extend(t.args)
        if t.k == 'adt' and t.d is not None:
            ad = prog.adts.get(t.d.path)
            if ad is not None:
                for v in ad.variants:
                    for fl in v[2]:
                        ft = fl[1] if isinstance(fl, (tuple, list)) else fl
                        if hasattr(ft, 'k'): st.append(ft)
    return False

class Locks:
    def __init__(self, prog, fns):
        self.prog = prog; self.fns = fns
        self.direct = {}; self.exec = {}
        for f in fns:
            s = set()
            for bi, c in f.calls():
                a = acquires(c)
                if a: s.add(a)
            self.direct[f] = s
            self.exec[f] = self.edges(f)
        self.acq = {f: set(s) for f, s in self.direct.items()}
        rev = {}
        for f in fns:
            for g, line in self.exec[f]: rev.setdefault(g, set()).add(f)
        wl = [f for f in fns if self.acq[f]]
        while wl:
            f = wl.pop()
            for h in rev.get(f, ()):
                if not self.acq[f] <= self.acq[h]: self.acq[h] |= self.acq[f]; wl.append(h)
    def spawned(self, f):
        """Locals whose value is handed to another task."""
        mv = {}
        sp = set()
        for b in f.blocks:
            for s in b.stmts:
                if s[0] == '=' and s[2][0] in ('use', 'cast'):
                    o = s[2][1] if s[2][0] == 'use' else s[2][2]
                    if o[0] != 'const' and not o[1][1] and not s[1][1]: mv.setdefault(s[1][0], set()).add(o[1][0])
            if b.term[0] == 'call':
                c = b.term[1]
                if c.decl is not None and SPAWN.search(c.decl.path) and not c.decl.path.endswith('block_on'):
                    for o in c.args:
                        if o[0] != 'const' and not o[1][1]: sp.add(o[1][0])
                elif c.decl is not None and c.decl.path.rsplit('::', 1)[-1] in ('boxed', 'pin', 'new') and not c.dest[1]:
                    for o in c.args:
                        if o[0] != 'const' and not o[1][1]: mv.setdefault(c.dest[0], set()).add(o[1][0])
        st = list(sp)
        while st:
            l = st.pop()
            for k in mv.get(l, ()):
                if k not in sp: sp.add(k); st.append(k)
        return sp
    def sites(self, f):
        """(block, stmt index or None, line, [callees], Call or None)"""
        sp = self.spawned(f)
        for bi, b in enumerate(f.blocks):
            for si, s in enumerate(b.stmts):
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1] in ('closure', 'coroutine', 'coroclosure'):
                    if s[1][0] in sp and not s[1][1]: continue
                    if s[2][2].fn is not None: yield bi, si, s[3], [s[2][2].fn], None
            if b.term[0] == 'call':
                c = b.term[1]
                gs = []
                if c.func[0] == 'const':
                    if not (c.dest[0] in sp and not c.dest[1]):
                        gs += [d.fn for d in self.prog.callees_of_const(c.func[1]) if d.fn is not None]
                    for ty in c.func[1].args:
                        if ty.k == 'fndef' and ty.d is not None and ty.d.fn is not None: gs.append(ty.d.fn)
                for a in c.args:
                    if a[0] == 'const' and a[1].fn is not None: gs += [d.fn for d in self.prog.callees_of_const(a[1]) if d.fn is not None]
                yield bi, None, c.line, gs, c
    def edges(self, f):
        out = []
        for bi, si, line, gs, c in self.sites(f):
            for g in gs: out.append((g, line))
        return out
    def held(self, f):
        """{block: {local: classes}} at block entry."""
        gl = {i: guards_in(t) for i, t in enumerate(f.ltys)}
        gl = {i: g for i, g in gl.items() if g}
        if not gl: return None, None
        return gl, self._flow(f, gl)
    def kill_ops(self, ops, cur):
        for o in ops:
            if o[0] == 'move' and not o[1][1]: cur.discard(o[1][0])
            elif o[0] == 'move' and o[1][0] in cur: cur.discard(o[1][0])
    def step(self, f, b, cur, gl, upto=None):
        for si, s in enumerate(b.stmts):
            if upto is not None and si >= upto: return
            if s[0] == '=':
                rv = s[2]
                ops = [rv[1]] if rv[0] in ('use', 'repeat') else [rv[2]] if rv[0] == 'cast' else list(rv[5]) if rv[0] == 'agg' else []
                self.kill_ops(ops, cur)
                if s[1][0] in gl: cur.add(s[1][0])
            elif s[0] in ('dead', 'sdead') : cur.discard(s[1])
    def _flow(self, f, gl):
        IN = {0: frozenset()}
        wl = [0]
        while wl:
            bi = wl.pop(); b = f.blocks[bi]
            cur = set(IN[bi])
            self.step(f, b, cur, gl)
            t = b.term
            if t[0] == 'call':
                self.kill_ops(t[1].args, cur)
                if t[1].dest[0] in gl: cur.add(t[1].dest[0])
            elif t[0] == 'drop' and not t[1][1]: cur.discard(t[1][0])
            for n in succs(t):
                o = IN.get(n)
                w = frozenset(cur) if o is None else o | cur
                if o is None or w != o: IN[n] = w; wl.append(n)
        return IN

def owned_root(f, l, cls, seen=None):
    """Is the lock behind guard local l part of a value this function owns (made here, so not shared yet)?"""
    # guard <- (poll | call) ... <- read/write(&lock): find the acquiring calls of that class in f
    G = Graph(f)
    res = set()
    def root(pl, depth=0):
        if depth > 12: return None
        base = pl[0]
        t = f.ltys[base]
        if base <= f.ac and base > 0: return 'param'
        if t.k not in ('ref', 'refmut', 'ptr') and '*' not in pl[1][:1]:
            # a value; captured variables are reached through _1
            if t.k in ('coroutine', 'closure'): return 'param'
            if t.k == 'adt' and t.d is not None and t.d.path.rsplit('::', 1)[-1] not in ('Arc', 'Option', 'Result', 'Poll', 'Pin'): return 'owned'
        ds = G.defs.get(base, [])
        out = set()
        for bi, d in ds:
            if isinstance(d, Call):
                if d.args and d.args[0][0] != 'const': out.add(root(d.args[0][1], depth + 1))
                else: out.add('other')
            else:
                rv = d[2]
                if rv[0] in ('ref', 'refmut', 'fakeref'): out.add(root(rv[1], depth + 1))
                elif rv[0] == 'use' and rv[1][0] != 'const': out.add(root(rv[1][1], depth + 1))
                elif rv[0] == 'cast' and rv[2][0] != 'const': out.add(root(rv[2][1], depth + 1))
                else: out.add('other')
        out.discard(None)
        return 'owned' if out == {'owned'} else 'other'
    for bi, c in f.calls():
        a = acquires(c)
        if a and a[0] == cls and c.args[0][0] != 'const': res.add(root(c.args[0][1]))
    return res == {'owned'}

def order(L):
    """{(held, wanted, writes): [(f, line, callee or None, guard local)]}"""
    out = {}; nheld = 0; W, nw = waits(L); wout = []
    for f in L.fns:
        gl, IN = L.held(f)
        if gl is None: continue
        for bi, si, line, gs, c in L.sites(f):
            if bi not in IN: continue
            cur = set(IN[bi]); L.step(f, f.blocks[bi], cur, gl, si)
            if c is not None: L.kill_ops(c.args, cur)
            if not cur: continue
            nheld += 1
            want = {}
            a = acquires(c) if c is not None else None
            if a: want.setdefault(a, None)
            for g in gs:
                for w in L.acq.get(g, ()): want.setdefault(w, g)
            wt = {(c.decl.path, None)} if c is not None and c.decl is not None and WAIT.search(c.decl.path) and not c.decl.path.startswith('core::') else set()
            for g in gs: wt |= {(x, g) for x in W.get(g, ())}
            if wt: wout.append((f, line, sorted(wt, key=lambda x: x[0])[0], {h for l in cur for h in gl[l]}))
            for l in cur:
                for h in gl[l]:
                    for w, g in want.items(): out.setdefault((h, w[0], w[1]), []).append((f, line, g, l))
    return out, nheld, wout, nw

def cycles(edges):
    """Strongly connected components with more than one lock."""
    adj = {}
    for h, w in edges: adj.setdefault(h, set()).add(w); adj.setdefault(w, set())
    idx = {}; low = {}; st = []; on = set(); out = []; n = [0]
    def go(v):
        work = [(v, iter(sorted(adj[v])))]
        idx[v] = low[v] = n[0]; n[0] += 1; st.append(v); on.add(v)
        while work:
            u, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1; st.append(w); on.add(w)
                    work.append((w, iter(sorted(adj[w])))); break
                elif w in on: low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    c = set()
                    while True:
                        x = st.pop(); on.discard(x); c.add(x)
                        if x == u: break
                    out.append(c)
    for v in sorted(adj):
        if v not in idx: go(v)
    return out

# waiting for someone else: the editor's answer, or what another task does
WAIT = re.compile(r'Client::(send_request|show_document|apply_edit|register_capability|unregister_capability|workspace_folders|configuration|show_message_request|\w*_refresh)$|::(join_next|recv|changed|wait_for|notified|recv_many|closed)$')
def waits(L):
    """{fn: what it may wait for}"""
    prim = {}
    for f in L.fns:
        for bi, c in f.calls():
            if c.decl is not None and WAIT.search(c.decl.path) and not c.decl.path.startswith('core::'): prim.setdefault(f, set()).add(c.decl.path)
    n = sum(len(v) for v in prim.values())
    got = {f: set(s) for f, s in prim.items()}; rev = {}
    for f in L.fns:
        for g, line in L.exec[f]: rev.setdefault(g, set()).add(f)
    wl = list(got)
    while wl:
        f = wl.pop()
        for h in rev.get(f, ()):
            a = got.setdefault(h, set())
            if not got[f] <= a: a |= got[f]; wl.append(h)
    return got, n

def short(s): return re.sub(r'(\w+::)+', '', s)

def check(ck):
    prog = ck.prog
    mr = ck.need(main_root(prog), 'main', 'binary entry point')
    live = list(shipped(prog, [mr]))
    L = Locks(prog, live)
    types = lock_types(prog, live)
    tree = {c for c, t in types.items() if many(prog, t)}
    ck.floor('locks', len(types) - len(tree), 12)
    ck.count('locks_per_schema_node', len(tree))
    ck.floor('acquisition_sites', sum(1 for f in live for _, c in f.calls() if acquires(c)), 60)
    o, nheld, wout, nw = order(L)
    ck.floor('calls_made_under_a_lock', nheld, 200)
    ck.count('functions', len(live))
    def at(w): f, line, g, l = w; return '%s (%s)%s' % (prog.outer(f).path, f.loc(line), ', which calls ' + g.path if g is not None else '')
    edges = {(h, w) for h, w, wr in o if h != w}
    ck.floor('orders', len(edges), 20)
    # a. a lock is never waited for by who holds it
    for h, w, wr in sorted(o):
        if h != w: continue
        sites = o[h, w, wr]
        if h in tree:
            # one lock per schema node: nested reading goes down the schema; a writer may meet the node it came from
            if not wr: ck.count('nested_readers', len(sites)); continue
            for s in sites:
                ck.ob(owned_root(s[0], s[3], h), 'again:%s:%s' % (short(h), prog.outer(s[0]).path), 'the lock of %s may be written while this task still holds it: %s' % (short(h), at(s)))
        else:
            for s in sites: ck.ob(False, 'again:%s:%s' % (short(h), prog.outer(s[0]).path), 'the lock of %s is waited for while this task already holds it: %s' % (short(h), at(s)))
    # b. locks are always taken in one order
    for comp in cycles(edges):
        if len(comp) < 2: continue
        es = sorted(e for e in edges if e[0] in comp and e[1] in comp)
        k = '+'.join(sorted(short(c) for c in comp))
        first = {}
        for h, w in es:
            for wr in (False, True):
                for s in o.get((h, w, wr), ()): first.setdefault((h, w), s)
        ck.ob(False, 'order:' + k, 'locks are taken in both orders: ' + '; '.join('%s then %s in %s' % (short(h), short(w), at(first[h, w])) for h, w in es))
    # c. no lock is held while waiting for the editor or for another task
    ck.floor('waits_for_others', nw, 4)
    for f, line, (x, g), hs in wout:
        ck.ob(False, 'wait:%s:%s' % (x.rsplit('::', 1)[-1], prog.outer(f).path), 'the lock of %s is held while waiting for %s: %s' % (', '.join(short(h) for h in sorted(hs)), x, at((f, line, g, None))))
    ck.count('waits_under_a_lock', len(wout))
    for h, w in sorted(edges): ck.ob(True, '', '', sample='%s before %s' % (short(h), short(w)))
    ck.rule('the relation "waited for while held" between locks, over all calls, has no cycle and no lock waits for itself; nothing is held while waiting for the editor or another task')
