"""Focused exploration of the schema validators: some keywords of the schema are present, the outcome of comparing the
value with each of them is assumed, and what the validator then reports and returns is computed along every path."""
import re
from props.common import *
from an.explore import variant_to_discr

VAL = 'tombi_validator::'
INV = (('d', 'Err'), ('f', '0')); FAILED = INV + (('f', 'assertion_failed'),); DIAGS = INV + (('f', 'diagnostics'),)
SET = ('f', '#')
SOME0 = (('d', 'Some'), ('f', '0')); OK0 = (('d', 'Ok'), ('f', '0'))
def last(c): return c.decl.path.rsplit('::', 1)[-1] if c.decl is not None else ''
def fld(t): return t[1][1] if isinstance(t, tuple) and len(t) == 2 and t[0] == 'str' and isinstance(t[1], tuple) and t[1][0] == 'F' else None
def sub(t, *x): return ('str', ('F', t[1][1], t[1][2] + x))
def F0(f): return ('str', ('F', f, ()))
def is_opt(t): return t is not None and t.d is not None and t.d.path == OPT
def vres(t):
    """Result<Valid, Invalid>?"""
    return is_result(t) and len(t.args) == 2 and t.args[1].d is not None and t.args[1].d.path == VAL + 'invalid::Invalid'
def diagvec(t):
    t = t.peel()
    return t.d is not None and t.d.path == 'alloc::vec::Vec' and t.args and t.args[0].d is not None and t.args[0].d.path == 'tombi_diagnostic::diagnostic::Diagnostic' or t.s.endswith('Vec<tombi_diagnostic::Diagnostic>')

def resvec(t):
    t = t.peel()
    return bool(t.d is not None and t.args and vres(t.args[0]) and (t.d.path in ('alloc::vec::Vec', 'alloc::vec::into_iter::IntoIter', 'core::slice::iter::Iter')))

class VX(Explorer):
    def tv(self, bi, env, v):
        """The constant, variant or taint behind a value (through references and copies)."""
        for _ in range(8):
            if v is None: return None
            if v[0] in ('str', 'c', 'v', 'fn', 'clo'): return v
            if v[0] not in ('r', 's'): return None
            p = v[1]; a = self.assumed(bi, p)
            if a is not None: v = a if isinstance(a, tuple) else dict(a).get(())
            else:
                n = env.get(p)
                if n == v: return None
                if n is None:      # part of something that belongs to a keyword
                    q = p
                    for _ in range(8):
                        if q[1]: q = (q[0], q[1][:-1])
                        elif isinstance(q[0], tuple) and q[0][0] == 'S': q = q[0][1]
                        else: return None
                        w = env.get(q)
                        if w is not None and w[0] == 'str' and fld(w): return w
                        if w is not None and w[0] in ('r', 's') and w[1] != p: w = self.tv(bi, env, w); return w if fld(w) else None
                        if w is not None and not q[1]: return None
                    return None
                v = n
        return None
    def opv(self, bi, env, o): return self.tv(bi, env, self.eval(bi, env, o))
    def taints(self, bi, env, o, depth=3):
        """Taints held anywhere in an operand, references followed."""
        out = set(); seen = set()
        st = [(v, depth) for _, v in self.optree(bi, env, o) if v is not None]
        while st:
            v, n = st.pop()
            if (v, n) in seen: continue
            seen.add((v, n))
            w = self.tv(bi, env, v) if v[0] in ('r', 's') else None
            if w is not None and fld(w): out.add(w)
            if v[0] == 'str' and isinstance(v[1], tuple): out.add(v)
            elif v[0] in ('r', 's') and n > 0:
                a = self.assumed(bi, v[1]); q = v[1]
                for _ in range(8):      # behind a pointer held in a keyword, or inside one
                    if a is not None: break
                    if q[1]: q = (q[0], q[1][:-1])
                    elif isinstance(q[0], tuple) and q[0][0] == 'S': q = q[0][1]
                    else: break
                    a = self.assumed(bi, q)
                    if a is None and (env.get(q) or (0,))[0] == 'str': a = env[q]
                if a is not None:
                    for x in ([a] if isinstance(a, tuple) else [y for _, y in a]): st.append((x, n - 1))
                for _, x in self.subtree(env, v[1]):
                    if x is not None: st.append((x, n - 1))
        return out
    # what is known about a list of diagnostics survives calls that only borrow it
    def kill_below(self, env, p):
        keep = {k: v for k, v in env.items() if k[0] == p[0] and k[1][:len(p[1])] == p[1] and k[1] and (k[1][-1] == SET or k[1][-1] == ('f', 'assertion_failed'))}
        self.kill(env, p); env.update(keep)
    def assign(self, env, dest, tree):
        Explorer.assign(self, env, dest, [(s, v) for s, v in tree if not (s and s[0] == '@')])
        for s, v in tree:
            if s and s[0] == '@': env[s[1]] = v
    def do_stmt(self, bi, env, s):
        if s[0] == '=' and s[2][0] == 'bin':
            op = s[2][1]; base = op.replace('WithOverflow', '').replace('Unchecked', '')
            a = self.opv(bi, env, s[2][2]); b = self.opv(bi, env, s[2][3])
            v = None
            if base in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'): v = self.m.compare(self, bi, base, a, b, s[2][2], s[2][3], s[3])
            elif base in ('Rem', 'Sub', 'Mul', 'Div', 'BitAnd') and (fld(a) or fld(b)):
                v = sub(a if fld(a) else b, base)
            elif base == 'Add' and a is not None and b is not None and a[0] == 'c' and b[0] == 'c' and a[1].isdigit() and b[1].isdigit():
                v = ('c', str(min(2, int(a[1]) + int(b[1]))))
            if v is not None:
                dest = self.resolve(env, s[1]); self.kill(env, dest)
                env[(dest[0], dest[1] + ((('f', '0'),) if op.endswith('WithOverflow') else ()))] = v
                return
        if s[0] == '=' and s[2][0] == 'un' and s[2][1] == 'Neg':
            v = self.opv(bi, env, s[2][2])
            if fld(v): dest = self.resolve(env, s[1]); self.kill(env, dest); env[dest] = sub(v, 'Neg'); return
        if s[0] == '=' and s[2][0] == 'cast':
            v = self.opv(bi, env, s[2][2])
            if v is not None and fld(v): dest = self.resolve(env, s[1]); self.kill(env, dest); env[dest] = v; return
        if s[0] == '=' and s[2][0] == 'ref' and '*' in s[2][1][1]:
            p = self.resolve(env, s[2][1])      # a reference into something that belongs to a keyword
            if isinstance(p[0], tuple):
                v = self.tv(bi, env, ('r', p))
                if v is not None and fld(v): dest = self.resolve(env, s[1]); self.kill(env, dest); env[dest] = v; return
        if s[0] == '=' and s[2][0] == 'discr':
            p = self.resolve(env, s[2][1]); v = env.get(p)
            ty = place_ty(self.F, s[2][1])
            if v is None and isinstance(p[0], tuple) and p[0][0] == 'S' and not p[1]: v = self.tv(bi, env, env.get(p[0][1]))
            if v is not None and v[0] == 'str' and ty is not None and ty.d is not None:
                w = self.m.variant(self, bi, v, ty.d.path)
                if w is not None:
                    d = variant_to_discr(self.prog, ty.d.path, w)
                    if d is not None:
                        dest = self.resolve(env, s[1]); self.kill(env, dest); env[dest] = ('c', d); return
        return Explorer.do_stmt(self, bi, env, s)

def zero(x):
    try: return float(re.sub(r'(f64|f32|_?[iu]\d+|_?usize)$', '', x)) == 0
    except ValueError: return False
REL = {'Lt': ('lt',), 'Le': ('lt', 'eq'), 'Gt': ('gt',), 'Ge': ('gt', 'eq'), 'Eq': ('eq',), 'Ne': ('lt', 'gt')}
FLIP = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}

class VM(Model):
    """One focused run.  present: keyword -> value assumed (None = an opaque value of that keyword); rel: keyword ->
    'lt'/'eq'/'gt' (the measured value against the keyword) or 'sat'/'vio'; kinds: diagnostics that must be reported;
    loop: keyword (or 'V' = the elements of the value) whose elements are each in the assumed situation.
    astate: (loop state, what was reported, schemas applied {id: outcome}, kinds that had to survive)"""
    init = (None, frozenset(), frozenset(), frozenset())
    def __init__(self, schemas, present, rel=None, kinds=(), loop=None, variants=None, bools=None, outcomes=('ok',), rules=None, depth=None, args=None, other=()):
        self.schemas = schemas; self.present = present; self.rel = rel or {}; self.kinds = set(kinds); self.loop = loop
        self.variants = variants or {}; self.bools = bools or {}; self.outcomes = outcomes; self.rules = rules or {}; self.args = args or {}
        self.eqblocks = set(); self.eqheads = set(); self.unknown = set(); self.compared = {}; self.measured = {}; self.children = set(); self.pushed = set(); self.used = set(); self.other = set(other)
    # ---------------------------------------------------------------- assumptions
    def read(self, X, bi, p, owner):
        if not p[1] or p[1][-1][0] != 'f': return None
        f = p[1][-1][1]
        if f.startswith('^'):
            if f[1:] in self.args:
                v = self.args[f[1:]]
                return [((), v)] if isinstance(v, tuple) else v
            if f.endswith('rules'): return [((), ('v', OPT, 'Some'))]
            return None
        if owner is None: return None
        if owner in self.schemas:
            ty = X.ftype(owner, f)
            if not is_opt(ty):
                return [((), F0(f))] if f in self.present else None
            if f not in self.present: return [((), ('v', OPT, 'None'))]
            v = self.present[f]
            return [((), ('v', OPT, 'Some')), (SOME0, v if v is not None else F0(f))]
        if owner.endswith('Rules') and 'comment_directive' in owner:
            ty = X.ftype(owner, f)
            if is_opt(ty): return [((), ('v', OPT, 'Some')), (SOME0, ('str', ('L', f, ())))]
        if f == 'disabled': return [((), ('v', OPT, 'Some')), (SOME0, F_)]
    def variant(self, X, bi, v, adt):
        f = fld(v)
        return self.variants.get((f, adt)) or self.variants.get(adt)
    def discr(self, X, bi, place, adt): return self.variants.get(adt)
    # ---------------------------------------------------------------- comparisons
    def truth(self, f):
        r = self.rel.get(f)
        return None if r is None else r in ('sat', 'eq')
    def compare(self, X, bi, op, a, b, oa, ob, line):
        if not fld(a) and not fld(b): return None
        if fld(a) and fld(b): return None
        t = a if fld(a) else b; f = fld(t); r = self.rel.get(f)
        if f == 'multiple_of' and not t[1][2]:        # a divisor is positive
            o = b if fld(a) else a
            if o is not None and o[0] == 'c' and zero(o[1]): return cbool((FLIP['gt'] if fld(b) else 'gt') in REL[op])
            return None
        if r is None: return None
        self.compared.setdefault(f, set()).add(op)
        if 'Rem' in t[1][2] or r in ('sat', 'vio'):
            o = b if fld(a) else a
            ok = r == 'sat'
            if 'Rem' in t[1][2] and not (o is not None and o[0] == 'c' and zero(o[1])): return None
            if op == 'Eq': return cbool(ok)
            if op == 'Ne': return cbool(not ok)
            if op in ('Gt', 'Lt') and 'Rem' in t[1][2]: return None
            return None
        if t[1][2] and set(t[1][2]) & {'Sub', 'Mul', 'Div', 'Neg', 'BitAnd'}: return None
        self.measured.setdefault(f, set()).update(X.measure(oa if fld(b) else ob))
        if fld(a): r = FLIP[r]
        return cbool(r in REL[op])
    # ---------------------------------------------------------------- calls
    def call_alts(self, X, bi, c, env, argv, a):
        l = last(c); d = c.callee; path = d.path if d is not None else ''
        loop, tags, ch, must = a
        dt = X.F.ltys[c.dest[0]] if not c.dest[1] else place_ty(X.F, c.dest)
        # reporting
        if l == 'push_diagnostic_with_level': return self.report(X, bi, c, env, argv, a)
        if l == 'handle_unused_noqa': return [([], a)]
        # lists of diagnostics
        if dt is not None and diagvec(dt) and l in ('new', 'with_capacity', 'default') and dt.k == 'adt': return [([((SET,), ('set', frozenset()))], a)]
        if c.argtys and diagvec(c.argtys[0]):
            r = self.vec(X, bi, c, env, argv, a, l)
            if r is not None: return r
        if c.argtys and resvec(c.argtys[0]) or dt is not None and resvec(dt):
            r = self.rvec(X, bi, c, env, argv, a, l, dt)
            if r is not None: return r
        if l in ('default', 'new') and dt is not None and 'MatchEvidence' in dt.s and not c.args: return [([((), ('str', ('ME0',)))], a)]
        if path == 'core::mem::swap': self.swap(X, env, argv); return [([], a)]
        if l in ('clone', 'default') and dt is not None and dt.s == 'bool': return None
        if l == 'new' and c.decl is not None and c.decl.path.startswith('alloc::boxed::Box'): return [([(s, v) for s, v in X.optree(bi, env, c.args[0]) if v is not None and not X._val_mentions(v, X.resolve(env, c.dest))], a)]
        # subschemas
        po = poll_output(X.F, c)
        if po is not None: return self.poll(X, bi, c, env, argv, a, po)
        if path.startswith(VAL) or 'tombi_schema_store' in path:
            r = self.child(X, bi, c, env, argv, a, l, path, dt)
            if r is not None: return r
        # comparisons and everything computed from a keyword
        vs = [X.tv(bi, env, v) for v in argv]
        fs = [v for v in vs if fld(v)]
        if l == 'next' and c.argtys: return self.next(X, bi, c, env, argv, vs, a, dt)
        for n, v in self.bools.items():
            if l == n: self.used.add(n)
            if l == n: return [([((), cbool(v))], a)] if isinstance(v, bool) else [([((), v)] if isinstance(v, tuple) else v, a)]
        if l in ('eq', 'ne') and len(vs) == 2 and 'MatchEvidence' in c.argtys[0].s and all(X.taints(bi, env, o) == {('str', ('ME0',))} for o in c.args): return [([((), cbool(l == 'eq'))], a)]
        if l in ('eq', 'ne') and len(c.args) == 2 and is_opt(c.argtys[0].peel()):
            r = self.opteq(X, bi, env, argv)
            if r is not None: return [([((), cbool(r == (l == 'eq')))], a)]
        if dt is not None and dt.k == 'bool' and len(vs) == 2 and l in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') and fs:
            if self.rel.get(fld(fs[0])) in ('sat', 'vio') and l in ('eq', 'ne') and 'Rem' not in fs[0][1][2]:
                if len(fs) == 2: return None
                self.compared.setdefault(fld(fs[0]), set()).add(l)
                if self.rel[fld(fs[0])] == 'sat': self.eqblocks.add(bi)
                return [([((), cbool((self.rel[fld(fs[0])] == 'sat') == (l == 'eq')))], (a[0], a[1] | {('eqd',)}) + tuple(a[2:]) if self.eqheads else a)]
            v = self.compare(X, bi, l.capitalize(), vs[0], vs[1], c.args[0], c.args[1], c.line)
            if v is not None: return [([((), v)], a)]
            self.unknown.add('%s %s' % (l, fld(fs[0]))); return None
        if l in ('partial_cmp', 'cmp', 'total_cmp') and len(fs) == 1:
            f = fld(fs[0]); r = self.rel.get(f)
            if r in FLIP:
                self.compared.setdefault(f, set()).add(l)
                if fld(vs[0]): r = FLIP[r]
                o = ('v', 'core::cmp::Ordering', {'lt': 'Less', 'eq': 'Equal', 'gt': 'Greater'}[r])
                return [([((), ('v', OPT, 'Some')), (SOME0, o)] if l == 'partial_cmp' else [((), o)], a)]
        if l in ('get', 'nth', 'get_mut') and fs and fs[0] is vs[0] and is_opt(dt) and len(c.argtys) > 1 and c.argtys[1].s == 'usize':     # an element by position
            f = fld(fs[0]); r = self.rel.get(f)
            some = ([((), ('v', OPT, 'Some')), (SOME0, fs[0])], a); none = ([((), ('v', OPT, 'None'))], a)
            if r in FLIP: self.compared.setdefault(f, set()).add(l); return [some if r == 'lt' else none]
            if r is None: return [some, none]
        if fs and dt is not None and dt.k == 'bool':
            f = fld(fs[0])
            if l in ('is_empty',): return [([((), F_)], a)]
            if path.endswith('::validate_format'):
                w = self.variants.get('format')
                self.compared.setdefault(f, set()).add(path)
                return None
            t = self.truth(f)
            if t is not None and l in ('contains', 'is_match', 'is_multiple_of_with_tolerance', 'is_multiple_of', 'any', 'contains_key', 'is_some_and'):
                if 'trigger' in self.rel and fs[0][1][2][-1:] == ('k',): return [([((), cbool(self.rel['trigger'] == 'sat'))], a)]
                self.compared.setdefault(f, set()).add(l); return [([((), cbool(t))], a)]
            if t is not None and l not in ('is_some', 'is_none'): self.unknown.add(path)
            return None
        ls = [v for v in vs if v is not None and v[0] == 'str' and isinstance(v[1], tuple)]
        if ls and dt is not None and dt.s != '()' and l not in ('is_some', 'is_none', 'as_ref', 'as_deref', 'as_deref_mut', 'deref', 'clone', 'cloned', 'copied', 'unwrap_or', 'unwrap_or_default', 'then_some'):
            t = (fs or ls)[0]
            if fld(t) and l in ('graphemes', 'len', 'count', 'rem_euclid'): t = sub(t, 'Rem' if l == 'rem_euclid' else l)
            elif fld(t) and l in ('get', 'first', 'index', 'to_owned', 'into_iter', 'iter', 'enumerate', 'keys', 'values', 'read'): pass
            if is_opt(dt): return [([((), ('v', OPT, 'Some')), (SOME0, t)], a)]
            if is_result(dt): return [([((), ('v', RES, 'Ok')), (OK0, t)], a)]
            return [([((), t)], a)]
        if l in ('clone', 'cloned', 'copied', 'deref', 'as_ref') and ls and argv and (argv[0][0] == 'str' or fs and is_opt(dt) is False): return [([((), ls[0])], a)]
        r = self.special(X, bi, c, env, argv, a, l, path, dt)
        return r
    def special(self, X, bi, c, env, argv, a, l, path, dt): return None
    def opteq(self, X, bi, env, argv):
        vs = []
        for v in argv:
            p = v[1] if v is not None and v[0] == 'r' else None
            if p is None: return None
            for _ in range(4):
                a = X.assumed(bi, p)
                d = {(): a} if isinstance(a, tuple) else dict(a) if a is not None else dict(X.subtree(env, p))
                w = d.get(())
                if a is None and w is not None and w[0] in ('r', 's') and w[1] != p: p = w[1]; continue
                break
            if w is None or w[0] != 'v' or w[1] != OPT: return None
            vs.append((w[2], X.tv(bi, env, d.get(SOME0))))
        (n1, x1), (n2, x2) = vs
        if n1 != n2: return False
        if n1 == 'None': return True
        if x1 is not None and x2 is not None and x1[0] == x2[0] == 'c': return x1 == x2
        return None
    # ---------------------------------------------------------------- reporting
    def report(self, X, bi, c, env, argv, a):
        loop, tags, ch, must = a
        t = dict(X.optree(bi, env, c.args[0])); k = t.get((('f', 'kind'),))
        k = X.tv(bi, env, k)
        k = k[2] if k is not None and k[0] == 'v' else None
        if k is None: self.unknown.add('kind'); k = '?'
        self.pushed.add(k)
        lv = X.tv(bi, env, argv[1]); want = self.rules.get(k)
        got = lv[1][1] if lv is not None and lv[0] == 'str' and isinstance(lv[1], tuple) and lv[1][0] == 'L' else None
        if k in self.kinds:
            if want is not None and got != want: return [([], '!%s is reported at the severity of %s instead of the rule %s' % (k, 'the rule ' + got if got else 'its default', want))]
            if want is None and got is not None: return [([], '!%s is reported at the severity of the rule %s' % (k, got))]
        elif k in self.other: return []
        elif '?' != k: return [([], '!%s is reported although %s' % (k, self.what()))]
        act = t.get((('f', 'kind'), ('d', k), ('f', 'actual')))
        act = X.tv(bi, env, act)
        if fld(act) and 'Rem' not in act[1][2]: return [([], '!%s gives the keyword as the actual value' % k)]
        v = argv[2] if len(argv) > 2 else None
        q = v[1] if v is not None and v[0] == 'r' else None
        cur = env.get((q[0], q[1] + (SET,))) if q is not None else None
        loop2 = False if loop is True else loop
        tags2 = tags | {k}
        out = [([], (loop2, tags2, ch, must))]
        if cur is not None:
            out.append(([(('@', (q[0], q[1] + (SET,))), ('set', cur[1] | {k}))], (loop2, tags2, ch, must | {k})))
        else: self.unknown.add('list')
        return out
    def what(self): return 'the value satisfies the schema' if not self.kinds else 'another keyword is violated'
    def vec(self, X, bi, c, env, argv, a, l):
        v = argv[0]
        v = v if v is not None and v[0] == 'r' else None
        q = v[1] if v is not None else None
        k = (q[0], q[1] + (SET,)) if q is not None else None
        cur = env.get(k) if k is not None else None
        if l in ('is_empty', 'len') and cur is not None:
            if l == 'is_empty': return [([((), cbool(not cur[1]))], a)] if cur[1] != {'?'} else None
            return [([((), ('c', '0'))], a)] if not cur[1] else None
        if cur is None and k is not None and l in ('extend', 'append', 'extend_from_slice', 'push'): cur = ('set', frozenset('?'))
        dt = X.F.ltys[c.dest[0]] if not c.dest[1] else None
        if l in ('into', 'from') and dt is not None and dt.d is not None and dt.d.path == VAL + 'invalid::Invalid':
            o = dict(X.optree(bi, env, c.args[0])).get((SET,))
            f = [] if o is None or '?' in o[1] or o[1] - {'Nothing'} else [((('f', 'assertion_failed'),), cbool(bool(o[1])))]
            return [([((('f', 'diagnostics'), SET), o or ('set', frozenset('?')))] + f, a)]
        if l in ('extend', 'append', 'extend_from_slice') and len(c.args) > 1 and cur is not None:
            o = dict(X.optree(bi, env, c.args[1])).get((SET,))
            if o is None:
                w = argv[1]
                if w is not None and w[0] == 'r': o = env.get((w[1][0], w[1][1] + (SET,)))
            new = cur[1] | (o[1] if o is not None else frozenset('?'))
            t = [(('@', k), ('set', new))]
            return [(t, a)]
        if l == 'push' and cur is not None:
            tg = dict(X.optree(bi, env, c.args[1])).get((SET,))
            return [([(('@', k), ('set', cur[1] | (tg[1] if tg is not None else {'other'})))], a)]
        if l in ('into_iter', 'collect', 'collect_vec', 'unique', 'into', 'iter') or (c.argtys[0].k == 'adt' and l not in ('into_boxed_slice',)):
            o = dict(X.optree(bi, env, c.args[0])).get((SET,)) if c.argtys[0].k == 'adt' else cur
            if o is not None: return [([((SET,), o)], a)]
        if l == 'clone' and cur is not None: return [([((SET,), cur)], a)]
        if l == 'retain' and cur is not None: return [([], a)]
        if l in ('clear', 'truncate') and cur is not None: return [([(('@', k), ('set', frozenset()))], a)]
        return None
    def rvec(self, X, bi, c, env, argv, a, l, dt):
        if l in ('new', 'with_capacity', 'default') and dt is not None and resvec(dt): return [([((SET,), ('set', frozenset()))], a)]
        if not c.args: return None
        v = argv[0]; ref = v is not None and v[0] == 'r'
        k = (v[1][0], v[1][1] + (SET,)) if ref else None
        cur = env.get(k) if ref else dict(X.optree(bi, env, c.args[0])).get((SET,))
        if cur is None: return None
        if l == 'push':
            o = self.outcome_of(dict(X.optree(bi, env, c.args[1])))
            if o is None: self.unknown.add('result'); return [([(('@', k), ('set', None))], a)]
            return [([(('@', k), ('set', cur[1] | {o} if cur[1] is not None else None))], a)]
        if l in ('into_iter', 'iter', 'drain', 'collect', 'rev', 'iter_mut'): return [([((SET,), cur)], a)]
        if l == 'next' and cur[1] is not None and ref:
            item = dt.args[0] if is_opt(dt) else None
            m = ('seen', 'results', c.line)
            out = []
            for o, d in sorted(cur[1], key=repr):
                t = [(SOME0 + s, x) for s, x in self.outcome(o, '')] if item is not None and item.k == 'adt' else []
                t = [(s, ('set', d)) if s and s[-1] == SET else (s, x) for s, x in t]
                out.append(([((), ('v', OPT, 'Some'))] + t + [(('@', k), cur)], (a[0], a[1] | {m}, a[2], a[3])))
            if m in a[1] or not cur[1]: out.append(([((), ('v', OPT, 'None'))], (a[0], a[1] - {m}, a[2], a[3])))
            return out
        if l == 'is_empty' and cur[1] is not None: return [([((), cbool(not cur[1]))], a)]
        return None
    def swap(self, X, env, argv):
        if not all(v is not None and v[0] == 'r' for v in argv): self.unknown.add('swap'); return
        p, q = argv[0][1], argv[1][1]
        t1, t2 = X.subtree(env, p), X.subtree(env, q)
        X.kill(env, p); X.kill(env, q)
        for s, v in t2: env[(p[0], p[1] + s)] = v
        for s, v in t1: env[(q[0], q[1] + s)] = v
    # ---------------------------------------------------------------- lists of results
    def outcome_of(self, t):
        v = t.get(())
        if v is None or v[0] != 'v': return None
        if v[2] == 'Ok': return ('ok', frozenset())
        f = t.get(FAILED); d = t.get(DIAGS + (SET,))
        if f not in (T, F_) or d is None: return None
        return (('fail' if f == T else 'warn'), d[1])
    # ---------------------------------------------------------------- subschemas
    def outcome(self, o, tag):
        """Tree of a Result<Valid, Invalid>: 'ok', 'warn' (reported, not failed), 'fail', 'off' (failed, nothing reported)"""
        if o == 'ok': return [((), ('v', RES, 'Ok'))]
        return [((), ('v', RES, 'Err')), (FAILED, cbool(o != 'warn')), (DIAGS + (SET,), ('set', frozenset({tag}) if o != 'off' else frozenset()))]
    def applied(self, a, cid, o):
        loop, tags, ch, must = a
        m = must | {'~' + cid} if self.kept(cid, o) else must
        x = (cid, o)
        if self.twice and o in ('ok', 'warn') and any(c == cid and p.startswith(('ok', 'warn')) for c, p in ch): x = (cid, o + '2')
        return (False if loop is True else loop, tags, ch | {x}, m)
    twice = False
    def kept(self, cid, o): return o in ('warn', 'fail')
    def child(self, X, bi, c, env, argv, a, l, path, dt):
        ts = set()
        for o in c.args: ts |= X.taints(bi, env, o)
        fs = sorted({t[1][1] for t in ts if t[1][0] == 'F'})
        cid = '+'.join(fs) if fs else 'self'
        if l == 'resolve_property_schema': cid = 'properties'
        if l == 'resolve_pattern_property_schema': cid = 'pattern_properties'
        if vres(dt) and not path.startswith('<'):
            self.children.add(cid)
            return [(self.outcome(o, '~' + cid), self.applied(a, cid, o)) for o in self.outcomes_of(cid)]
        if dt is not None and (l.startswith('resolve_') or l.startswith('validate') or path.startswith(VAL) and 'Future' in dt.s or path.endswith('>::validate')):
            if dt.k == 'bool' or l == 'validate_format': return None
            if l.startswith('validate') and self.order(X, bi, c, env, l, ts): return [([], self.order(X, bi, c, env, l, ts))]
            return [([((), ('str', ('R' if l.startswith('resolve') else 'CH', cid, l)))], a)]
        return None
    def order(self, X, bi, c, env, l, ts): return None
    def outcomes_of(self, cid): return self.outcomes if not isinstance(self.outcomes, dict) else self.outcomes.get(cid, ('ok',))
    def poll(self, X, bi, c, env, argv, a, po):
        v = X.tv(bi, env, argv[0])
        s = v[1] if v is not None and v[0] == 'str' and isinstance(v[1], tuple) else None
        R = [((), ('v', POLLT, 'Ready'))]
        if vres(po) or is_opt(po) and po.args and vres(po.args[0]):
            cid = s[1] if s is not None and s[0] == 'CH' else '?'
            self.children.add(cid)
            pre = READY + (SOME0 if is_opt(po) else ())
            out = []
            for o in self.outcomes_of(cid):
                t = list(R)
                if is_opt(po): t.append((READY, ('v', OPT, 'Some')))
                out.append((t + [(pre + k, x) for k, x in self.outcome(o, '~' + cid)], self.applied(a, cid, o)))
            return out
        if is_result(po) and is_opt(po.args[0]) and 'CurrentSchema' in po.s:
            if s is not None and s[0] == 'R': return [(R + [(READY, ('v', RES, 'Ok')), (READY + OK0, ('v', OPT, 'Some')), (READY + OK0 + SOME0, F0(s[1]))], a)]
            return [(R + [(READY, ('v', RES, 'Ok')), (READY + OK0, ('v', OPT, 'Some'))], a)]
        if is_opt(po) and 'CurrentSchema' in po.s and s is not None and s[0] == 'R':
            tr = R + [(READY, ('v', OPT, 'Some'))]
            if po.args[0].k == 'tuple' and len(po.args[0].args) > 1: return [(tr + [(READY + SOME0 + (('f', '0'),), F0(s[1]))], a), (R + [(READY, ('v', OPT, 'None'))], a)]
            return [(tr + [(READY + SOME0 + ((('f', '0'),) if po.args[0].k == 'tuple' else ()), F0(s[1]))], a)]
        if is_opt(po) and 'eprecation' in po.s: return [(R + [(READY, ('v', OPT, 'None'))], a)]
        if v is not None and fld(v): return [(R + [(READY, v)], a)]
        if po.k == 'tuple' and po.args and is_opt(po.args[0]) and 'LintRules' in po.args[0].s: return [(R + [(READY + (('f', '0'),), ('v', OPT, 'Some'))], a)]
        return [(R, a)]
    # ---------------------------------------------------------------- loops
    def next(self, X, bi, c, env, argv, vs, a, dt):
        loop, tags, ch, must = a
        t = vs[0] if vs and fld(vs[0]) else None
        if bi in self.eqheads and t is None:
            # searched for something that is there: the search does not end before it is met
            out = [([((), ('v', OPT, 'Some'))], a)]
            return out + [([((), ('v', OPT, 'None'))], a)] if ('eqd',) in tags else out
        if ('eqd',) in tags: tags = tags - {('eqd',)}; a = (loop, tags, ch, must)
        item = dt.args[0] if is_opt(dt) and dt.args else None
        def some(elem):
            tr = [((), ('v', OPT, 'Some'))]
            if elem is not None and argv[0] is not None and argv[0][0] == 'r': tr.append((('@', argv[0][1]), elem))
            if elem is not None:
                if item is not None and item.k == 'tuple' and len(item.args) == 2:
                    if item.args[0].s == 'usize': tr.append((SOME0 + (('f', '1'),), sub(elem, 'e')))
                    else: tr += [(SOME0 + (('f', '0'),), sub(elem, 'k')), (SOME0 + (('f', '1'),), sub(elem, 'v'))]
                else: tr.append((SOME0, sub(elem, 'e')))
            return tr
        none = [((), ('v', OPT, 'None'))]
        focus = self.focus(X, c, t)
        if not focus:
            if t is not None:    # the values of another keyword: at least one
                m = ('seen', fld(t), c.line)
                return [(some(t), (loop, tags | {m}, ch, must))] + ([(none, (loop, tags - {m}, ch, must))] if m in tags else [])
            return None if not self.eqheads else [([((), ('v', OPT, 'Some'))], a), ([((), ('v', OPT, 'None'))], a)]
        if loop is True: return [([], '!an element is passed over: %s' % self.missed())]
        out = [(some(t), (True, tags, ch, must))]
        if loop is False: out.append((none, a))
        return out
    def missed(self): return 'nothing is reported for it'
    def focus(self, X, c, t):
        if self.loop is None: return False
        f = self.loop
        if f == 'V': return t is None and any(c.argtys[0].mentions(x) for x in ('tombi_document_tree::value::Value', 'tombi_document_tree::Value')) or (t is None and 'tombi_document_tree' in c.argtys[0].s)
        return t is not None and fld(t) == f and t[1][2] == self.loop_depth
    loop_depth = ()
    def result(self, X, env):
        """(variant, failed, diagnostics set) returned"""
        for r in X.F.ret_locals:
            v = env.get((r, ()))
            if v is not None and v[0] == 'v' and v[1] == RES:
                if v[2] == 'Ok': return 'Ok', F_, frozenset()
                f = env.get((r, FAILED)); s = env.get((r, DIAGS + (SET,)))
                return 'Err', f, (s[1] if s is not None else None)
        return None, None, None
    def on_ret(self, X, bi, env, a):
        loop, tags, ch, must = a
        v, f, s = self.result(X, env)
        if loop is True: return '!an element is passed over: %s' % self.missed()
        return ('ret', v, f, s, tags, ch, must, loop)
