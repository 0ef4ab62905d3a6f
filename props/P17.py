"""Path exploration of every Format implementation: which accessors of the syntax tree reach the output, on which
paths, how often and in which order; of the comment writer; and of the places where comments are switched off."""
from props.common import *
from an.loops import Loops

FMT = 'tombi_formatter::format::Format::format'
HINT = 'tombi_formatter::types::WithAlignmentHint'
ERR = 'core::fmt::Error'
def last(c): return c.decl.path.rsplit('::', 1)[-1] if c.decl is not None else ''
def seg(p): return p.rsplit('::', 1)[-1]
def is_next(c): return c.decl is not None and c.decl.path == 'core::iter::traits::iterator::Iterator::next'
LOSSY = {'skip', 'take', 'step_by', 'take_while', 'skip_while', 'map_while', 'filter', 'filter_map', 'nth', 'last', 'find', 'find_map', 'dedup', 'unique', 'truncate', 'retain', 'split_off', 'drain', 'split_at', 'next_back'}

def nb(ty):
    """The node behind references, lists and alignment hints."""
    while ty is not None:
        if ty.k in ('ref', 'refmut') and ty.args: ty = ty.args[0]; continue
        if ty.k == 'adt' and ty.d is not None and (ty.d.path == HINT or ty.d.path in ('alloc::boxed::Box', 'alloc::rc::Rc')) and ty.args: ty = ty.args[0]; continue
        return ty
    return ty
def hinted(ty):
    while ty is not None and ty.k in ('ref', 'refmut') and ty.args: ty = ty.args[0]
    return ty is not None and ty.d is not None and ty.d.path == HINT

SCALAR = [['leading_comments', 'token', 'trailing_comment']]
SPEC = {
    'Root': [['dangling_comment_groups', 'key_value_groups', 'table_or_array_of_tables']],
    'Table': [['header_leading_comments', 'header', 'header_trailing_comment', 'dangling_comment_groups', 'key_value_groups']],
    'ArrayOfTable': [['header_leading_comments', 'header', 'header_trailing_comment', 'dangling_comment_groups', 'key_value_groups']],
    'KeyValue': [['leading_comments', 'keys', 'value']],
    'Keys': [['keys']],
    'BareKey': [['syntax']],
    'Array': [['leading_comments', 'bracket_start_trailing_comment', 'dangling_comment_groups', 'value_with_comma_groups', 'trailing_comment'], ['leading_comments', 'values', 'trailing_comment']],
    'InlineTable': [['leading_comments', 'brace_start_trailing_comment', 'dangling_comment_groups', 'key_value_with_comma_groups', 'trailing_comment'], ['leading_comments', 'key_values', 'trailing_comment']],
    'KeyValueGroup': [['key_values_with_comma']],
    'ValueWithCommaGroup': [['values_with_comma']],
    'KeyValueWithCommaGroup': [['key_values_with_comma']],
    'DanglingCommentGroup': [['comments']],
    'BasicString': SCALAR, 'LiteralString': SCALAR, 'OffsetDateTime': SCALAR, 'LocalDateTime': SCALAR, 'T': SCALAR,
}
ITEMS = ('KeyValueGroup', 'ValueWithCommaGroup', 'KeyValueWithCommaGroup')
ENUMS = ('Value', 'Key')
WRITES = ('write_fmt', 'write_str', 'write_char', 'push_str', 'push')

class Node(Model):
    """astate: (which accessors found something, what was written in which order, the item being iterated:
    (source, comma accessors, what of it was written))"""
    init = ((), (), None)
    def __init__(self, node, spec, comma, multi, slm, each=None, variant=None):
        self.node = node; self.spec = spec; self.names = {n for l in spec for n in l}; self.comma = comma; self.multi = multi; self.slm = slm
        self.each = each; self.variant = variant
        self.fmt = 0
    def is_self(self, t): return t is not None and (t.d.path if t.d is not None else t.s) == self.node
    # -- flags and enum arms
    def discr(self, X, bi, p, adt):
        if self.variant is not None and adt == self.variant[0]: return self.variant[1]
        if adt == OPT and self.comma is not None:
            for s in X.F.blocks[bi].stmts:
                if s[0] == '=' and s[2][0] == 'discr':
                    t = place_ty(X.F, s[2][1])
                    if t is not None and t.d is not None and t.d.path == OPT and t.args and self.is_comma(t.args[0].peel()): return 'Some' if self.comma else 'None'
    def is_comma(self, t): return t is not None and t.d is not None and t.d.path.endswith('::Comma') and t.d.crate == 'tombi_ast'
    def flag(self, n):
        if n == 'skip_comment': return cbool(False)
        if n == 'single_line_mode': return cbool(self.slm)
    def read(self, X, bi, p, owner):
        if owner is not None and owner.endswith('::Formatter') and p[1] and p[1][-1][0] == 'f': return self.flag(p[1][-1][1])
    # -- accessors
    def accessor(self, c):
        """Name of an accessor of the node being written (or of its comma)."""
        d = c.decl
        if d is None or not d.crate.startswith('tombi') or not c.argtys: return None
        n = last(c); t = nb(c.argtys[0])
        if self.is_comma(t) and n in ('leading_comments', 'trailing_comment'): return 'comma.' + n
        if n in self.names and self.is_self(t) and len(c.args) == 1: return n
        return None
    def src(self, X, o, ty=None):
        """(accessors a value is made of, adaptors that leave elements out, comes from the receiver itself)"""
        if o[0] == 'const': return set(), set(), False
        key = ('src', id(o)) 
        r = X.memo.get(key)
        if r is not None: return r[0]
        p = o[1]
        if hinted(ty): p = (p[0], tuple(p[1]) + ('*',) * (ty.k in ('ref', 'refmut')) + (('f', 'value', None),))
        tk = X.sl.place(X.F, p)
        names = set(); lossy_ = set(); own = False
        for t in tk:
            if t[0] == 'acc': names.add(t[1])
            elif t[0] == 'call' and seg(t[1]) in LOSSY and not t[1].startswith('tombi'): lossy_.add(seg(t[1]))
            elif t[0] == 'param' and t[2] == 1: own = True
        X.memo[key] = ((names, lossy_, own), o)
        return names, lossy_, own
    def call_alts(self, X, bi, c, env, argv, a):
        pres, done, item = a
        l = last(c)
        if l in ('skip_comment', 'single_line_mode') and c.callee is not None and 'Formatter' in c.callee.path: return [([((), self.flag(l))], a)]
        if l == 'should_be_multiline' and self.is_self(nb(c.argtys[0])): return [([((), cbool(self.multi))], a)]
        n = self.accessor(c)
        if n is not None:
            rt = X.F.ltys[c.dest[0]] if not c.dest[1] else None
            opt = rt is not None and rt.d is not None and rt.d.path == OPT
            def tree(v): return [((), ('v', OPT, 'Some' if v else 'None'))] if opt else []
            if n.startswith('comma.'):
                if item is None: return None
                k = dict(item[1]).get(n)
                return [(tree(v), (pres, done, (item[0], tuple(sorted(set(item[1]) | {(n, v)})), item[2]))) for v in ((k,) if k is not None else (True, False))]
            k = dict(pres).get(n)
            return [(tree(v), (tuple(sorted(set(pres) | {(n, v)})), done, item)) for v in ((k,) if k is not None else (True, False))]
        if is_next(c) or l in ('peek', 'is_empty', 'first', 'last', 'len', 'count'):
            names, drop, own = self.src(X, c.args[0], c.argtys[0])
            if self.each is not None and own: names = {'*self'}
            names = {x for x in names if x in self.names or x == '*self' or x.startswith('comma.')}
            if not names: return None
            d = dict(pres); d.update(dict(item[1]) if item else {})
            if l == 'is_empty': return [([((), cbool(not any(d.get(x) for x in names)))], a)]
            if l in ('len', 'count'): return [([], a)] if any(d.get(x) for x in names) else [([((), ('c', '0'))], a)]
            some = [((), ('v', OPT, 'Some'))]; none = [((), ('v', OPT, 'None'))]
            if not is_next(c):
                if '*self' in names: return None
                return [(some if any(d.get(x) for x in names) else none, a)]
            if len(names) > 1: return None
            x = next(iter(names))
            if x.startswith('comma.'): return None
            if not bi in X.loops.sites:
                return None
            tr = self.tracked(X, bi, x)
            if not tr: return None
            if item is not None and item[0] == x:
                e = self.item_end(item)
                if e: return [([], '!' + e)]
            if drop: return [([], '!%s is iterated with %s, which leaves elements out' % (x, '/'.join(sorted(drop))))]
            out = []
            if x == '*self' or d.get(x): out.append((some, (pres, done, (x, (), ()))))
            out.append((none, (pres, done + ((x,) if x not in done and tr == 'out' else ()), None)))
            return out
    def tracked(self, X, bi, x):
        """A loop in whose body something is written."""
        r = X.memo.get(('loop', bi))
        if r is None:
            r = False
            for i, b in enumerate(X.F.blocks):
                if b.term[0] == 'call' and self.output(b.term[1]) and bi in X.loops.enclosing(i): r = 'out'; break
                if b.term[0] == 'call' and self.push(b.term[1]) and bi in X.loops.enclosing(i): r = 'push'
            X.memo[('loop', bi)] = r
        return r
    def output(self, c):
        return c.decl is not None and (c.decl.path == FMT or last(c) in WRITES and c.argtys and 'Formatter' in c.argtys[0].s or self.comment_arg(c) is not None)
    def push(self, c):
        return last(c) in ('push', 'extend', 'push_back') and c.argtys and c.argtys[0].k == 'refmut' and 'Vec' in c.argtys[0].s and 'tombi_ast' in c.argtys[0].s
    def comment_arg(self, c):
        if c.callee is None or c.callee.crate != 'tombi_formatter': return None
        for a, t in zip(c.args, c.argtys):
            p = t.peel()
            if p.d is not None and p.d.path == 'tombi_ast::generated::ast_token::Comment': return a
        return None
    def item_end(self, item):
        x, sp, done = item
        if x not in done: return 'an element of %s is not written' % x
        sp = dict(sp)
        if self.comma:
            for n in ('comma.leading_comments', 'comma.trailing_comment'):
                if sp.get(n) is None: return '%s is never looked at' % n
                if sp[n] and n not in done: return '%s is not written' % n
        want = [n for n in (x, 'comma.leading_comments', 'comma.trailing_comment') if n in done]
        if list(done) != want: return 'the parts of an element are written in the order %s' % (done,)
        return None
    def on_call(self, X, bi, c, env, argv, a):
        pres, done, item = a
        if c.decl is None: return a
        wr = None; ty = None
        if c.decl.path == FMT: wr = [c.args[0]]; ty = c.argtys[0]
        elif last(c) in WRITES and c.argtys and 'Formatter' in c.argtys[0].s: wr = c.args[1:]
        else:
            ca = self.comment_arg(c)
            if ca is not None: wr = [ca]
        if wr is None:
            if item is not None and self.push(c):
                n, d, w = self.src(X, c.args[1])
                if d: return '!%s is collected through %s, which leaves elements out' % (item[0], '/'.join(sorted(d)))
                if item[0] in n: return (pres, done, (item[0], item[1], item[2] + ((item[0],) if item[0] not in item[2] else ())))
            return a
        self.fmt += 1
        names = set(); drop = set(); own = False
        for o in wr:
            n, d, w = self.src(X, o, ty); names |= n; drop |= d; own = own or w
        names = {x for x in names if x in self.names or x.startswith('comma.')}
        if drop and names: return '!%s is written through %s, which leaves elements out' % ('/'.join(sorted(names)), '/'.join(sorted(drop)))
        if self.each is not None and own and not names: names = {'*self'}
        if not names:
            if c.decl.path == FMT and own and self.is_self(nb(ty)): return (pres, done + ('*all',), item)
            return a
        if item is not None:
            if item[0] in names or any(x.startswith('comma.') for x in names):
                for x in sorted(names):
                    if x != item[0] and not x.startswith('comma.'): continue
                    if x in item[2]:
                        if c.decl.path == FMT: return '!%s is written twice' % x
                        continue
                    if c.decl.path != FMT and x.startswith('comma.'): continue
                    item = (item[0], item[1], item[2] + (x,))
                return (pres, done, item)
        order = [n for l in self.spec for n in l]
        for x in sorted(names, key=lambda n: order.index(n) if n in order else 99):
            if x in done:
                if c.decl.path == FMT: return '!%s is written twice' % x
                continue
            done = done + (x,)
        return (pres, done, item)
    def on_ret(self, X, bi, env, a):
        return a

def slicer(prog, m):
    class S(Slicer):
        def _walk_call(self, g, G, bi, c, rest, out, seen, depth):
            n = m.accessor(c)
            if n is not None: out.add(('acc', n)); return
            # captured values of closures do not become elements
            return super()._walk_call(g, G, bi, c, rest, out, seen, depth)
        def _walk_rv(self, g, G, s, rest, out, seen, depth):
            if s[2][0] == 'agg' and s[2][1] in ('closure', 'coroutine'): return
            return super()._walk_rv(g, G, s, rest, out, seen, depth)
    return S(prog, follow=False, through_mut=lambda c: last(c) in ('push', 'extend', 'push_back', 'append', 'insert') and 'Vec' in c.argtys[0].s or last(c) in ('push_str',) )

def measuring(g):
    """Results that cannot carry text: numbers, flags, widths."""
    s = g.ltys[0].s
    return not ('core::fmt::Error' in s and '()' in s) and not any(x in s for x in ('tombi_ast', 'Comment', HINT, 'String', 'Cow', 'str'))

def policy(prog, root):
    def pol(g, fr, c):
        o = prog.outer(g)
        if g.crate.name != 'tombi_formatter' or not g.crate.name: return False
        if g.kind in ('closure', 'coroutine'): return pol(o, fr, c) or o is root
        if o is root: return False
        if g.d.path.endswith('::Format>::format') or 'as tombi_formatter::format::Format>' in g.d.path or g.trait is not None and g.trait.path.endswith('format::Format'): return False
        if 'impl tombi_formatter::format::Format for' in g.d.path: return False
        if '::formatter::Formatter' in g.d.path: return False
        if any(t.peel().d is not None and t.peel().d.path == 'tombi_ast::generated::ast_token::Comment' for t in g.ltys[1:g.ac + 1]): return False
        return not measuring(g)
    return pol

def run_node(ck, prog, fn, node, short, spec, **kw):
    F = Flat(prog, fn, policy(prog, fn))
    m = Node(node, spec, **kw)
    X = Explorer(F, m, cap=96); X.sl = slicer(prog, m); X.memo = {}; X.loops = Loops(F, is_next); X.run()
    ck.count('states', X.states)
    if X.overflow: ck.violate('overflow:' + fn.path, 'exploration of %s did not finish' % fn.path)
    return F, m, X

def judge(ck, fn, F, m, X, short, spec, allowed, what):
    for st, msg, bi, line in X.bad: ck.ob(False, 'write:%s' % short, 'Format for %s (%s): %s (%s): %s' % (short, what, msg, F.loc(bi, line), ' ; '.join(X.witness(st, 5))))
    n = 0
    for (a, r), st in X.final.items():
        v = r[0] if isinstance(r, tuple) and r and isinstance(r[0], str) else r
        if v == 'Err': continue
        n += 1
        pres, done, item = a
        w = lambda: ' ; '.join(X.witness(st, 6))
        if done == ('*all',): continue
        if '*all' in done: ck.ob(False, 'twice:%s' % short, 'Format for %s writes the node more than once: %s' % (short, w())); continue
        if item is not None:
            e = m.item_end(item)
            if e: ck.ob(False, 'item:%s' % short, 'Format for %s: %s: %s' % (short, e, w())); continue
        d = dict(pres); best = None
        for l in allowed:
            miss = [x for x in l if x not in done and d.get(x) is not False]
            extra = [x for x in done if x not in l]
            seq = [x for x in done if x in l]
            if not miss and not extra and seq == [x for x in l if x in done]: best = None; break
            if best is None or len(miss) < len(best[0]): best = (miss, extra, seq)
        ck.ob(best is None, 'lost:%s' % short, 'Format for %s (%s): %s: %s' % (short, what, ('not written although present: %s' % ', '.join(best[0])) if best and best[0] else 'written in the form for the other case or in the order %s' % (best and (best[2] + best[1]),), w()), sample='%s (%s): %s' % (short, what, ', '.join(done) or '-'))
    ck.ob(n > 0, 'return:%s' % short, 'Format for %s (%s) never returns' % (short, what))

def impls(ck, prog):
    n = 0; seen = set()
    for c, i in prog.impls:
        if i['tr'] is None or i['tr'].path != 'tombi_formatter::format::Format': continue
        d = next((a for a, b in i['items'] if b is not None), None)
        if d is None or d.fn is None: continue
        fn = d.fn; ck.count('format_impls'); n += 1
        st = i['st']; t = nb(st)
        if t.d is not None and t.d.path.endswith('vec::Vec'): each(ck, prog, fn, t); continue
        node = t.d.path if t.d is not None else t.s; short = seg(node)
        if short == 'TrailingComment':
            m = Trail(); F = Flat(prog, fn, policy(prog, fn)); X = Explorer(F, m); X.sl = Slicer(prog, follow=False); X.run()
            for (a, r), s in X.final.items():
                if (r[0] if isinstance(r, tuple) and r and isinstance(r[0], str) else r) == 'Err': continue
                ck.ob(a, 'trailing', 'a trailing comment is not written: %s' % ' ; '.join(X.witness(s, 5)), sample='trailing comment written')
            ck.ob(bool(X.final), 'return:TrailingComment', 'never returns'); seen.add(short); continue
        if short in ENUMS:
            for v in prog.adts[node].variants:
                F = Flat(prog, fn, policy(prog, fn)); m = Arms(node, v[0]); X = Explorer(F, m); X.run(); ck.count('states', X.states)
                pt = v[2][0][1].d.path if v[2] and v[2][0][1].d is not None else None
                for (a, r), s in X.final.items():
                    if (r[0] if isinstance(r, tuple) and r and isinstance(r[0], str) else r) == 'Err': continue
                    ck.ob(a == (pt,) or a == (node,), 'arm:%s::%s' % (short, v[0]), 'Format for %s writes %s for the variant %s' % (short, [seg(x) for x in a] or 'nothing', v[0]), sample='%s::%s' % (short, v[0]))
            seen.add(short); continue
        spec = SPEC.get(short)
        if spec is None:
            ck.violate('unknown:' + st.s, 'no rule for the Format implementation of %s' % st.s); continue
        seen.add(short)
        for comma in ((True, False) if short in ITEMS else (None,)):
            for multi, slm in (((True, False), (False, False), (True, True), (False, True)) if len(spec) > 1 else ((False, False),)):
                F, m, X = run_node(ck, prog, fn, node, short, spec, comma=comma, multi=multi, slm=slm)
                allowed = spec[:1] if multi and not slm else spec
                what = '; '.join(x for x in (None if comma is None else 'with comma' if comma else 'without comma', None if len(spec) == 1 else 'must be multi-line' if multi else 'may be single-line', 'single-line mode' if slm else None) if x) or 'every path'
                judge(ck, fn, F, m, X, short, spec, allowed, what)
    ck.floor('format_implementations', n, 31)
    miss = sorted(set(SPEC) | set(ENUMS) | {'TrailingComment'} - seen) if not (set(SPEC) | set(ENUMS) | {'TrailingComment'}) <= seen else []
    ck.ob(not miss, 'missing-impl', 'no Format implementation for %s' % miss)

class Trail(Model):
    init = False
    def read(self, X, bi, p, owner):
        if owner is not None and owner.endswith('::Formatter') and p[1] and p[1][-1] == ('f', 'skip_comment'): return cbool(False)
    def call_alts(self, X, bi, c, env, argv, a):
        if last(c) == 'skip_comment': return [([((), cbool(False))], a)]
    def on_call(self, X, bi, c, env, argv, a):
        if c.callee is not None and c.callee.crate == 'tombi_formatter':
            for o, t in zip(c.args, c.argtys):
                p = t.peel()
                if p.d is not None and p.d.path == 'tombi_ast::generated::ast_token::Comment': return True
        return a

class Arms(Model):
    init = ()
    def __init__(self, adt, var): self.adt = adt; self.var = var
    def discr(self, X, bi, p, adt): return self.var if adt == self.adt else None
    def on_call(self, X, bi, c, env, argv, a):
        if c.decl is not None and c.decl.path == FMT and len(a) < 3:
            t = nb(c.argtys[0]); return a + (t.d.path if t.d is not None else t.s,)
        return a

def each(ck, prog, fn, vec):
    """Lists: every element is written."""
    el = nb(vec.args[0]); short = 'Vec<%s>' % seg(el.d.path if el.d is not None else el.s)
    variants = [None]
    if el.d is not None and el.d.path in prog.adts and prog.adts[el.d.path].kind == 'enum': variants = [(el.d.path, v[0]) for v in prog.adts[el.d.path].variants]
    for v in variants:
        F, m, X = run_node(ck, prog, fn, vec.d.path, short, [['*self']], comma=None, multi=False, slm=False, each=True, variant=v)
        judge(ck, fn, F, m, X, short, [['*self']], [['*self']], v[1] if v else 'every element')

# ---------------------------------------------------------------- the comment writer
class Chars(Model):
    """One run per shape of comment; characters are enumerated.  astate: (character taken but not written, something of
    the comment written, the end was reached)"""
    init = (None, False, False)
    ALPH = (('x', 'x'), (' ', ' '), ('\t', '\t'), ('#', '#'), ('!', '!'))
    def src(self, X, o):
        if o[0] == 'const': return set()
        r = X.memo.get(id(o))
        if r is None: r = (X.sl.operand(X.F, o), o); X.memo[id(o)] = r
        return r[0]
    def from_comment(self, X, tk): return any(t[0] == 'param' and t[2] == X.cparam for t in tk)
    def call_alts(self, X, bi, c, env, argv, a):
        pend, some, end = a
        if is_next(c) and c.argtys[0].mentions('core::str::iter::Chars'):
            if pend is not None and pend not in (' ', '\t'): return [([], '!the character %r of a comment is not written' % pend)]
            out = [([((), ('v', OPT, 'Some')), ((('d', 'Some'), ('f', '0')), ('c', str(ord(ch))))], (ch, some, False)) for ch, _ in self.ALPH]
            out.append(([((), ('v', OPT, 'None'))], (None, some, True)))
            return out
    def on_call(self, X, bi, c, env, argv, a):
        pend, some, end = a
        if c.decl is not None and last(c) in WRITES and c.argtys and 'Formatter' in c.argtys[0].s:
            tk = set()
            for o in c.args[1:]: tk |= self.src(X, o)
            if not self.from_comment(X, tk): return a
            cut = {seg(t[1]) for t in tk if t[0] == 'call' and not t[1].startswith('tombi')} & CUT
            if cut: return '!a comment is written through %s' % '/'.join(sorted(cut))
            ch = any(t[0] == 'call' and 'Chars' in t[1] and seg(t[1]) == 'next' or t[0] == 'call' and seg(t[1]) == 'next' for t in tk) and not any(t[0] == 'call' and seg(t[1]) == 'as_str' and 'Chars' in t[1] for t in tk)
            if ch: return (None, True, end)
            # the whole comment, or what is left of it
            if pend is not None and pend not in (' ', '\t'): return '!the character %r of a comment is not written' % pend
            return (None, True, True)
        return a
CUT = {'split', 'splitn', 'split_once', 'rsplit_once', 'rsplit', 'rsplitn', 'split_at', 'split_whitespace', 'lines', 'take', 'skip', 'filter', 'take_while', 'skip_while', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'find', 'rfind', 'get', 'nth', 'index', 'truncate', 'step_by', 'strip_suffix', 'char_indices', 'last'}

def comments(ck, prog):
    ws = [f for f in prog.fns if f.crate.name == 'tombi_formatter' and f.kind not in ('closure', 'coroutine') and any(t.peel().d is not None and t.peel().d.path == 'tombi_ast::generated::ast_token::Comment' for t in f.ltys[1:f.ac + 1]) and ERR in f.ltys[0].s]
    ck.floor('comment_writers', len(ws), 1)
    for fn in ws:
        cp = next(i for i in range(1, fn.ac + 1) if fn.ltys[i].peel().d is not None and fn.ltys[i].peel().d.path == 'tombi_ast::generated::ast_token::Comment')
        F = Flat(prog, fn, lambda g, fr, c: g.crate.name == 'tombi_formatter' and '::formatter::Formatter' not in g.d.path)
        m = Chars(); X = Explorer(F, m, cap=4000); X.sl = Slicer(prog, follow=False); X.cparam = cp; X.memo = {}; X.run(); ck.count('states', X.states)
        for st, msg, bi, line in X.bad: ck.ob(False, 'comment-text', '%s: %s (%s): %s' % (fn.path, msg, F.loc(bi, line), ' ; '.join(X.witness(st, 5))))
        n = 0
        for (a, r), st in X.final.items():
            v = r[0] if isinstance(r, tuple) and r and isinstance(r[0], str) else r
            if v == 'Err': continue
            n += 1
            pend, some, end = a
            ck.ob(some and end and (pend is None or pend in ' \t'), 'comment-lost', '%s returns without writing %s: %s' % (fn.path, 'the comment' if not some else 'the rest of the comment' if not end else 'the character %r' % pend, ' ; '.join(X.witness(st, 6))), sample='comment written to its end')
        ck.ob(n > 0, 'comment-return', '%s never returns' % fn.path)

# ---------------------------------------------------------------- switching comments off
FLAGS = ('skip_comment', 'single_line_mode')
class Off(Model):
    """astate: flags set"""
    init = frozenset()
    wants_stmts = True
    def on_stmt(self, X, bi, s, env, a):
        if s[0] != '=' or not s[1][1] or s[1][1][-1] == '*' or s[1][1][-1][0] != 'f': return a
        f = str(s[1][1][-1][1])
        if f not in FLAGS: return a
        o = base_adt(X.F, s[1], len(s[1][1]) - 1)
        if o is None or not o.endswith('::Formatter'): return a
        v = X.eval(bi, env, s[2][1]) if s[2][0] == 'use' else None
        return (a | {f}) if v == T else (a - {f})
    def on_call(self, X, bi, c, env, argv, a):
        if a and c.decl is not None:
            if c.decl.path == FMT: return '!output is produced while %s is set' % '/'.join(sorted(a))
            if last(c) in WRITES and c.argtys and c.argtys[0].k == 'refmut' and 'Formatter' in c.argtys[0].s: return '!output is written while %s is set' % '/'.join(sorted(a))
        return a

class Buf(Model):
    """The scratch rendering puts the real output back.  astate: fields not restored since the rendering"""
    init = frozenset()
    wants_stmts = True
    FIELDS = ('buf', 'indent_depth', 'skip_indent')
    def on_stmt(self, X, bi, s, env, a):
        if s[0] != '=' or not s[1][1] or s[1][1][-1] == '*' or s[1][1][-1][0] != 'f': return a
        f = str(s[1][1][-1][1]); o = base_adt(X.F, s[1], len(s[1][1]) - 1)
        if f in a and o is not None and o.endswith('::Formatter') and s[2][0] == 'use':
            tk = X.sl.operand(X.F, s[2][1])
            if any(t[0] == 'field' and t[2] == f for t in tk): return a - {f}
        return a
    def on_call(self, X, bi, c, env, argv, a):
        if c.decl is not None and c.decl.path == FMT: return frozenset(self.FIELDS)
        if last(c) in ('replace', 'swap') and c.decl.path.startswith('core::mem') and a:
            tk = X.sl.operand(X.F, c.args[0])
            fs = {t[2] for t in tk if t[0] == 'field'}
            src = X.sl.operand(X.F, c.args[1])
            return a - {f for f in fs if any(t[0] == 'field' and t[2] == f for t in src)}
        return a

def modes(ck, prog):
    n = 0; dropped = set()
    for fn in [f for f in prog.fns if f.crate.name == 'tombi_formatter']:
        w = set()
        for b in fn.blocks:
            for s in b.stmts:
                if s[0] == '=' and s[1][1] and s[1][1][-1] != '*' and s[1][1][-1][0] == 'f' and str(s[1][1][-1][1]) in FLAGS and 'Formatter' in str(base_adt_fn(fn, s[1])): w.add(str(s[1][1][-1][1]))
        if not w: continue
        n += 1
        F = Flat(prog, fn, lambda g, fr, c: False)
        m = Off(); X = Explorer(F, m); X.run(); ck.count('states', X.states)
        for st, msg, bi, line in X.bad: ck.ob(False, 'mode:' + fn.path, '%s: %s (%s)' % (fn.path, msg, F.loc(bi, line)))
        for (a, r), st in X.final.items():
            v = r[0] if isinstance(r, tuple) and r and isinstance(r[0], str) else r
            if v != 'Err': ck.ob(not a, 'mode-kept:' + fn.path, '%s returns with %s still set: %s' % (fn.path, '/'.join(sorted(a)), ' ; '.join(X.witness(st, 4))), sample='%s resets %s' % (fn.name, '/'.join(sorted(w))))
        if 'skip_comment' in w: dropped.add(fn)
    ck.floor('mode_switches', n, 2)
    # text rendered without comments is only measured
    for fn in dropped:
        sl = Slicer(prog, follow=False)
        for g, bi, c in sl.callsites(fn.d):
            o = prog.outer(g)
            ck.ob(not any(x in o.ltys[0].s for x in ('String', 'Cow')), 'measured:' + o.path, '%s returns text rendered without comments' % o.path, sample='%s only measures' % o.name)
            if o.crate.name != 'tombi_formatter': continue
            F = g
            for b in F.blocks:
                if b.term[0] == 'call' and last(b.term[1]) in WRITES and b.term[1].argtys and 'Formatter' in b.term[1].argtys[0].s:
                    tk = set()
                    for x in b.term[1].args[1:]: tk |= sl.operand(F, x)
                    ck.ob(not any(t[0] == 'call' and t[1] == fn.path for t in tk), 'written:' + o.path, '%s writes text rendered without comments' % o.path)
    scratch = [f for f in prog.fns if f.crate.name == 'tombi_formatter' and '::formatter::Formatter' in f.path and 'String' in f.ltys[0].s and any(c.decl is not None and c.decl.path == FMT for _, c in f.calls()) and f.kind not in ('closure', 'coroutine')]
    scratch = [f for f in scratch if not f.is_async]
    ck.floor('scratch_renderers', len(scratch), 1)
    for fn in scratch:
        F = Flat(prog, fn, lambda g, fr, c: False)
        m = Buf(); X = Explorer(F, m); X.sl = Slicer(prog, follow=False); X.run(); ck.count('states', X.states)
        for (a, r), st in X.final.items():
            v = r[0] if isinstance(r, tuple) and r and isinstance(r[0], str) else r
            if v != 'Err': ck.ob(not a, 'scratch:' + fn.path, '%s does not put back %s after rendering: %s' % (fn.path, '/'.join(sorted(a)), ' ; '.join(X.witness(st, 4))), sample='%s restores the output' % fn.name)

def base_adt_fn(fn, place):
    t = fn.ltys[place[0]]
    for e in place[1][:-1]:
        if e == '*': t = t.args[0] if t is not None and t.args else None
        elif e[0] == 'f': t = e[2]
        elif e[0] == 'd': pass
        else: t = t.args[0] if t is not None and t.args else None
    return t.d.path if t is not None and t.d is not None else None

# ---------------------------------------------------------------- quoting
class Quote(Model):
    init = None
    def __init__(self, bs, q): self.bs = bs; self.q = q; self.asked = set()
    def call_alts(self, X, bi, c, env, argv, a):
        if last(c) == 'contains' and c.callee is not None and ('str' in c.callee.path):
            v = X.eval(bi, env, c.args[1])
            if v == ('c', '92'): self.asked.add('bs'); return [([((), cbool(self.bs))], a)]
            tk = X.sl.operand(X.F, c.args[1])
            if any(t[0] == 'param' for t in tk): self.asked.add('q'); return [([((), cbool(self.q))], a)]

def quoting(ck, prog):
    fs = [f for f in prog.fns if f.crate.name == 'tombi_formatter' and f.ltys[0].s.startswith('alloc::borrow::Cow<') and f.ac == 2 and f.ltys[2].s == 'char' and f.kind not in ('closure', 'coroutine')]
    ck.floor('requoting_functions', len(fs), 1)
    for fn in fs:
        for bs in (True, False):
            for q in (True, False):
                F = Flat(prog, fn, lambda g, fr, c: g.crate.name == 'tombi_formatter')
                m = Quote(bs, q); X = Explorer(F, m); X.sl = Slicer(prog, follow=False); X.run()
                for (a, r), st in X.final.items():
                    v = r[0] if isinstance(r, tuple) and r and isinstance(r[0], str) else r
                    if bs or q: ck.ob(v == 'Borrowed', 'requote', '%s changes the quotes of text containing %s' % (fn.path, ' and '.join(x for x, y in (('a backslash', bs), ('the new quote', q)) if y)), sample='text with %s%s kept verbatim' % ('backslash' if bs else '', ' quote' if q else ''))

# ---------------------------------------------------------------- when the single-line form is allowed
class Inner(Model):
    """A comment sits at one place inside the brackets; the first element of every list is the one that has it.
    astate: lists already asked"""
    init = frozenset()
    def __init__(self, where, node): self.where = where; self.node = node
    def discr(self, X, bi, p, adt):
        if adt.endswith('::DanglingCommentGroupOr'): return 'DanglingCommentGroup' if self.where == 'group' else 'ItemGroup'
    def call_alts(self, X, bi, c, env, argv, a):
        l = last(c)
        if c.callee is not None and c.callee.crate == 'tombi_ast':
            if l == 'has_inner_comments' and not self.is_node(c): return [([((), T)], a)]
            if l.endswith('start_trailing_comment'): return [([((), ('v', OPT, 'Some' if self.where == 'start' else 'None'))], a)]
            if l == 'trailing_comment' and c.argtys: 
                k = 'comma.trailing' if self.comma(c) else 'item.trailing'
                if not self.is_node(c): return [([((), ('v', OPT, 'Some' if self.where == k else 'None'))], a)]
        if is_next(c):
            n = {t[1] for t in X.sl.operand(X.F, c.args[0]) if t[0] == 'call'}
            names = {seg(x) for x in n}
            if 'leading_comments' in names:
                k = 'comma.leading' if any(x in names for x in ()) or self.of_comma(X, c) else 'item.leading'
                return [([((), ('v', OPT, 'Some' if self.where == k else 'None'))], a)]
            if 'dangling_comment_groups' in names and not any(x.endswith('_groups') and x != 'dangling_comment_groups' for x in names):
                return [([((), ('v', OPT, 'Some' if self.where == 'dangling' else 'None'))], a)]
            if any('_comma' in x for x in names) or any(x.endswith('_groups') or x in ('key_values', 'values') for x in names):
                inner = c.argtys[0]
                some = [((), ('v', OPT, 'Some'))]
                if bi not in a: return [(some, a | {bi})]
                return [(some, a), ([((), ('v', OPT, 'None'))], a)]
        # the element's comma is there
        rt = X.F.ltys[c.dest[0]] if not c.dest[1] else None
        return None
    def read(self, X, bi, p, owner): return None
    def is_node(self, c):
        t = nb(c.argtys[0]) if c.argtys else None
        return t is not None and t.d is not None and t.d.path == self.node
    def comma(self, c):
        t = nb(c.argtys[0]); return t is not None and t.d is not None and t.d.path.endswith('::Comma')
    def of_comma(self, X, c):
        for b in X.F.blocks:
            if b.term[0] == 'call' and last(b.term[1]) == 'leading_comments' and b.term[1].argtys and self.comma(b.term[1]):
                d = b.term[1].dest
                o = c.args[0]
                if o[0] != 'const' and d[0] in X.roots(o[1][0]): return True
        return False

def multiline(ck, prog):
    fs = [f for f in prog.fns if f.crate.name == 'tombi_ast' and f.name == 'should_be_multiline' and f.ac == 2]
    ck.floor('multiline_decisions', len(fs), 2)
    for fn in fs:
        node = nb(fn.ltys[1]).d.path; short = seg(node)
        pol = lambda g, fr, c: g.crate.name == 'tombi_ast' and (g.kind == 'closure' or g.ltys[0].s == 'bool' and not g.path.startswith('tombi_ast::support') and not (g.name == 'should_be_multiline'))
        F = Flat(prog, fn, pol)
        borrow = {}
        for b in F.blocks:
            for s in b.stmts:
                if s[0] == '=' and not s[1][1] and s[2][0] in ('ref', 'refmut', 'use') and (s[2][0] != 'use' or s[2][1][0] != 'const'):
                    p = s[2][1] if s[2][0] != 'use' else s[2][1][1]
                    borrow.setdefault(s[1][0], set()).add(p[0])
        def roots(l):
            seen = set(); st = [l]
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x); st.extend(borrow.get(x, ()))
            return seen
        for where in ('start', 'dangling', 'group', 'item.leading', 'item.trailing', 'comma.leading', 'comma.trailing'):
            m = Inner(where, node); X = Explorer(F, CommaThere(m), cap=96); X.sl = Slicer(prog, follow=False); X.roots = roots; X.run(); ck.count('states', X.states)
            ck.ob(bool(X.final), 'multiline-return:' + short, 'should_be_multiline never returns')
            for (a, r), st in X.final.items():
                v = r[0] if isinstance(r, tuple) and r and isinstance(r[0], tuple) else r
                ck.ob(v == T, 'multiline:%s:%s' % (short, where), '%s::should_be_multiline may answer false although there is a comment inside (%s): %s' % (short, where, ' ; '.join(X.witness(st, 6))), sample='%s with a comment (%s) is multi-line' % (short, where))

class CommaThere(Model):
    def __init__(self, m): self.m = m; self.init = m.init
    def discr(self, X, bi, p, adt):
        if adt == OPT and self.m.where.startswith('comma'):
            for s in X.F.blocks[bi].stmts:
                if s[0] == '=' and s[2][0] == 'discr':
                    t = place_ty(X.F, s[2][1])
                    if t is not None and t.args and t.args[0].peel().d is not None and t.args[0].peel().d.path.endswith('::Comma'): return 'Some'
        return self.m.discr(X, bi, p, adt)
    def call_alts(self, X, bi, c, env, argv, a):
        if last(c) in ('is_some_and', 'is_some') and self.m.where.startswith('comma') and 'Comma' in c.argtys[0].s and last(c) == 'is_some': return [([((), T)], a)]
        return self.m.call_alts(X, bi, c, env, argv, a)

def check(ck):
    prog = ck.prog
    multiline(ck, prog)
    impls(ck, prog)
    comments(ck, prog)
    modes(ck, prog)
    quoting(ck, prog)
    ck.rule('per Format implementation and presence of each part: every part that is present is written exactly once, in source order; single-line forms only where allowed; comments are only skipped in measurements')
