"""The parser: it stops, takes every token, keeps its tree balanced and its recursion bounded.  Every parse function is
explored over all sequences of token kinds (only the tokens looked at and not yet consumed are known); functions of the
grammar calling one another are replaced by what was found of them (least fixpoint over the windows on which they may
return without consuming).  A cycle in the graph of abstract states none of whose steps consumes a token is a hang."""
from props.common import *
from props.P31 import TX

SK = 'tombi_syntax::generated::syntax_kind::SyntaxKind'
KINDS = ['EOF', 'LINE_BREAK', 'COMMENT', 'BRACKET_START', 'BRACKET_START~', 'BRACKET_END', 'BRACKET_END~', 'BRACE_START', 'BRACE_END', 'COMMA', 'DOT', 'EQUAL', 'BARE_KEY', 'BASIC_STRING', 'INTEGER_DEC', 'FLOAT', 'LOCAL_TIME', 'INVALID_TOKEN']
MAXWIN = 5       # tokens looked ahead; '~': the next token follows without white space
AFTER_COMMENT = ('EOF', 'LINE_BREAK', 'INVALID_TOKEN')     # a comment runs to the end of its line
CR = 'tombi_parser'

def is_parse(f): return f.crate.name == CR and f.path.endswith('::parse') and 'Parse for ' in f.path
def short(f): return f.path.rsplit(' for ', 1)[-1].split('>::')[0].rsplit('::', 1)[-1].rstrip('>') if 'Parse for' in f.path else f.path.rsplit('::', 1)[-1]

def token_sets(prog):
    """TokenSet constant -> kinds it lists"""
    out = {}
    for f in prog.fns:
        if f.crate.name != CR or f.kind != 'const' or 'TokenSet' not in f.ltys[0].s: continue
        ks = set(); ok = True
        for b in f.blocks:
            for s in b.stmts:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt' and s[2][2] is not None and s[2][2].path == SK: ks.add(s[2][3])
            if b.term[0] == 'call' and not (b.term[1].callee is not None and b.term[1].callee.path.endswith('TokenSet::new')): ok = False
        if ok: out[f.path] = frozenset(ks)
    return out

class Pt(Model):
    """astate: (tokens looked at, turn, markers open, nesting added, depth known to be below the limit, anything consumed)"""
    init = ((), 0, (), 0, False, False)
    wants_stmts = True
    def __init__(self, sets, zero, exit, root): self.sets = sets; self.zero = zero; self.exit = exit; self.root = root; self.unknown = {}; self.enter = {}; self.zeros = set(); self.exits = set(); self.rets = 0; self.calls = set(); self.quiet = 0; self.consumed = False; self.bumps = 0
    def unk(self, why): self.unknown[why] = self.unknown.get(why, 0) + 1
    def look(self, win, i):
        if i < len(win): return [(win, win[i])]
        if win and win[-1] == 'EOF': return [(win, 'EOF')]
        if i >= MAXWIN: self.quiet += 1; return []
        out = []
        for k in AFTER_COMMENT if win and win[-1] == 'COMMENT' else KINDS: out += self.look(win + (k,), i)
        return out
    def kind(self, X, env, v):
        n = 0
        while v is not None and n < 6:
            if v[0] == 'v' and v[1] == SK: return v[2]
            if v[0] not in ('r', 's'): return None
            w = X.variant_at(env, v[1])
            if w is not None and w[0] == 'v': return w[2]
            v = env.get(v[1]); n += 1
    def setof(self, env, v):
        n = 0
        while v is not None and n < 6:
            if v[0] == 'str' and isinstance(v[1], tuple) and v[1][0] == 'TS': return self.sets.get(v[1][1])
            if v[0] not in ('r', 's'): return None
            v = env.get(v[1]); n += 1
    def read(self, X, bi, p, owner):
        if p[1] and p[1][-1][:2] == ('f', 'depth') and p[0] == 'PARSER': return None
    def shift(self, a, n):
        """Consume n tokens: states after it"""
        out = []
        for w, k in self.look(a[0], n - 1):
            if 'EOF' in w[:n]: out.append(('!hands the end of the file on as a token', None))
            else: out.append(((w[n:], 1 - a[1]) + a[2:5] + (True,), w[:n]))
        return out
    def call_alts(self, X, bi, c, env, argv, a):
        dd = c.decl
        if dd is None: self.unk('call through a pointer'); return None
        d = c.callee or dd; path = d.path; last = path.rsplit('::', 1)[-1]; f = d.fn
        if dd.path.startswith('core::cmp::PartialEq::') and c.argtys and c.argtys[0].peel().s == SK:
            x, y = self.kind(X, env, argv[0]), self.kind(X, env, argv[1])
            if x is None or y is None: self.unk('comparison of kinds'); return None
            return [([((), cbool((x == y) == (last == 'eq')))], a)]
        if last == 'contains' and 'TokenSet' in path:
            s, k = self.setof(env, argv[0]), self.kind(X, env, argv[1])
            if s is None or k is None: self.unk('set of kinds'); return None
            return [([((), cbool(k in s))], a)]
        if c.target is None: return [([], '!panics')]
        if f is None or f.crate.name != CR: return None
        if is_parse(f):
            self.enter.setdefault(f, set()).add(a[0])
            self.calls.add((f, a[4] and a[3] > 0, c.line))
            out = []
            for w in self.zero.get(f, ()):      # returns without consuming when it sees w
                m = min(len(w), len(a[0]))
                if w[:m] == a[0][:m]:
                    if len(a[0]) < len(w) and a[0] and a[0][-1] == 'EOF': continue
                    out.append(([], (w if len(w) > len(a[0]) else a[0],) + a[1:]))
            if not (a[0] and a[0][0] == 'EOF'): out += [([], (w, 1 - a[1]) + a[2:5] + (True,)) for w in self.exit.get(f, ())]
            return out
        if last == 'nth':
            if argv[1] is None or argv[1][0] != 'c': self.unk('distance of a token'); return None
            return [([((), ('v', SK, k.rstrip('~')))], (w,) + a[1:]) for w, k in self.look(a[0], int(argv[1][1]))]
        if last == 'is_joint' and argv[1] is not None and argv[1][0] == 'c':
            return [([((), cbool(b))], (w,) + a[1:]) for w, k in self.look(a[0], int(argv[1][1])) for b in ((True,) if k.endswith('~') else (False,) if k in ('BRACKET_START', 'BRACKET_END') else (True, False))]
        if last == 'do_bump':
            n = argv[2]
            if n is None or n[0] != 'c': self.unk('tokens consumed'); return None
            self.bumps += 1
            return [([], x) for x, _ in self.shift(a, int(n[1]))]
        if last == 'bump_float_key':
            self.bumps += 1
            return [([], '!splits a token that is no float' if not isinstance(x, str) and w[0] != 'FLOAT' else x) for x, w in self.shift(a, 1)]
        if last == 'start' and 'Parser' in path: return [([((), ('str', ('M', c.line, len(a[2]))))], a[:2] + (a[2] + (c.line,),) + a[3:])]
        if last == 'complete':
            v = argv[0]; n = 0
            while v is not None and v[0] == 's' and n < 5: v = env.get(v[1]); n += 1
            if v is None or v[0] != 'str': self.unk('node completed'); return None
            if not a[2]: return [([], '!completes a node that is already complete')]
            if (v[1][1], v[1][2]) != (a[2][-1], len(a[2]) - 1): return [([], '!completes the node started in line %s while one started inside it is still open' % v[1][1])]
            return [([], a[:2] + (a[2][:-1],) + a[3:])]
        return None
    def on_stmt(self, X, bi, s, env, a):
        if s[0] == '=' and s[1][1] and s[1][1][-1][0] == 'f' and s[1][1][-1][1] == 'depth' and X.resolve(env, s[1])[0] == 'PARSER':
            v = X.eval(bi, env, s[2][1]) if s[2][0] == 'use' else X.bin(bi, env, s[2]) if s[2][0] == 'bin' else None
            if v is not None and v[0] == 'str' and isinstance(v[1], tuple) and v[1][0] == 'DEPTH': return a[:3] + (v[1][1],) + a[4:]
            self.unk('nesting depth')
        return a
    def on_edge(self, X, bi, kind, info, env, a):
        v = info[0] if isinstance(info, tuple) else None
        return a
    def on_ret(self, X, bi, env, a):
        self.rets += 1
        if a[2]: return '!returns while the node started in line %s is not completed' % a[2][-1]
        if a[3]: return '!returns with the nesting depth changed'
        if self.root and not (a[0] and a[0][0] == 'EOF'):
            ws = self.look(a[0], 0)
            if not all(k == 'EOF' for _, k in ws): return '!returns before the last token'
        (self.exits if a[5] else self.zeros).add(a[0])
        return 'ok'

class PX(TX):
    def eval(self, bi, env, o):
        if o[0] == 'const' and o[1].cd is not None and o[1].v is None: return ('str', ('TS', o[1].cd.path))
        return TX.eval(self, bi, env, o)
    def bin(self, bi, env, r):
        x = self.eval(bi, env, r[2]); y = self.eval(bi, env, r[3])
        if x is None or y is None or y[0] != 'c': return None
        if x[0] == 'str' and isinstance(x[1], tuple) and x[1][0] == 'DEPTH' and y[1] == '1':
            if r[1].startswith('Add'): return ('str', ('DEPTH', x[1][1] + 1))
            if r[1].startswith('Sub'): return ('str', ('DEPTH', x[1][1] - 1))
        if x[0] == 'c' and x[1].isdigit() and y[1].isdigit():
            i, j = int(x[1]), int(y[1])
            if r[1].startswith('Add'): return ('c', str(i + j))
            if r[1].startswith('Sub') and i >= j: return ('c', str(i - j))
            if r[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'): return cbool({'Eq': i == j, 'Ne': i != j, 'Lt': i < j, 'Le': i <= j, 'Gt': i > j, 'Ge': i >= j}[r[1]])
    def do_stmt(self, bi, env, s):
        if s[0] == '=' and s[2][0] == 'bin':
            r = s[2]; x = self.eval(bi, env, r[2])
            dest = self.resolve(env, s[1])
            if r[1] in ('Ge', 'Lt') and x is not None and x[0] == 'str' and isinstance(x[1], tuple) and x[1][0] == 'DEPTH':
                self.kill(env, dest); env[dest] = ('str', ('LIMIT', r[1])); return
            v = self.bin(bi, env, r)
            if v is not None:
                if v[0] == 'c' and v[1].isdigit() and int(v[1]) > 12 : v = None
                self.kill(env, dest)
                if v is not None: env[(dest[0], dest[1] + (('f', '0'),)) if 'Overflow' in r[1] else dest] = v
                if s[1][1] and s[1][1][-1][:2] == ('f', 'depth'): env[dest] = v if v is not None else ('str', '?')
                return
        return TX.do_stmt(self, bi, env, s)
    def switch(self, state, bi, env, a, t):
        v = self.eval(bi, env, t[1])
        if v is not None and v[0] == 'str' and isinstance(v[1], tuple) and v[1][0] == 'LIMIT':
            for val, x in t[2] + [(None, t[3])]:
                truth = val != '0'
                below = truth == (v[1][1] == 'Lt')
                yield x, dict(env), a[:4] + (below,)
            return
        yield from TX.switch(self, state, bi, env, a, t)
    def prune(self, env, bi):
        out = TX.prune(self, env, bi)
        for k in (('PARSER', (('f', 'depth'),)),):
            if k in env: out[k] = env[k]
        return out
    def _havoc(self, env, c, argv):
        d = env.get(('PARSER', (('f', 'depth'),)))
        TX._havoc(self, env, c, argv)
        if d is not None: env[('PARSER', (('f', 'depth'),))] = d

BASE = ('nth', 'nth_index', 'nth_token', 'nth_range', 'current_range', 'previous_range', 'is_joint', 'do_bump', 'bump_float_key', 'start', 'complete', 'error', 'push_event')

def check(ck):
    prog = ck.prog
    fs = [f for f in prog.fns if is_parse(f)]
    ck.floor('parse_functions', len(fs), 8)
    sets = token_sets(prog)
    ck.count('token_sets', len(sets))
    def pol(g, fr, c):
        if g.crate.name != CR or is_parse(g): return False
        return g.path.rsplit('::', 1)[-1] not in BASE and 'TokenSet' not in g.path and 'error::' not in g.path and 'core::' not in g.path
    flats = {f: Flat(prog, f, pol) for f in fs}
    zero = {f: set() for f in fs}; exits = {f: set() for f in fs}; res = {}
    def least(ws): return {w for w in ws if not any(w[:i] in ws for i in range(len(w)))}
    entry = {f: set() for f in fs}
    roots = [f for f in fs if short(f) == 'Root']
    if not ck.need(roots or None, 'Root', 'the function that parses a document'): return
    for f in roots: entry[f] = {()}
    work = list(roots); rounds = 0
    while work and rounds < 300:
        rounds += 1
        f = work.pop(0)
        m = Pt(sets, zero, exits, f in roots); X = PX(flats[f], m, cap=400, max_states=600000)
        X.edges = {}
        X.run({(1, ()): ('r', ('PARSER', ())), ('PARSER', (('f', 'depth'),)): ('str', ('DEPTH', 0))}, starts=[(w,) + Pt.init[1:] for w in sorted(entry[f])])
        res[f] = (m, X)
        if X.overflow: break
        for g, ws in m.enter.items():
            e = least(entry[g] | ws)
            if e != entry[g]:
                entry[g] = e
                if g not in work: work.append(g)
        z, e = least(zero[f] | m.zeros), least(exits[f] | m.exits)
        if z != zero[f] or e != exits[f]:
            zero[f], exits[f] = z, e
            for g in fs:
                if g not in work and g in res and any(h is f for h, _, _ in res[g][0].calls): work.append(g)
    ck.ob(not work, 'fixpoint', 'the summaries of the parse functions did not settle')
    fs = [f for f in fs if f in res]
    edges = {}
    for f in fs:
        m, X = res[f]; name = short(f)
        ck.count('states', X.states)
        ck.ob(not X.overflow, 'overflow:' + name, '%s: exploration did not finish' % name)
        for st, msg, bi, line in X.bad:
            ck.ob(False, '%s:%s' % (name, msg), 'parsing %s: %s (%s), tokens ahead %s: %s' % (name, msg, X.F.loc(bi, line), list(st[2][0]), ' ; '.join(X.witness(st, 6))))
        if m.unknown: ck.notes.append('%s: not understood: %s' % (name, m.unknown)); continue
        ck.ob(m.rets > 0, 'vacuous:' + name, '%s: no return reached' % name)
        cyc = X.cycle(lambda a, b: isinstance(b, tuple) and a[1] == b[1])
        where = ''
        if cyc: where = '%s, tokens ahead %s' % (', '.join(sorted({X.F.loc(s[0], X.F.blocks[s[0]].term[1].line) for s in cyc if X.F.blocks[s[0]].term[0] == 'call'})[:6]), list(cyc[0][2][0]))
        ck.ob(cyc is None, 'hang:' + name, 'parsing %s can go round without consuming a token: %s' % (name, where), sample='%s: %d states, no cycle without consuming; may return without consuming on %d windows, e.g. %s' % (name, X.states, len(zero[f]), sorted(zero[f], key=len)[:3]) + ', entered on %d windows, left on %d after consuming' % (len(entry[f]), len(exits[f])))
        for g, guarded, line in m.calls:
            ck.count('calls_between_parse_functions')
            if not guarded: edges.setdefault(f, set()).add(g)
    # recursion without the limit
    state = {}
    def dfs(f, path):
        state[f] = 1
        for g in edges.get(f, ()):
            if state.get(g) == 1:
                cyc = path[path.index(g):] if g in path else [g]
                ck.ob(False, 'recursion:%s' % '>'.join(sorted(map(short, cyc))), 'recursion without a limit on the depth: %s' % ' -> '.join(map(short, cyc + [g])))
            elif g not in state: dfs(g, path + [g])
        state[f] = 2
    for f in fs:
        if f not in state: dfs(f, [f])
    ck.ob(True, 'recursion', '', sample='%d calls between parse functions that are not behind the depth limit form no cycle' % sum(map(len, edges.values())))
