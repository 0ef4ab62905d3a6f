"""Splitting text into tokens, decided by abstract interpretation of the lexer's MIR over character classes.  The
cursor's iterator is replaced by an unbounded text of which only the characters already looked at are known; a
reference tokenizer written from the TOML grammar follows every character consumed, and at each return the kind and the
end of the token must agree with it.  The expressions that recognise numbers and dates are compared with the grammar as
regular languages, and the parser's cursor is checked to hand every token on."""
import re, re._parser as sre
from props.common import *
from props.P31 import TX, Text, PRED, utf8, show, CHARBASE, derived, SOME0

SK = 'tombi_syntax::generated::syntax_kind::SyntaxKind'
DELIM = set(map(ord, ' \t\n\r=.],#')) | {'EOF'}
BARE = set(map(ord, 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-'))
PUNCT = {'{': 'BRACE_START', '}': 'BRACE_END', '[': 'BRACKET_START', ']': 'BRACKET_END', ',': 'COMMA', '.': 'DOT', '=': 'EQUAL'}
KEYWORDS = {'inf': 'FLOAT', 'nan': 'FLOAT', 'true': 'BOOLEAN', 'false': 'BOOLEAN'}
FREE = ('FREE',)        # the grammar has no token here: anything may be returned
ESC_OK = set(map(ord, 'btnfr"\\uUex'))

# ---------------------------------------------------------------- the reference tokenizer
# state: (family, ...).  step on a consumed character; verdict(state, next character) at a return.
def start(c):
    ch = chr(c)
    if ch in ' \t': return ('WS',)
    if ch == '\n': return ('LF',)
    if ch == '\r': return ('CR',)
    if ch == '#': return ('COMMENT',)
    if ch == '"': return ('Q', '"', 1)
    if ch == "'": return ('Q', "'", 1)
    if ch in PUNCT: return ('PUNCT', ch)
    if c in BARE and not ch.isdigit() and ch != '-': return ('KEY', ch)
    return FREE

def step(s, c):
    k = s[0]
    if k in ('FREE', 'PAST'): return s
    if k == 'WS': return s if c in (32, 9) else ('PAST', 'WHITESPACE')
    if k in ('LF', 'PUNCT', 'CRLF'): return ('PAST', 'LINE_BREAK' if k != 'PUNCT' else PUNCT[s[1]])
    if k == 'CR': return ('CRLF',) if c == 10 else ('PAST', 'LINE_BREAK')
    if k == 'COMMENT': return ('PAST', 'COMMENT') if c in (10, 13) else ('COMMENTX',) if c < 32 and c != 9 or c == 127 else s
    if k == 'COMMENTX': return ('PAST', 'COMMENT') if c in (10, 13) else s
    if k == 'KEY':
        if c not in BARE: return ('PAST', 'BARE_KEY') if c in DELIM else FREE
        t = s[1] + chr(c) if s[1] != '*' else '*'
        return ('KEY', t if any(w.startswith(t) for w in KEYWORDS) else '*')
    if k == 'Q':        # opening quotes seen
        q, n = s[1], s[2]
        if c == ord(q):
            if n < 2: return ('Q', q, 2)
            return ('M', q, 0)
        if n == 2: return ('PAST', 'the empty string')
        return step(('S', q), c)
    if k == 'S':        # single-line string
        q = s[1]
        if c == ord(q): return ('END', q)
        if c in (10, 13): return FREE
        if c == 92 and q == '"': return ('SE', q)
        return s
    if k == 'SE': return ('S', s[1]) if c in ESC_OK and c != 'EOF' else FREE
    if k == 'END': return ('PAST', 'a string')
    if k == 'M':        # multi-line string, s[2] quotes in a row
        q, n = s[1], s[2]
        if c == ord(q):
            return ('M', q, n + 1) if n < 5 else FREE
        if n >= 3: return ('PAST', 'a multi-line string')
        if c == 92 and q == '"': return ('ME', q)
        return ('M', q, 0)
    if k == 'ME': return ('M', s[1], 0) if c in ESC_OK or c in (32, 9, 10, 13) else FREE
    raise AssertionError(s)

def looking(s, nxt):
    """The state in which the token must stop, given the next character (None: not looked at)."""
    return s

def verdict(s, res, nxt, atend):
    """None, or what is wrong.  res: kind or 'Err'.  nxt: next character, 'EOF' or None when nothing is known of it."""
    k = s[0]
    if k == 'FREE': return None
    if k == 'PAST': return 'runs past the end of %s' % s[1]
    def is_(kind, more):
        if res == 'Err': return 'is an error'
        if res != kind: return 'is read as %s' % res
        if more(nxt): return 'ends before its end'
    alts = []
    if k == 'WS': return is_('WHITESPACE', lambda c: c in (None, 32, 9))
    if k in ('LF', 'CRLF'): return is_('LINE_BREAK', lambda c: False)
    if k == 'CR':
        if nxt == 10: return 'leaves out the line feed'
        if nxt is None: return 'is returned without looking for a line feed'
        return None if res == 'Err' else 'is accepted though it is not a line break'
    if k == 'PUNCT': return is_(PUNCT[s[1]], lambda c: False)
    if k == 'COMMENT':
        if nxt is not None and nxt != 'EOF' and (nxt < 32 and nxt not in (9, 10, 13) or nxt == 127): return None if res == 'Err' else 'ends before its end'
        return is_('COMMENT', lambda c: c is None or c not in (10, 13, 'EOF'))
    if k == 'COMMENTX': return None if res == 'Err' else is_('COMMENT', lambda c: c is None or c not in (10, 13, 'EOF'))
    if k == 'KEY':
        if nxt is None: return 'ends without looking at what follows'
        if nxt in BARE: return 'ends before its end'
        if nxt not in DELIM: return None
        return is_(KEYWORDS.get(s[1], 'BARE_KEY'), lambda c: False)
    if k == 'Q':
        if s[2] == 1: return None if nxt == 'EOF' and res == 'Err' else 'ends after the opening quote'
        if nxt == ord(s[1]): return 'ends before its end'
        if nxt is None: return 'ends without looking at what follows'
        return is_('BASIC_STRING' if s[1] == '"' else 'LITERAL_STRING', lambda c: False)
    if k in ('S', 'SE'):
        if res != 'Err': return 'ends before its end'
        if nxt is not None and (nxt == 'EOF' or nxt in (10, 13)): return None
        return 'is an error before its end is reached'
    if k == 'END': return is_('BASIC_STRING' if s[1] == '"' else 'LITERAL_STRING', lambda c: False)
    if k in ('M', 'ME'):
        n = s[2] if k == 'M' else 0
        if n >= 3:
            if nxt is None: return 'ends without looking at what follows'
            if n < 5 and nxt == ord(s[1]): return None if res == 'Err' and False else 'ends before its end'
            if n == 5 and nxt == ord(s[1]): return None
            return is_('MULTI_LINE_BASIC_STRING' if s[1] == '"' else 'MULTI_LINE_LITERAL_STRING', lambda c: False)
        if res != 'Err': return 'ends before its end'
        return None if nxt == 'EOF' else 'is an error before its end is reached'

# ---------------------------------------------------------------- the text under the cursor
class Tape(Text):
    """astate: (characters looked at and not yet consumed, reference state, consumed since the last span, spans taken)"""
    init = ((), None, 0, 0)
    wants_stmts = True
    MAXWIN = 8
    def __init__(self, first, chars): self.first = first; self.chars = chars; self.unknown = {}; self.rets = {}; self.quiet = 0
    def unk(self, a, why): self.unknown[why] = self.unknown.get(why, 0) + 1; return (a[0], FREE, a[2], a[3])
    def look(self, win, i):
        """[(window, character)] with the i-th character known; [] beyond the bound"""
        if i < len(win): return [(win, win[i])]
        if win and win[-1] == 'EOF': return [(win, 'EOF')]
        if i >= self.MAXWIN: self.quiet += 1; return []
        out = []
        for c in self.chars + ['EOF']:
            out += self.look(win + (c,), i)
        return out
    def consume(self, a):
        win, s, d, p = a
        if not win and s is None: wins = [((self.first,), self.first)]
        else: wins = self.look(win, 0)
        for w, c in wins:
            if c == 'EOF': yield c, (w, s, d, p)
            elif d: yield c, '!moves past a character without counting its length'
            elif s is None: yield c, (w[1:], start(c), utf8(c), 2 if p else 0)
            else: yield c, (w[1:], step(s, c), utf8(c), 2 if p else 0)
    def it(self, X, env, v):
        """What an iterator reference stands for: (place, value)"""
        n = 0
        while v is not None and v[0] == 'r' and n < 6:
            w = env.get(v[1])
            if w is None: return v[1], None
            if w[0] == 'str': return v[1], w[1]
            v = w; n += 1
        return None, None
    def call_alts(self, X, bi, c, env, argv, a):
        d = c.callee; dd = c.decl
        if dd is None: return None
        path = dd.path; last = path.rsplit('::', 1)[-1]; t0 = c.argtys[0] if c.argtys else None
        win = a[0]
        if t0 is not None and 'core::str::iter::Chars' in t0.s or t0 is not None and 'Enumerate<core::str::iter::Chars' in t0.s:
            if t0.s.startswith(('&', '&mut')): place, sym = self.it(X, env, argv[0])
            else: place, sym = None, (argv[0][1] if argv[0] is not None and argv[0][0] == 'str' else None)
            tape = sym is None and t0.s.startswith('&') and place is not None and place[1] and place[1][-1] == ('f', 'chars')
            if last == 'clone':
                if tape: return [([((), ('str', ('CL', 0)))], a)]
                if sym is not None: return [([((), ('str', sym))], a)]
            if last in ('into_iter', 'by_ref') and sym is not None: return [([((), ('str', sym) if last == 'into_iter' else argv[0])], a)]
            if last == 'enumerate' and isinstance(sym, tuple) and sym[0] == 'CI': return [([((), ('str', ('CE', sym[1], sym[2], 0)))], a)]
            if last == 'as_str' and (tape or isinstance(sym, tuple) and sym[0] == 'CL'): return [([((), ('str', ('REST', 0 if tape else sym[1])))], a)]
            if last in ('next', 'nth', 'peek'):
                n = 0
                if last == 'nth':
                    if argv[1] is None or argv[1][0] != 'c': return [([], self.unk(a, path))]
                    n = int(argv[1][1])
                if tape and last == 'next':
                    out = []
                    for ch, a2 in self.consume(a):
                        if isinstance(a2, str): out.append(([], a2))
                        elif ch == 'EOF': out.append(([((), ('v', OPT, 'None'))], a2))
                        else: out.append((self.tree_some(ch), a2))
                    return out
                if isinstance(sym, tuple) and sym[0] == 'CL':
                    out = []
                    for w, ch in self.look(win, sym[1] + n):
                        b = (w,) + a[1:]; wr = {place: ('str', ('CL', sym[1] + n + (ch != 'EOF')))} if place is not None else {}
                        out.append(([((), ('v', OPT, 'None'))] if ch == 'EOF' else self.tree_some(ch), b, wr))
                    return out
                if isinstance(sym, tuple) and sym[0] in ('CI', 'CE') and last == 'next':
                    txt, k = sym[1], sym[2]
                    if k >= len(txt): return [([((), ('v', OPT, 'None'))], a)]
                    if sym[0] == 'CI': return [(self.tree_some(ord(txt[k])), a, {place: ('str', ('CI', txt, k + 1))})]
                    return [(self.tree_some(ord(txt[k]), idx=sym[3]), a, {place: ('str', ('CE', txt, k + 1, sym[3] + 1))})]
            if tape or isinstance(sym, tuple): return [([], self.unk(a, path))]
        if last == 'chars' and path.startswith('core::str') and argv[0] is not None and argv[0][0] == 'str' and isinstance(argv[0][1], str): return [([((), ('str', ('CI', argv[0][1], 0)))], a)]
        if last == 'len' and path.startswith('core::str') and argv[0] is not None and argv[0][0] == 'str' and isinstance(argv[0][1], str): return [([((), ('c', str(len(argv[0][1].encode()))))], a)]
        if last == 'is_empty' and argv and argv[0] is not None and argv[0][0] == 'str' and isinstance(argv[0][1], tuple) and argv[0][1][0] == 'REST':
            return [([((), cbool(ch == 'EOF'))], (w,) + a[1:]) for w, ch in self.look(win, argv[0][1][1])]
        if path.startswith('alloc::string::String'):
            if last in ('new', 'with_capacity'): return [([((), ('str', ('LEN', 0)))], a)]
            place, sym = self.it(X, env, argv[0]) if argv else (None, None)
            if isinstance(sym, tuple) and sym[0] == 'LEN':
                if last == 'push':
                    ch = self.char(X, env, argv[1])
                    n = sym[1] + (utf8(ch) if ch is not None else 1)
                    return [([], a, {place: ('str', ('LEN', min(n, 12)))})]
                if last == 'len': return [([((), ('c', str(sym[1])))], a)]
        if last == 'saturating_sub' and all(v is not None and v[0] == 'c' for v in argv): return [([((), ('c', str(max(0, int(argv[0][1]) - int(argv[1][1])))))], a)]
        if last == 'len_utf16':
            ch = self.char(X, env, argv[0])
            if ch is not None: return [([((), ('c', '1' if ch < 0x10000 else '2'))], a)]
        if last == 'len_utf8':
            ch = self.char(X, env, argv[0])
            if ch is not None: return [([((), ('c', str(utf8(ch))))], a)]
        if last == 'new' and path.endswith('Offset::new') and argv[0] is not None and argv[0][0] == 'c': return [([((), ('str', ('ADV', int(argv[0][1]))))], a)]
        if last == 'add_assign' and self.field(env, argv[0]) == 'current_offset':
            return [([], self.advance(a, argv[1]), {self.place(env, argv[0]): ('str', 'NOW')})]
        if last == 'add' and len(argv) == 2 and argv[0] == ('str', 'NOW') and argv[1] is not None and argv[1][0] == 'str' and isinstance(argv[1][1], tuple) and argv[1][1][0] == 'ADV': return [([((), ('str', ('SUM', argv[1][1][1])))], a)]
        if last == 'new' and path.endswith('Span::new') and len(argv) == 2:
            if argv[0] != ('str', 'START') or argv[1] != ('str', 'NOW'): return [([], '!has a span that does not reach from the end of the token before to the last character consumed')]
            return [([((), ('str', 'SPAN'))], a)]
        l = self.lib(X, bi, c, env, argv)
        if l is False: return [([], self.unk(a, path))]
        if l is not None: return [(l, a)]
        return None
    def field(self, env, v):
        n = 0
        while v is not None and v[0] == 'r' and n < 6:
            p = v[1]
            if p[1] and p[1][-1][0] == 'f': return p[1][-1][1]
            v = env.get(p); n += 1
        return None
    def place(self, env, v):
        n = 0
        while v is not None and v[0] == 'r' and n < 6:
            if v[1][1] and v[1][1][-1][0] == 'f': return v[1]
            v = env.get(v[1]); n += 1
    def advance(self, a, v):
        k = v[1][1] if v is not None and v[0] == 'str' and isinstance(v[1], tuple) and v[1][0] in ('ADV', 'SUM') else None
        if k is None: return self.unk(a, 'length of a character') [:2] + (0, a[3])
        if k != a[2]: return '!counts %d bytes for a character of %d' % (k, a[2])
        return (a[0], a[1], 0, a[3])
    def on_stmt(self, X, bi, s, env, a):
        if s[0] != '=' or not s[1][1] or s[1][1][-1][0] != 'f': return a
        f = s[1][1][-1][1]
        if f == 'token_start_offset':
            v = X.eval(bi, env, s[2][1]) if s[2][0] == 'use' else None
            if v != ('str', 'NOW'): return '!starts the next token somewhere else than where this one ends'
            if a[3] and a[1] is not None: return '!takes the span of a token twice'
            return (a[0], a[1], a[2], 1)
        if f == 'current_offset':
            v = X.eval(bi, env, s[2][1]) if s[2][0] == 'use' else None
            if v == ('str', 'NOW'): return a
            return self.advance(a, v)
        return a
    def on_ret(self, X, bi, env, a):
        win, s, dirty, spans = a
        kind = None
        for l in X.F.ret_locals:
            v = X.variant_at(env, (l, ()))
            if v is not None and v[0] == 'v':
                if v[2] == 'Err': kind = 'Err'
                else:
                    k = X.variant_at(env, (l, (('d', 'Ok'), ('f', '0'), ('f', 'kind'))))
                    kind = k[2] if k is not None and k[0] == 'v' else '?'
        if kind is None or kind == '?': self.unknown['value returned'] = self.unknown.get('value returned', 0) + 1; return 'unknown'
        self.rets[kind] = self.rets.get(kind, 0) + 1
        if s is None: return '!returns %s where a token starts with %s' % (kind, show(self.first))
        if dirty or spans != 1: return '!returns a token whose span leaves out text that was consumed'
        msg = verdict(s, kind, win[0] if win else None, None)
        return ('!' + msg) if msg else 'ok'

class LX(TX):
    def prune(self, env, bi):
        out = TX.prune(self, env, bi)
        for k in (('CURSOR', (('f', 'token_start_offset'),)), ('CURSOR', (('f', 'current_offset'),))):
            if k in env: out[k] = env[k]
        return out
    def do_stmt(self, bi, env, s):
        if s[0] == '=' and s[1][1] and s[1][1][-1][:2] == ('f', 'current_offset'):
            TX.do_stmt(self, bi, env, s); env[self.resolve(env, s[1])] = ('str', 'NOW'); return
        if s[0] == '=' and s[2][0] == 'bin' and s[2][1] in ('Add', 'Sub', 'AddWithOverflow', 'SubWithOverflow', 'AddUnchecked', 'SubUnchecked'):
            r = s[2]; x = self.eval(bi, env, r[2]); y = self.eval(bi, env, r[3])
            dest = self.resolve(env, s[1]); self.kill(env, dest)
            if x is not None and y is not None and x[0] == 'c' and y[0] == 'c' and x[1].isdigit() and y[1].isdigit():
                n = int(x[1]) + int(y[1]) if r[1].startswith('Add') else int(x[1]) - int(y[1])
                if 0 <= n <= 64:
                    if 'Overflow' in r[1]: env[(dest[0], dest[1] + (('f', '0'),))] = ('c', str(n)); env[(dest[0], dest[1] + (('f', '1'),))] = F_
                    else: env[dest] = ('c', str(n))
            return
        return Explorer.do_stmt(self, bi, env, s)

def consts_in(F, blocks):
    out = set()
    def op(o):
        if o[0] == 'const' and o[1].v is not None and o[1].ty is not None and o[1].ty.s == 'char' and len(o[1].v) == 1: out.add(ord(o[1].v))
    for i in blocks:
        b = F.blocks[i]
        for s in b.stmts:
            if s[0] == '=':
                for x in s[2][1:]:
                    if isinstance(x, tuple) and x and x[0] == 'const': op(x)
        if b.term[0] == 'switch' and b.term[4] is not None and b.term[4].s == 'char':
            for v, x in b.term[2]: out.add(int(v))
        elif b.term[0] == 'call':
            for a in b.term[1].args: op(a)
    return out

FAMILIES = {
 'white space': ' \t', 'a line break': '\n\r', 'a comment': '#', 'a basic string': '"', 'a literal string': "'",
 'punctuation': '{}[],.=', 'a key or keyword': 'Aftni_Z',
}
COMMON = set(map(ord, '"\'\\\n\r \t#xn=')) | {0, 1, 127, 0xe9}
KEYCH = set(map(ord, 'x0_-Z=.],#$:"{} \n\r\t')) | {0xe9}

def scan(ck, prog):
    root = next((f for f in prog.fns if f.crate.name == 'tombi_lexer' and f.path.endswith('::advance_token')), None)
    root = ck.need(root, 'advance_token', 'the function that reads one token')
    if not root: return
    F = Flat(prog, root, lambda g, fr, c: g.crate.name == 'tombi_lexer' and not derived(g) and 'REGEX' not in g.path)
    n = 0
    for fam, firsts in FAMILIES.items():
        for first in firsts:
            base = KEYCH | {ord(x) for w in KEYWORDS if w[0] == first for x in w} if fam.startswith('a key') else COMMON
            chars = sorted(base); m = None
            for rnd in range(3):
                m = Tape(ord(first), chars); X = LX(F, m, cap=4000, max_states=1500000)
                X.run({(1, ()): ('r', ('CURSOR', ())), ('CURSOR', (('f', 'token_start_offset'),)): ('str', 'START'), ('CURSOR', (('f', 'current_offset'),)): ('str', 'NOW')})
                if X.overflow: break
                cs = consts_in(F, [b for b in X.visited_blocks if F.bframe[b] is not F.root_frame])
                more = sorted(set(chars) | {c for c in cs if c < 128}) if not fam.startswith('a key') else chars
                if more == chars: break
                chars = more
            ck.count('states', X.states); ck.count('first_characters')
            for st, msg, bi, line in X.bad:
                ck.ob(False, 'scan:%s:%s' % (fam, msg), '%s (text starting with %s): the token %s (%s): %s' % (fam, show(ord(first)), msg, F.loc(bi, line), ' ; '.join(X.witness(st, 6))))
            ck.ob(not X.overflow, 'overflow:' + fam, '%s: exploration did not finish' % fam)
            if m.unknown: ck.notes.append('%s (%r): not understood: %s' % (fam, first, m.unknown))
            else: ck.ob(bool(m.rets), 'vacuous:%s:%s' % (fam, first), '%s: no token returned' % fam, sample='%s starting with %s: %d classes of characters, returns %s' % (fam, show(ord(first)), len(chars), m.rets))
            n += 1
    ck.floor('first_characters', n, 15)

# ---------------------------------------------------------------- numbers and dates as regular languages
class Nfa:
    """Thompson construction over explicit character sets (an expression anchored at its start)."""
    def __init__(self, text):
        self.eps = {}; self.edges = {}; self.n = 0; self.sets = []
        t = list(sre.parse(text))
        if t and str(t[0][0]) == 'AT' and 'BEGIN' in str(t[0][1]): t = t[1:]
        else: raise ValueError('not anchored at the start')
        self.end = bool(t) and str(t[-1][0]) == 'AT' and 'END' in str(t[-1][1])
        if self.end: t = t[:-1]
        self.start = self.new(); self.final = self.seq(t, self.start)
    def new(self): self.n += 1; return self.n - 1
    def e(self, a, b): self.eps.setdefault(a, set()).add(b)
    def ch(self, a, cs):
        b = self.new(); self.edges.setdefault(a, []).append((frozenset(cs), b)); self.sets.append(frozenset(cs)); return b
    def seq(self, t, s):
        for op, av in t: s = self.one(str(op), av, s)
        return s
    def one(self, op, av, s):
        if op == 'LITERAL': return self.ch(s, {av})
        if op == 'NOT_LITERAL': return self.ch(s, set(range(0, 256)) - {av})
        if op == 'ANY': return self.ch(s, set(range(0, 256)) - {10})
        if op == 'IN':
            cs = set(); neg = False
            for o, v in av:
                o = str(o)
                if o == 'NEGATE': neg = True
                elif o == 'LITERAL': cs.add(v)
                elif o == 'RANGE': cs |= set(range(v[0], min(v[1], 0x2ff) + 1))
                elif o == 'CATEGORY':
                    v = str(v)
                    d = set(range(48, 58)) if 'DIGIT' in v else set(map(ord, ' \t\n\r\x0b\x0c')) if 'SPACE' in v else {c for c in range(128) if chr(c).isalnum() or c == 95} if 'WORD' in v else None
                    if d is None: raise ValueError(v)
                    cs |= set(range(256)) - d if 'NOT' in v else d
                else: raise ValueError(o)
            return self.ch(s, set(range(0, 256)) - cs if neg else cs)
        if op == 'SUBPATTERN': return self.seq(av[3], s)
        if op == 'BRANCH':
            out = self.new()
            for b in av[1]:
                st = self.new(); self.e(s, st); self.e(self.seq(b, st), out)
            return out
        if op in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, sub = av
            for _ in range(lo): s = self.seq(sub, s)
            if str(hi) == 'MAXREPEAT':
                st = self.new(); self.e(s, st); b = self.seq(sub, st); self.e(b, st)
                out = self.new(); self.e(st, out); return out
            out = self.new(); self.e(s, out)
            for _ in range(hi - lo): s = self.seq(sub, s); self.e(s, out)
            return out
        raise ValueError(op)
    def close(self, ss):
        st = list(ss); seen = set(ss)
        while st:
            for b in self.eps.get(st.pop(), ()):
                if b not in seen: seen.add(b); st.append(b)
        return frozenset(seen)

class Lang:
    """Words accepted by an expression; `n`: only the first n characters are given to it."""
    def __init__(self, text, n=None):
        self.text = text; self.nfa = Nfa(text); self.n = n; self.memo = {}
        self.init = (self.nfa.close({self.nfa.start}), 0, False)
    def step(self, q, c):
        k = (q, c); r = self.memo.get(k)
        if r is not None: return r
        S, i, acc = q
        if self.n is not None and i >= self.n: r = q
        else:
            if not self.nfa.end and self.nfa.final in S: acc = True
            T = self.nfa.close({b for a in S for cs, b in self.nfa.edges.get(a, ()) if c in cs})
            r = (T, i + 1 if self.n is not None else 0, acc)
        self.memo[k] = r; return r
    def ok(self, q): return q[2] or self.nfa.final in q[0]

def word(pos, neg):
    """A shortest word in every language of pos and in none of neg; None when there is none."""
    ls = pos + neg
    sets = {cs for l in ls for cs in l.nfa.sets}
    reps = {}
    for c in list(range(48, 58)) + list(range(97, 123)) + list(range(33, 48)) + list(range(58, 97)) + list(range(123, 127)) + [32]:
        reps.setdefault(tuple(c in s for s in sets), c)
    q0 = tuple(l.init for l in ls); seen = {q0: None}; todo = [q0]; k = 0
    while k < len(todo):
        q = todo[k]; k += 1
        if all(l.ok(x) for l, x in zip(pos, q)) and not any(l.ok(x) for l, x in zip(neg, q[len(pos):])):
            w = []; 
            while seen[q] is not None: q, c = seen[q]; w.append(chr(c))
            return ''.join(reversed(w))
        for c in reps.values():
            r = tuple(l.step(x, c) for l, x in zip(ls, q))
            if r not in seen: seen[r] = (q, c); todo.append(r)
    return None

DEC = '(0|[1-9](_?[0-9])*)'
TIME = '[0-9]{2}:[0-9]{2}(:[0-9]{2}([.][0-9]+)?)?'
DATE = '[0-9]{4}-[0-9]{2}-[0-9]{2}'
REF = {
 'INTEGER_BIN': '^0b[01](_?[01])*$', 'INTEGER_OCT': '^0o[0-7](_?[0-7])*$', 'INTEGER_HEX': '^0x[0-9A-Fa-f](_?[0-9A-Fa-f])*$', 'INTEGER_DEC': '^%s$' % DEC,
 'FLOAT': r'^%s([.][0-9](_?[0-9])*([eE][+-]?[0-9](_?[0-9])*)?|[eE][+-]?[0-9](_?[0-9])*)$' % DEC,
 'OFFSET_DATE_TIME': '^%s[Tt ]%s([Zz]|[+-][0-9]{2}:[0-9]{2})$' % (DATE, TIME), 'LOCAL_DATE_TIME': '^%s[Tt ]%s$' % (DATE, TIME), 'LOCAL_DATE': '^%s$' % DATE, 'LOCAL_TIME': '^%s$' % TIME,
}
KEYLANG = '^[0-9][A-Za-z0-9_-]*$'
DATEKEY = '^%s[A-Za-z0-9_-]+$' % DATE
DOTTED = '^[0-9][A-Za-z0-9_-]*([.][A-Za-z0-9_-]+)+$'
AS_KEY = {'BARE_KEY', 'INTEGER_BIN', 'INTEGER_OCT', 'INTEGER_HEX', 'INTEGER_DEC', 'FLOAT', 'LOCAL_DATE', 'BOOLEAN'}

class Num(Text):
    """astate: what the expressions said about the text of the token"""
    init = frozenset()
    def __init__(self, prog, sign): self.sign = sign; self.unknown = {}; self.rets = {}; self.statics = {}; self.texts = set(); self.prog = prog
    def prov(self, env, v):
        n = 0
        while v is not None and n < 6:
            if v[0] == 'str' and isinstance(v[1], tuple) and v[1][0] == 'TXT': return v[1]
            if v[0] not in ('r', 's'): return None
            v = env.get(v[1]); n += 1
    def call_alts(self, X, bi, c, env, argv, a):
        d = c.callee; dd = c.decl
        if dd is None: return None
        path = (d or dd).path; last = dd.path.rsplit('::', 1)[-1]
        if path.startswith('tombi_regex::Regex::') and last in ('is_match', 'find'):
            st = argv[0][1] if argv[0] is not None and argv[0][0] == 'str' else None; tx = self.prov(env, argv[1])
            if st is None or tx is None:
                self.unknown['a test of an expression'] = self.unknown.get('a test of an expression', 0) + 1
                return None
            self.statics[st[1]] = self.statics.get(st[1], 0) + 1
            key = (st[1], tx[1]); out = []
            for b in (True, False):
                if (key, not b) in a: continue
                b2 = a | {(key, b)}
                if b and last == 'find': b2 = frozenset(x for x in b2 if not (isinstance(x, tuple) and x[0] == 'LAST')) | {('LAST', key)}
                out.append(([((), cbool(b))], b2) if last == 'is_match' else ([((), ('v', OPT, 'Some' if b else 'None'))], b2))
            return out
        if last == 'deref' and argv[0] is not None:
            p = self.prov(env, argv[0])
            if p: return [([((), ('str', p))], a)]
            v = argv[0]; n = 0
            while v is not None and v[0] == 'r' and n < 4: v = env.get(v[1]); n += 1
            if v is not None and v[0] == 'str': return [([((), v)], a)]
        if last in ('as_str', 'borrow', 'as_ref', 'to_string', 'clone', 'to_owned', 'into') and argv and self.prov(env, argv[0]): return [([((), ('str', self.prov(env, argv[0])))], a)]
        if last in ('index', 'get') and argv and self.prov(env, argv[0]) and len(c.argtys) > 1 and 'RangeTo<' in c.argtys[1].s:
            hi = X.rng(bi, env, c)
            if hi is not None and last == 'index': return [([((), ('str', ('TXT', hi)))], a)]
        f = (d or dd).fn
        if f is not None and f.crate.name == 'tombi_lexer':
            rt = f.ltys[0].s
            if rt == 'alloc::string::String':
                n = None
                for v, t in zip(argv, c.argtys):
                    if t.s == 'usize':
                        if v is None or v[0] != 'c': return [([], a)]
                        n = int(v[1])
                self.texts.add(path)
                for arg in c.args:
                    for abi, s in X.F._resolve_agg(arg, X.defs):
                        p = X.resolve(env, arg[1]) if arg[0] != 'const' else None
                        ups = tuple(sorted((k[1][-1][1], env[v[1]][1]) for k, v in env.items() if p is not None and k[0] == p[0] and k[1] and k[1][-1][0] == 'f' and v is not None and v[0] == 'r' and (env.get(v[1]) or ('',))[0] == 'c'))
                        X.preds.add((s[2][2].fn, n, f, ups))
                return [([((), ('str', ('TXT', n)))], a)]
            nb = sum(1 for x in a if x in ('B1', 'B2'))
            if rt == 'char' and len(c.args) > 1:
                if self.sign and nb < 2: return [([((), ('c', '48'))], a)]
                lk = next((x[1] for x in a if isinstance(x, tuple) and x[0] == 'LAST'), None)
                return [([((), ('c', str(ch)))], a | {('END', lk, True)}) for ch in sorted(x for x in DELIM if x != 'EOF') + [0] if ('END', lk, False) not in a] + ([([((), ('c', '120'))], a | {('END', lk, False)})] if ('END', lk, True) not in a else [])
            if rt == 'core::option::Option<char>':
                ch = ('c', str(ord(self.sign))) if self.sign and nb == 0 else ('c', '48')
                return [([((), ('v', OPT, 'Some')), (SOME0, ch)], a | {'B%d' % min(nb + 1, 2)}, {('CURSOR', (('f', 'current_char'),)): ch})]
            if rt == 'bool' and any(t.peel().s == 'str' for t in c.argtys): return [([((), F_)], a)]
        if last == 'contains' or last in ('eq', 'ne') and c.argtys and ('str' in c.argtys[0].s.lower()): return [([((), cbool(last == 'ne'))], a)]
        l = self.lib(X, bi, c, env, argv)
        if l not in (None, False): return [(l, a)]
        return None
    def on_ret(self, X, bi, env, a):
        kind = None
        for l in X.F.ret_locals:
            v = X.variant_at(env, (l, ()))
            if v is not None and v[0] == 'v':
                if v[2] == 'Err': kind = 'Err'
                else:
                    k = X.variant_at(env, (l, (('d', 'Ok'), ('f', '0'), ('f', 'kind'))))
                    kind = k[2] if k is not None and k[0] == 'v' else '?'
        if kind in (None, '?'): self.unknown['value returned'] = 1; return 'unknown'
        if ('END', None, False) not in a: self.rets.setdefault((kind, frozenset(x for x in a if not isinstance(x, str))), bi)
        return 'ok'

class NX(TX):
    preds = None
    def eval(self, bi, env, o):
        if o[0] == 'const' and o[1].st: return ('str', ('ST', o[1].st.rsplit('::', 1)[-1]))
        return TX.eval(self, bi, env, o)
    def rng(self, bi, env, c):
        v = self.eval(bi, env, c.args[1])
        p = self.resolve(env, c.args[1][1]) if c.args[1][0] != 'const' else None
        if p is None: return None
        e = env.get((p[0], p[1] + (('f', 'end'),)))
        return int(e[1]) if e is not None and e[0] == 'c' and e[1].isdigit() else None


def expressions(prog):
    """static's name -> text of the expression it is built from"""
    out = {}
    for f in prog.fns:
        if f.crate.name != 'tombi_lexer' or f.kind != 'closure': continue
        if not any(b.term[0] == 'call' and b.term[1].callee is not None and b.term[1].callee.path.startswith('tombi_regex::Regex::new') for b in f.blocks): continue
        name = f.path.rsplit('::', 2)[-2]
        def consts():
            for b in f.blocks:
                for s in b.stmts:
                    if s[0] == '=':
                        for o in s[2][1:]:
                            if isinstance(o, tuple) and o and o[0] == 'const' and o[1].s is not None: yield o[1].s
                if b.term[0] == 'call':
                    for o in b.term[1].args:
                        if o[0] == 'const' and o[1].s is not None: yield o[1].s
        cs = list(consts())
        cs = [x for x in cs if x.startswith('^')] or cs
        if len(cs) == 1 or len(set(cs)) == 1: out[name] = cs[0]
    return out

def predicate(prog, fn):
    """What a predicate on characters says of each: {char: set of answers}"""
    F = Flat(prog, fn, lambda g, fr, c: g.crate.name == 'tombi_lexer')
    out = {}
    for ch in sorted({ord(x) for x in 'a0Zz9_-.:+ \t\n\r=,]#'}):
        class M(Text):
            init = 0
            def __init__(self): self.r = set()
            def call_alts(self, X, bi, c, env, argv, a):
                l = self.lib(X, bi, c, env, argv)
                return [(l, a)] if l not in (None, False) else None
            def on_ret(self, X, bi, env, a):
                for l in X.F.ret_locals:
                    v = env.get((l, ()))
                    self.r.add(v == T if v in (T, F_) else None)
                return 'ok'
        m = M(); X = TX(F, m, cap=300, max_states=4000)
        X.run({(2 if fn.kind == 'closure' else 1, ()): ('c', str(ch))})
        out[ch] = m.r
    return out

def steps(prog, fn, ups):
    """What a predicate with a counter of its own says of each character of a date and a time: [(position asked, answers of ' ' there)]"""
    F = Flat(prog, fn, lambda g, fr, c: g.crate.name == 'tombi_lexer')
    class M(Text):
        init = 0
        def __init__(self): self.r = set()
        def call_alts(self, X, bi, c, env, argv, a):
            l = self.lib(X, bi, c, env, argv)
            return [(l, a)] if l not in (None, False) else None
        def on_ret(self, X, bi, env, a):
            v = [env.get((l, ())) for l in X.F.ret_locals]
            self.r.add((v[0] == T if v and v[0] in (T, F_) else None, tuple((k, (env.get(('UP:' + k, ())) or (None, None))[1]) for k, _ in ups)))
            return 'ok'
    class UX(LX):
        def prune(self, env, bi):
            out = TX.prune(self, env, bi)
            for k, v in env.items():
                if isinstance(k[0], str) and (k[0] == 'CLOSURE' or k[0].startswith('UP:')): out[k] = v
            return out
    def ask(state, ch):
        m = M(); X = UX(F, m, cap=300, max_states=4000)
        env = {(1, ()): ('r', ('CLOSURE', ())), (2, ()): ('c', str(ord(ch)))}
        for k, v in state: env[('CLOSURE', (('f', k),))] = ('r', ('UP:' + k, ())); env[('UP:' + k, ())] = ('c', v)
        X.run(env)
        return m.r
    out = []; st = ups
    for i in range(24):
        sp = {b for b, _ in ask(st, ' ')}
        r = ask(st, '1')
        out.append((sp, {b for b, _ in r}))
        if len(r) != 1 or any(v is None for _, v in list(r)[0][1]): return out, False
        st = list(r)[0][1]
    return out, True

def before_asking(prog, f):
    """How many characters a peeking function has put into its text when it first asks its predicate"""
    F = Flat(prog, f, lambda g, fr, c: False); seen = set()
    class M(Model):
        init = 0
        def call_alts(self, X, bi, c, env, argv, a):
            dd = c.decl
            if dd is None: return None
            if dd.path.startswith('alloc::string::String::push'): return [([], min(a + 1, 3))]
            if dd.path.startswith('core::ops::function::Fn'): seen.add(a); return []
            if dd.path.rsplit('::', 1)[-1] in ('extend', 'collect', 'insert', 'push_str'): seen.add(None)
            return None
    X = Explorer(F, M(), cap=500, max_states=4000); X.run({})
    return seen

def numbers(ck, prog):
    root = next((f for f in prog.fns if f.crate.name == 'tombi_lexer' and f.path.endswith('::advance_token')), None)
    root = ck.need(root, 'advance_token', 'the function that reads one token')
    if not root: return
    exprs = expressions(prog)
    def pol(g, fr, c):
        if g.crate.name != 'tombi_lexer' or derived(g) or g.kind == 'closure': return False
        rt = g.ltys[0].s
        if rt == 'char': return g.ac == 1
        if rt == 'bool': return not any(t.peel().s == 'str' for t in g.ltys[1:g.ac + 1])
        return rt.startswith('core::result::Result<') or rt == 'tombi_lexer::token::Token'
    F = Flat(prog, root, pol)
    langs = {}
    def lang(k):
        if k not in langs:
            try: langs[k] = Lang(exprs[k[0]], k[1])
            except (ValueError, KeyError, sre.error if hasattr(sre, 'error') else re.error) as e: langs[k] = None; ck.notes.append('expression %s not understood: %s' % (k[0], e))
        return langs[k]
    def whole(name, exact):
        k = (name, 'end', exact)
        if k not in langs:
            t = exprs[name]; t = t[:-1] if t.endswith('$') else t
            langs[k] = Lang('^(?:%s)%s$' % (t.lstrip('^'), '' if exact else '.+'))
        return langs[k]
    refs = {k: Lang(v) for k, v in REF.items()}
    keyl, datekey, dotted = Lang(KEYLANG), Lang(DATEKEY), Lang(DOTTED)
    preds = set(); n = 0
    for sign in ('', '-', '+'):
        m = Num(prog, sign); X = NX(F, m, cap=4000, max_states=300000); X.preds = preds; X.defs = F._defs()
        X.run({(1, ()): ('r', ('CURSOR', ()))})
        ck.count('states', X.states)
        for st, msg, bi, line in X.bad: ck.ob(False, 'numbers:' + msg, msg)
        ck.ob(not X.overflow, 'overflow:numbers', 'numbers: exploration did not finish')
        if m.unknown: ck.notes.append('numbers: not understood: %s' % m.unknown); continue
        name = {'': 'a text starting with a digit', '-': "'-' and a digit", '+': "'+' and a digit"}[sign]
        wants = []
        for k, l in refs.items():
            if sign and k not in ('INTEGER_DEC', 'FLOAT'): continue
            wants.append((k, [l], [], {k}, 'numbers:%s' % k))
        rest = list(refs.values())
        if sign != '+':
            wants.append(('bare key', [keyl], ([datekey] if not sign else []) + rest, AS_KEY, 'numbers:key'))
            if not sign: wants.append(('bare key', [datekey], rest, AS_KEY, 'numbers:date-key'))
            if not sign: wants.append(('dotted key', [dotted], rest + [Lang('^%s[.].*$' % DATE), Lang(DATEKEY[:-1] + '[.].*$')], AS_KEY, 'numbers:dotted-key'))
        for k, pos, neg, ok, key in wants:
            hit = 0
            for (kind, facts), bi in m.rets.items():
                tests = [x for x in facts if x[0] not in ('LAST', 'END')]
                if any(lang(f) is None for f, b in tests): continue
                P = [lang(f) for f, b in tests if b]; N = [lang(f) for f, b in tests if not b]
                for x in facts:     # the token ends, or does not end, where the expression's match ended
                    if x[0] != 'END' or x[1] is None: continue
                    P.append(whole(x[1][0], x[2]))
                    if not x[2]:
                        N.append(whole(x[1][0], True))
                        if lang(x[1]).nfa.end and x[1][1] is None: P = None; break
                if P is None: continue
                ck.count('language_questions')
                w = word(pos + P, neg + N)
                if w is None: continue
                hit += 1; n += 1
                ck.ob(kind in ok, key, '%s: %r is a %s but is read as %s (%s)' % (name, sign + w, k, kind if kind != 'Err' else 'an error', F.loc(bi, F.blocks[bi].stmts[-1][3] if F.blocks[bi].stmts and F.blocks[bi].stmts[-1][0] == '=' else 0)),
                      sample='%s: %s read as %s, e.g. %r' % (name, k, kind, sign + w))
            ck.ob(hit > 0, 'vacuous:%s%s' % (sign, k), '%s: no return of the lexer is consistent with a %s' % (name, k))
    for f, pn, by, ups in preds:
        if pn is not None: continue
        if ups:
            seq, known = steps(prog, f, ups); pre = before_asking(prog, by)
            if not known or len(pre) != 1 or None in pre: ck.notes.append('text of a date and time: not understood: %s' % f.path)
            else:
                pre = list(pre)[0]
                for i, (sp, dg) in enumerate(seq):
                    ck.count('predicates')
                    ck.ob(sp == {pre + i == 10} and dg == {True}, 'numbers:space', 'after %d characters of a date and time the text tested by the expressions %s (%s:%s)' % (
                        pre + i, 'ends at a digit' if dg != {True} else 'ends at a space' if pre + i == 10 else 'goes on at a space', f.file, f.lo))
        ans = predicate(prog, f)
        for ch, r in ans.items():
            if None in r or not r: continue
            inner = ch not in DELIM or ch == ord('.')
            ck.count('predicates')
            ck.ob(inner in r if ch == 32 else r == {inner}, 'numbers:text', 'the text tested by the expressions %s at %s (%s:%s)' % ('goes on' if not inner else 'ends', show(ch), f.file, f.lo))
    ck.floor('number_outcomes', n, 12)

# ---------------------------------------------------------------- the parser's cursor and the tree builder
def at_field(p, name): return bool(p[1]) and p[1][-1][:2] == ('f', name)

class Hand(Model):
    """astate: (position up to which tokens were handed on, tokens pushed one by one since)"""
    init = (('str', 'POS'), 0)
    wants_stmts = True
    def __init__(self): self.moves = 0; self.unknown = 0
    def read(self, X, bi, p, owner):
        if at_field(p, 'pos') and p[0] == 'PARSER': return ('str', 'POS')
    def call_alts(self, X, bi, c, env, argv, a):
        dd = c.decl
        if dd is None: return None
        last = dd.path.rsplit('::', 1)[-1]
        if last == 'nth_index': return [([((), ('str', ('AT', c.line)))], a)]
        if last == 'len' and argv and self.whose(env, argv[0]) == 'input_tokens': return [([((), ('str', 'LEN'))], a)]
        if last == 'index' and argv and self.whose(env, argv[0]) == 'input_tokens' and len(c.argtys) > 1 and 'Range' in c.argtys[1].s and c.args[1][0] != 'const':
            p = X.resolve(env, c.args[1][1])
            lo = env.get((p[0], p[1] + (('f', 'start'),))); hi = env.get((p[0], p[1] + (('f', 'end'),)))
            if 'RangeFrom' in c.argtys[1].s: hi = ('str', 'LEN')
            if lo is not None and hi is not None and lo[0] == 'str' and hi[0] == 'str': return [([((), ('str', ('SLICE', lo[1], hi[1])))], a)]
        if last in ('extend', 'extend_from_slice') and argv and self.whose(env, argv[0]) == 'tokens':
            v = argv[1]; n = 0
            while v is not None and v[0] == 'r' and n < 5:
                p = v[1]
                while isinstance(p[0], tuple) and p[0][0] == 'S': p = p[0][1]
                v = env.get(p); n += 1
            if v is not None and v[0] == 'str' and v[1][0] == 'SLICE':
                if v[1][1] != a[0][1] and not (v[1][1] == 'POS' and a[0] == ('str', 'POS')): return [([], '!hands on tokens from %s on where the ones up to %s were handed on' % (v[1][1], a[0][1]))]
                return [([], (('str', v[1][2]), 0))]
            self.unknown += 1; return [([], (None, 0))]
        if last == 'push' and argv and self.whose(env, argv[0]) == 'tokens': return [([], (a[0], min(a[1] + 1, 3)))]
        f = (c.callee or dd).fn
        if f is not None and f.crate.name == 'tombi_parser' and c.argtys and c.argtys[0].peel().s.startswith('tombi_parser::parser::Parser') and c.argtys[0].s.startswith('&mut') and last not in ('start', 'push_event', 'error', 'complete'):
            return [([], (('str', 'POS'), 0), {('PARSER', (('f', 'pos'),)): ('str', 'POS')})]
        return None
    def whose(self, env, v):
        n = 0
        while v is not None and v[0] in ('r', 's') and n < 6:
            p = v[1]
            while isinstance(p[0], tuple) and p[0][0] == 'S': p = p[0][1]
            pr = [e for e in p[1] if e != '*'] if p[0] == 'PARSER' else ()
            if pr and pr[-1][0] == 'f': return pr[-1][1]
            v = env.get(v[1]); n += 1
    def on_stmt(self, X, bi, s, env, a):
        if s[0] != '=' or not s[1][1] or s[1][1][-1][0] != 'f' or s[1][1][-1][1] != 'pos': return a
        p = X.resolve(env, s[1])
        if p[0] != 'PARSER': return a
        self.moves += 1
        v = X.eval(bi, env, s[2][1]) if s[2][0] == 'use' else X.bin(bi, env, s[2]) if s[2][0] == 'bin' else None
        if a[0] is None or v is None or v[0] != 'str': self.unknown += 1; return a
        if v == a[0] and not a[1]: return (('str', 'POS'), 0)
        if isinstance(v[1], tuple) and v[1][0] == 'PLUS1' and v[1][1] == a[0][1]: return (('str', 'POS'), 0) if a[1] else '!steps over a token that was not handed on'
        return '!moves on to %s, but only the tokens up to %s%s were handed on' % (v[1], a[0][1], ' and %d of its own' % a[1] if a[1] else '')

class HX(Explorer):
    def bin(self, bi, env, r):
        x = self.eval(bi, env, r[2]); y = self.eval(bi, env, r[3])
        if r[1].startswith('Add') and x is not None and x[0] == 'str' and y == ('c', '1'): return ('str', ('PLUS1', x[1]))
    def do_stmt(self, bi, env, s):
        if s[0] == '=' and s[2][0] == 'bin':
            v = self.bin(bi, env, s[2])
            if v is not None:
                dest = self.resolve(env, s[1]); self.kill(env, dest)
                env[(dest[0], dest[1] + (('f', '0'),)) if 'Overflow' in s[2][1] else dest] = v
                return
        return Explorer.do_stmt(self, bi, env, s)

def writes_field(f, adt, name):
    for b in f.blocks:
        for s in b.stmts:
            if s[0] == '=' and s[1][1] and s[1][1][-1] != '*' and s[1][1][-1][:2] == ('f', name):
                t = f.ltys[s[1][0]].peel()
                if t.s.startswith(adt): return True
    return False

def handed(ck, prog):
    fs = [f for f in prog.fns if f.crate.name == 'tombi_parser' and writes_field(f, 'tombi_parser::parser::Parser', 'pos') and f.kind != 'closure']
    ck.need(fs or None, 'Parser.pos', 'the functions that move the parser on')
    for f in fs:
        F = Flat(prog, f, lambda g, fr, c: False)
        m = Hand(); X = HX(F, m, cap=2000, max_states=20000)
        X.run({(1, ()): ('r', ('PARSER', ()))})
        ck.count('states', X.states)
        for st, msg, bi, line in X.bad: ck.ob(False, 'handed:%s' % f.path.rsplit('::', 1)[-1], '%s (%s): %s' % (f.path.rsplit('::', 1)[-1], F.loc(bi, line), msg))
        if m.unknown: ck.notes.append('handed %s: not understood' % f.path)
        else: ck.ob(m.moves > 0, 'vacuous:handed:' + f.path, '%s: no move of the position seen' % f.path, sample='%s: every token stepped over was handed on (%d moves)' % (f.path.rsplit('::', 1)[-1], m.moves))

def check(ck):
    prog = ck.prog
    scan(ck, prog)
    numbers(ck, prog)
    handed(ck, prog)
