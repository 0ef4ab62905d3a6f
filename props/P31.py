"""Decoding of TOML text, decided by abstract interpretation over character classes: the decoders' MIR is explored
with every class of character (one representative for every set of characters the code or the TOML grammar tells
apart) at every position, next to a reference decoder that follows what was consumed; what is written and whether
an error is returned must agree with it.  The delimiters and the trimmed newline, the escapes written, the syntax
that only TOML 1.1 has and the reporting of decoding errors are decided the same way."""
import re
from props.common import *

TV = 'tombi_toml_version::TomlVersion'
SOME0 = (('d', 'Some'), ('f', '0'))
KEEP = ('str', 'ITER')

# ---------------------------------------------------------------- the reference decoder
SIMPLE = {'b': 8, 't': 9, 'n': 10, 'f': 12, 'r': 13, '"': 34, '\\': 92}
HEX = set(map(ord, '0123456789abcdefABCDEF'))
def control(c): return c < 32 and c != 9 or c == 127

def step(m, c, v10, ml, basic):
    """(mode, character or 'EOF') -> (mode, outputs)"""
    k = m[0]
    if k in ('ERR', 'UNK'): return m, ()
    if c == 'EOF':
        if k == 'UNK': return m, ()
        if k == 'T' or k == 'W' and m[1]: return ('END',), ()
        if k == 'WCR': return ('UNK',), ()
        return ('ERR',), ()
    if k == 'END': return ('ERR',), ()
    if k == 'CR': return (('T',), (10,)) if c == 10 else (('ERR',), ())
    if k == 'W':
        if c in (32, 9): return m, ()
        if c in (10, 13) and not ml: return ('UNK',), ()
        if c == 10: return ('W', True), ()
        if c == 13: return ('WCR', m[1]), ()
        if not m[1]: return ('ERR',), ()
        return step(('T',), c, v10, ml, basic)
    if k == 'WCR': return (('W', True), ()) if c == 10 else (('UNK',), ())
    if k == 'X':
        if c not in HEX: return ('ERR',), ()
        if m[2] > 1: return ('X', m[1], m[2] - 1), ()
        return ('T',), (('CH', m[1]),)
    if k == 'E':
        ch = chr(c)
        if ch in SIMPLE: return ('T',), (SIMPLE[ch],)
        if ch in 'ex' and v10: return ('ERR',), ()
        if ch == 'e': return ('T',), (27,)
        if ch in 'xuU': n = {'x': 2, 'u': 4, 'U': 8}[ch]; return ('X', n, n), ()
        if ch in ' \t': return ('W', False), ()
        if ch in '\r\n' and not ml: return ('UNK',), ()
        if ch == '\n': return ('W', True), ()
        if ch == '\r': return ('WCR', False), ()
        return ('ERR',), ()
    if c == 92 and basic: return ('E',), ()
    if c == 13 and ml: return ('CR',), (13,)
    if c == 10 and ml: return ('T',), (10,)
    if control(c): return ('ERR',), ()
    return ('T',), (c,)

def show(c): return 'end of text' if c == 'EOF' else 'U+%04X' % c if isinstance(c, int) and (c < 33 or c > 126) else repr(chr(c)) if isinstance(c, int) else '%d-digit code point' % c[1]

# ---------------------------------------------------------------- values of library predicates on characters
def py(c): return chr(c)
PRED = {
 'is_whitespace': lambda c: c in (9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000) or 0x2000 <= c <= 0x200a,
 'is_control': lambda c: c < 32 or 127 <= c < 160, 'is_ascii_control': lambda c: c < 32 or c == 127,
 'is_ascii_hexdigit': lambda c: c in HEX, 'is_ascii_digit': lambda c: 48 <= c < 58, 'is_ascii': lambda c: c < 128,
 'is_ascii_whitespace': lambda c: c in (9, 10, 12, 13, 32), 'is_ascii_alphanumeric': lambda c: c < 128 and py(c).isalnum(),
 'is_ascii_alphabetic': lambda c: c < 128 and py(c).isalpha(), 'is_ascii_punctuation': lambda c: 32 < c < 127 and not py(c).isalnum(),
 'is_alphanumeric': lambda c: py(c).isalnum(), 'is_alphabetic': lambda c: py(c).isalpha(), 'is_numeric': lambda c: py(c).isnumeric(),
 'is_ascii_lowercase': lambda c: 97 <= c < 123, 'is_ascii_uppercase': lambda c: 65 <= c < 91, 'is_ascii_graphic': lambda c: 32 < c < 127,
}
BASE_ALPHABET = set(range(0, 33)) | set(map(ord, '"\\\'btnfrexuU09aAfFgGz/:@`.+-_{}$~#')) | {0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xe9, 0x2028, 0x3000, 0xfeff, 0x4e00, 0x1f600}

def alphabet(F):
    """The characters the code tells apart, and their neighbours."""
    out = set(BASE_ALPHABET)
    def add(v):
        for x in (v - 1, v, v + 1):
            if 0 <= x < 0x110000 and not 0xd800 <= x < 0xe000: out.add(x)
    def op(o):
        if o[0] == 'const' and o[1].v is not None and o[1].ty is not None and o[1].ty.s == 'char' and len(o[1].v) == 1: add(ord(o[1].v))
    for b in F.blocks:
        for s in b.stmts:
            if s[0] == '=':
                for x in s[2][1:]:
                    if isinstance(x, tuple) and x and x[0] == 'const': op(x)
                    elif isinstance(x, tuple):
                        for y in x:
                            if isinstance(y, tuple) and y and y[0] == 'const': op(y)
        if b.term[0] == 'switch' and b.term[4] is not None and b.term[4].s == 'char':
            for v, x in b.term[2]: add(int(v))
        elif b.term[0] == 'call':
            for a in b.term[1].args: op(a)
    return sorted(out)

def derived(g): return g.trait is not None and g.trait.path.startswith("core::cmp::")

def utf8(c): return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4

class TX(Explorer):
    """Explorer with constant ranges, text iterators that survive &mut, and lengths of constant texts."""
    def kill_below(self, env, p):
        keep = [(k, v) for k, v in env.items() if k[0] == p[0] and k[1][:len(p[1])] == p[1] and v == KEEP]
        rng = [(k, env[k]) for k in ((p[0], p[1] + (('f', 'start'),)), (p[0], p[1] + (('f', 'end'),))) if k in env] if p in getattr(self, 'ranges', ()) else []
        self.kill(env, p); env.update(keep); env.update(rng)
    def apply_call(self, bi, env, c, argv):
        dd = c.decl
        if dd is not None and dd.path == 'core::iter::traits::iterator::Iterator::next' and c.argtys and 'core::ops::range::Range<' in c.argtys[0].s and argv[0] is not None and argv[0][0] == 'r':
            p = argv[0][1]; lo = env.get((p[0], p[1] + (('f', 'start'),))); hi = env.get((p[0], p[1] + (('f', 'end'),)))
            if lo is not None and hi is not None and lo[0] == 'c' and hi[0] == 'c' and int(hi[1]) - int(lo[1]) <= 16:
                dest = self.resolve(env, c.dest); a, b = int(lo[1]), int(hi[1])
                if a < b:
                    self.assign(env, dest, [((), ('v', OPT, 'Some')), (SOME0, ('c', str(a)))]); env[(p[0], p[1] + (('f', 'start'),))] = ('c', str(a + 1))
                else: self.assign(env, dest, [((), ('v', OPT, 'None'))])
                return [env]
        return Explorer.apply_call(self, bi, env, c, argv)

CHARBASE = -1000
class Text(Model):
    """Shared: characters, the iterator over the input, library predicates."""
    wants_stmts = False
    def read(self, X, bi, p, owner):
        if isinstance(p[0], int) and p[0] <= CHARBASE: return ('c', str(CHARBASE - p[0]))
    def deref(self, X, env, v):
        n = 0
        while v is not None and n < 8:
            n += 1
            if v[0] == 'r':
                if isinstance(v[1][0], int) and v[1][0] <= CHARBASE: return ('c', str(CHARBASE - v[1][0]))
                v = env.get(v[1]) or None
            elif v[0] == 's': v = env.get(v[1]) or None
            else: return v
        return None
    def char(self, X, env, v):
        v = self.deref(X, env, v)
        return int(v[1]) if v is not None and v[0] == 'c' and v[1].isdigit() else None
    def optchar(self, X, env, v):
        """Option<char> / Option<&char> held at a place: code, None, or '?'"""
        if v is not None and v[0] in ('r', 's'):
            p = v[1]; w = X.variant_at(env, p)
            n = 0
            while w is None and n < 4:
                x = env.get(p)
                if x is None or x[0] not in ('r', 's'): break
                p = x[1]; w = X.variant_at(env, p); n += 1
            if w is not None and w[0] == 'v':
                if w[2] == 'None': return None
                c = self.char(X, env, env.get((p[0], p[1] + SOME0)))
                return '?' if c is None else c
        return '?'
    def iter_place(self, X, env, v):
        n = 0
        while v is not None and v[0] == 'r' and n < 6:
            w = env.get(v[1])
            if w == KEEP: return v[1]
            v = w; n += 1
        return None
    def tree_some(self, c, idx=None, ref=False):
        v = ('r', (CHARBASE - c, ())) if ref else ('c', str(c))
        if idx is None: return [((), ('v', OPT, 'Some')), (SOME0, v)]
        return [((), ('v', OPT, 'Some')), (SOME0 + (('f', '0'),), ('c', str(idx))), (SOME0 + (('f', '1'),), v)]
    def is_text(self, X, env, v): return v is not None and (v == ('str', 'INPUT') or v[0] in ('s', 'r') and env.get(v[1]) == ('str', 'INPUT'))
    def lib(self, X, bi, c, env, argv):
        """Value of a library call on characters: tree, or None (not about characters), or False (unknown)."""
        dd = c.decl
        if dd is None: return None
        last = dd.path.rsplit('::', 1)[-1]; path = dd.path
        if 'char' in path and last in PRED:
            ch = self.char(X, env, argv[0])
            return [((), cbool(PRED[last](ch)))] if ch is not None else False
        if 'char' in path and last == 'eq_ignore_ascii_case' : return False
        if 'char' in path and last in ('to_ascii_lowercase', 'to_ascii_uppercase'):
            ch = self.char(X, env, argv[0])
            if ch is None: return False
            return [((), ('c', str(ord(chr(ch).lower() if last.endswith('lowercase') else chr(ch).upper()) if ch < 128 else ch)))]
        if 'char' in path and last == 'len_utf8':
            ch = self.char(X, env, argv[0])
            return [((), ('c', str(utf8(ch))))] if ch is not None else False
        if 'char' in path and last in ('is_digit', 'to_digit'):
            ch = self.char(X, env, argv[0]); r = argv[1]
            if ch is None or r is None or r[0] != 'c': return False
            try: d = int(chr(ch), 36) if ch < 128 and chr(ch).isalnum() else 99
            except ValueError: d = 99
            ok = d < int(r[1])
            if last == 'is_digit': return [((), cbool(ok))]
            return [((), ('v', OPT, 'Some')), (SOME0, ('c', str(d)))] if ok else [((), ('v', OPT, 'None'))]
        if last in ('eq', 'ne') and c.argtys and 'Option<' in c.argtys[0].s and 'char' in c.argtys[0].s:
            x, y = self.optchar(X, env, argv[0]), self.optchar(X, env, argv[1])
            return False if '?' in (x, y) else [((), cbool((x == y) == (last == 'eq')))]
        if last in ('eq', 'ne') and c.argtys and c.argtys[0].peel().s == 'char':
            x, y = self.char(X, env, argv[0]), self.char(X, env, argv[1])
            return False if x is None or y is None else [((), cbool((x == y) == (last == 'eq')))]
        if last == 'contains' and path.startswith('core::str') and argv[0] is not None and argv[0][0] == 'str' and argv[0] != ('str', 'INPUT') and isinstance(argv[0][1], str):
            ch = self.char(X, env, argv[1])
            return [((), cbool(chr(ch) in argv[0][1]))] if ch is not None else False
        if path == 'core::option::Option::<T>::filter' and argv[1] is not None and argv[1][0] == 'fn':
            n = argv[1][1].rsplit('::', 1)[-1]
            t = dict(X.optree(bi, env, c.args[0])); v = t.get(())
            if v is not None and v[0] == 's': v = X.variant_at(env, v[1]) or v
            if v is None or v[0] != 'v' or n not in PRED: return False
            if v[2] == 'None': return [((), v)]
            ch = self.char(X, env, t.get(SOME0))
            if ch is None: return False
            return [((), ('v', OPT, 'Some')), (SOME0, t[SOME0])] if PRED[n](ch) else [((), ('v', OPT, 'None'))]
        if last in ('lt', 'le', 'gt', 'ge') and c.argtys and c.argtys[0].peel().s.endswith('TomlVersion'):
            ad = X.prog.adts.get(TV); names = [v[0] for v in ad.variants]
            vs = []
            for v in argv:
                p = X.tree_of_ref(env, v); w = X.variant_at(env, p) if p is not None else None
                if w is None or w[0] != 'v': return False
                vs.append(names.index(w[2]))
            x, y = vs
            return [((), cbool({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[last]))]
        return None

class Dec(Text):
    """astate: (look-ahead, mode, pending outputs, look-ahead already counted, hex digits in the buffer, started)"""
    init = (None, ('T',), (), False, None, False)
    def __init__(self, outs, chars, v10, ml, basic): self.outs = outs; self.chars = chars; self.v10 = v10; self.ml = ml; self.basic = basic; self.consumed = set(); self.unknown = {}; self.oks = 0; self.errs = 0; self.pushes = set()
    def unk(self, a, why): self.unknown[why] = self.unknown.get(why, 0) + 1; return (None, ('UNK',), (), False, None, True)
    def is_out(self, X, env, v):
        n = 0
        while v is not None and v[0] in ('r', 's') and n < 6:
            if isinstance(v[1][0], int) and v[1][0] in self.outs and v[1][1] == (): return True
            v = env.get(v[1]); n += 1
        return False
    def next(self, X, a):
        look, mode, pend, ahead, buf, st = a
        for c in ([look] if look is not None else self.chars + ['EOF']):
            if mode[0] == 'UNK':
                yield c, a; continue
            if ahead: m2, out = mode, ()
            else: m2, out = step(mode, c, self.v10, self.ml, self.basic)
            if m2[0] in ('UNK',): yield c, self.unk(a, 'unspecified text'); continue
            if m2[0] == 'ERR': pend2 = ()
            else: pend2 = pend + out
            self.consumed.add(c)
            if len(pend2) > 6: yield c, '!loses %s' % show(pend2[0]); continue
            yield c, (None, m2, pend2, False, buf, True)
    def push(self, X, a, v, ch):
        """v: pushed value; ch: its character if known"""
        look, mode, pend, ahead, buf, st = a
        if mode[0] in ('UNK', 'ERR'): return a
        if not pend and look is not None and not ahead:
            m2, out = step(mode, look, self.v10, self.ml, self.basic)
            if m2[0] == 'ERR': return (look, mode, pend, ahead, buf, st) if False else (look, m2, (), True, buf, st)
            if m2[0] == 'UNK': return self.unk(a, 'unspecified text')
            mode, pend, ahead = m2, out, True
        if not pend: return '!writes %s where nothing is due' % (show(ch) if ch is not None else 'a character')
        want = pend[0]
        if ch is not None:
            if isinstance(want, tuple) or want != ch: return '!decodes to %s where %s is meant' % (show(ch), show(want))
        elif v is not None and v[0] == 'str' and str(v[1]).startswith('CH:'):
            if not isinstance(want, tuple) or v[1] != 'CH:%d' % want[1]: return '!decodes to a code point of %s digits where %s is meant' % (v[1][3:], show(want))
        else: self.unknown['value written'] = self.unknown.get('value written', 0) + 1
        return (look, mode, pend[1:], ahead, buf, st)
    def call_alts(self, X, bi, c, env, argv, a):
        d = c.callee; dd = c.decl
        if d is None: return None
        path = dd.path; last = path.rsplit('::', 1)[-1]; rt = X.F.ltys[c.dest[0]] if not c.dest[1] else None
        if last in ('chars', 'char_indices') and path.startswith('core::str') and self.is_text(X, env, argv[0]):
            if a[5]: return [([], self.unk(a, 'text read more than once'))]
            return [([((), KEEP)], a)]
        if c.args and argv[0] == KEEP or c.args and c.args[0][0] != 'const' and env.get(X.resolve(env, c.args[0][1])) == KEEP:
            if last in ('peekable', 'into_iter', 'by_ref', 'fuse'): return [([((), KEEP)], a)]
            return [([], self.unk(a, path))]
        ip = self.iter_place(X, env, argv[0]) if argv and argv[0] is not None and argv[0][0] == 'r' else None
        if ip is not None:
            idx = rt is not None and '(usize, char)' in rt.s
            if last == 'next':
                out = []
                for ch, a2 in self.next(X, a):
                    if isinstance(a2, str): out.append(([], a2)); continue
                    if ch == 'EOF': out.append(([((), ('v', OPT, 'None'))], a2))
                    elif idx: out.append(([((), ('v', OPT, 'Some')), (SOME0 + (('f', '1'),), ('c', str(ch)))], a2))
                    else: out.append((self.tree_some(ch), a2))
                return out
            if last in ('peek', 'next_if_eq'):
                out = []
                for ch in ([a[0]] if a[0] is not None else self.chars + ['EOF']):
                    b = (ch,) + a[1:]
                    if last == 'peek':
                        if ch == 'EOF': out.append(([((), ('v', OPT, 'None'))], b))
                        elif idx: return [([], self.unk(a, path))]
                        else: out.append((self.tree_some(ch, ref=True), b))
                    else:
                        w = self.char(X, env, argv[1])
                        if w is None: return [([], self.unk(a, path))]
                        if ch == w: out += [(self.tree_some(ch), a2) for _, a2 in self.next(X, b)]
                        else: out.append(([((), ('v', OPT, 'None'))], b))
                return out
            if last in ('by_ref', 'into_iter'): return None
            if d.fn is None: return [([], self.unk(a, path))]
        if any(v is not None and v[0] == 'r' and self.iter_place(X, env, v) is not None for v in argv[1:]) and d.fn is None: return [([], self.unk(a, path))]
        # strings
        isstr = c.argtys and c.argtys[0].k == 'refmut' and c.argtys[0].peel().s.endswith('string::String')
        if isstr and self.is_out(X, env, argv[0]):
            if last in ('push', 'write_char'):
                self.pushes.add(bi)
                v = argv[1]; ch = self.char(X, env, v)
                while v is not None and v[0] == 's': v = env.get(v[1])
                a2 = self.push(X, a, v, ch)
                if isinstance(a2, str): return [([], a2)]
                return [([], a2)]
            if last in ('push_str', 'write_str', 'add_assign') and argv[1] is not None and argv[1][0] == 'str' and isinstance(argv[1][1], str) and argv[1][1] != 'INPUT':
                a2 = a
                for x in argv[1][1]:
                    a2 = self.push(X, a2, None, ord(x))
                    if isinstance(a2, str): break
                return [([], a2)]
            if last in ('reserve', 'deref', 'deref_mut', 'shrink_to_fit'): return None
            return [([], self.unk(a, path))]
        if isstr and last in ('clear', 'push'):
            p = argv[0][1] if argv[0] is not None and argv[0][0] == 'r' else None
            n = 0
            while p is not None and env.get(p) is not None and env[p][0] == 'r' and n < 5: p = env[p][1]; n += 1
            if last == 'clear': return [([], a[:4] + ((p, 0),) + a[5:])]
            ch = self.char(X, env, argv[1]); b = a[4]
            k = b[1] if b is not None and b[0] == p else 0 if b is None or b[0] != p else 0
            if ch is None or ch not in HEX: return [([], a[:4] + ((p, -1),) + a[5:])]
            return [([], a[:4] + ((p, k + 1 if k >= 0 else -1),) + a[5:])]
        if last in ('new', 'with_capacity') and path.startswith('alloc::string::String') and not c.dest[1] and c.dest[0] not in self.outs:
            return [([], a[:4] + (((c.dest[0], ()), 0),) + a[5:])]
        if last == 'from_str_radix':
            v = argv[0]; b = a[4]; p = None
            n = 0
            r = argv[1]
            if r is None or r[0] != 'c' or r[1] != '16': return [([], '!reads the digits of an escape in base %s' % (r[1] if r is not None and r[0] == 'c' else '?'))] if a[1][0] not in ('ERR', 'UNK') else None
            if b is None: return [([], self.unk(a, path))]
            k = b[1]
            if k < 0: return [([((), ('v', RES, 'Err'))], (a[0], ('ERR',), (), a[3], a[4], a[5])), ([((), ('v', RES, 'Ok'))], a)]
            return [([((), ('v', RES, 'Ok')), ((('d', 'Ok'), ('f', '0')), ('str', 'U32:%d' % k))], a)] if k else [([((), ('v', RES, 'Err'))], a)]
        if last == 'from_u32' or (last == 'try_from' and rt is not None and 'char' in rt.s):
            v = argv[0]; n = 0
            while v is not None and v[0] == 's' and n < 5: v = env.get(v[1]); n += 1
            k = int(v[1][4:]) if v is not None and v[0] == 'str' and str(v[1]).startswith('U32:') else None
            adt, okv, bad = (OPT, 'Some', 'None') if last == 'from_u32' else (RES, 'Ok', 'Err')
            good = ([((), ('v', adt, okv))] + ([((('d', okv), ('f', '0')), ('str', 'CH:%d' % k))] if k is not None else []), a)
            if k == 2: return [good]
            return [good, ([((), ('v', adt, bad))], (a[0], ('ERR',), (), a[3], a[4], a[5]))]
        l = self.lib(X, bi, c, env, argv)
        if l is False: return [([], self.unk(a, path))]
        if l is not None: return [(l, a)]
        # a predicate on a character we do not know
        if d.fn is None and rt is not None and (rt.k == 'bool' or rt.s == 'char') and any(self.char(X, env, v) is not None and t.peel().s == 'char' for v, t in zip(argv, c.argtys)): return [([], self.unk(a, path))]
        return None
    def on_ret(self, X, bi, env, a):
        look, mode, pend, ahead, buf, st = a
        if mode[0] == 'UNK': return 'unknown'
        v = None
        for l in X.F.ret_locals:
            v = v or X.variant_at(env, (l, ()))
        if v is None or v[0] != 'v': return 'unknown'
        if v[2] == 'Ok':
            if not st: self.unknown['text returned unread'] = 1; return 'unknown'
            if mode[0] == 'ERR': return '!accepts an invalid text'
            if pend: return '!loses %s' % show(pend[0])
            if mode[0] != 'END': return '!stops before the end of the text'
            self.oks += 1
            return 'ok'
        self.errs += 1
        if mode[0] == 'ERR': return 'err'
        if look is not None and not ahead:
            m2, _ = step(mode, look, self.v10, self.ml, self.basic)
            if m2[0] == 'ERR': return 'err'
            if m2[0] == 'UNK': return 'unknown'
        return '!rejects a valid text'

def out_locals(F):
    """Locals moved into an Ok that is returned by the root."""
    out = set()
    for bi, b in enumerate(F.blocks):
        for s in b.stmts:
            if s[0] == '=' and s[2][0] == 'agg' and s[2][3] == 'Ok' and s[1][0] in F.ret_locals and s[2][5] and s[2][5][0][0] != 'const': out.add(s[2][5][0][1][0])
    return moved(F, out)

def moved(F, out):
    """With the locals they are moved from."""
    n = -1
    while n != len(out):
        n = len(out)
        for b in F.blocks:
            for s in b.stmts:
                if s[0] == '=' and s[1][0] in out and not s[1][1] and s[2][0] == 'use' and s[2][1][0] != 'const' and not s[2][1][1][1]: out.add(s[2][1][1][0])
    return out

def decoders(ck, prog):
    n = 0
    for name, basic in (('parse_basic_string', True), ('parse_literal_string', False)):
        fn = ck.need(prog.fn('tombi_toml_text::' + name), name, 'the decoder ' + name)
        if not fn: continue
        F = Flat(prog, fn, lambda g, fr, c: g.crate.name in ('tombi_toml_text', 'tombi_toml_version') and not derived(g))
        outs = out_locals(F)
        if not outs: ck.notes.append('%s: the returned string is not a local' % name); continue
        chars = alphabet(F); ck.counts['alphabet_' + name] = len(chars)
        iv = next((i for i in range(1, fn.ac + 1) if fn.ltys[i].s.endswith('TomlVersion')), None)
        im = next((i for i in range(1, fn.ac + 1) if fn.ltys[i].k == 'bool'), None)
        vs = [v[0] for v in prog.adts[TV].variants] if iv else [None]
        for v in vs:
            for ml in (False, True):
                m = Dec(outs, chars, v == 'V1_0_0', ml, basic); X = TX(F, m, cap=4000, max_states=3000000)
                env = {(1, ()): ('str', 'INPUT')}
                if iv: env[(iv, ())] = ('v', TV, v)
                if im: env[(im, ())] = cbool(ml)
                X.run(env); ck.count('states', X.states)
                lab = '%s%s, %s' % (name, ' under %s' % v if v else '', 'multi-line' if ml else 'single line')
                for st, msg, bi, line in X.bad:
                    ck.ob(False, 'decode:%s:%s' % (name, msg), '%s: %s (%s): consumed %s' % (lab, msg, F.loc(bi, line), ' ; '.join(X.witness(st, 5))))
                ck.ob(not X.overflow, 'overflow:' + name, 'exploration did not finish')
                u = sum(m.unknown.values()); n += m.oks
                if m.unknown: ck.notes.append('%s: not understood: %s' % (lab, m.unknown))
                if not [k for k in m.unknown if k != 'unspecified text']:
                    ck.ob(m.oks > 0 and m.errs > 0 and len(m.consumed) >= len(chars), 'vacuous:' + name, '%s: no text accepted or none rejected' % lab, sample='%s: %d classes of characters at every position agree with the TOML grammar' % (lab, len(chars)))
                ck.count('decoders')

# ---------------------------------------------------------------- delimiters and the first newline
API = {'try_from_basic_string': ('"', False, 'parse_basic_string'), 'try_from_literal_string': ("'", False, 'parse_literal_string'),
       'try_from_multi_line_basic_string': ('"""', True, 'parse_basic_string'), 'try_from_multi_line_literal_string': ("'''", True, 'parse_literal_string')}
PREFIX = ['', '\n', '\r\n', '\n\n', '\r\n\r\n', '\n\r\n', '\n\n\n', '\r\n\n', ' \n', ' ', '\t\n', '\n ']

class Del(Text):
    init = 0
    def __init__(self, delim, pre, version, final): self.delim = delim; self.pre = pre; self.v = version; self.final = final; self.calls = 0; self.unknown = set()
    def txt(self, X, env, v):
        n = 0
        while v is not None and v[0] in ('s', 'r') and n < 6: v = env.get(v[1]); n += 1
        return v[1] if v is not None and v[0] == 'str' and isinstance(v[1], tuple) and v[1][0] == 'TXT' else None
    def known(self, t): return (self.delim + self.pre + 'x')[t[1]:]
    def cst(self, X, env, v):
        n = 0
        while v is not None and v[0] in ('s', 'r') and n < 4:
            ch = self.char(X, env, v)
            if ch is not None: return chr(ch)
            v = env.get(v[1]); n += 1
        if v is not None and v[0] == 'str' and isinstance(v[1], str): return v[1]
        if v is not None and v[0] == 'c' and v[1].isdigit(): return chr(int(v[1]))
    def mk(self, lo, hi): return ('str', ('TXT', lo, hi))
    def charset(self, X, o):
        """Characters of an array literal `['\\r', '\\n']` used as a pattern, or None."""
        if o[0] == 'const' or o[1][1]: return None
        found = [s[2] for b in X.F.blocks for s in b.stmts if s[0] == '=' and s[1] == o[1]]
        if len(found) != 1 or found[0][0] != 'agg' or found[0][1] != 'array': return None
        out = []
        for e in found[0][5]:
            v = X.eval(0, {}, e)
            if v is None or v[0] != 'c' or not v[1].isdigit(): return None
            out.append(chr(int(v[1])))
        return out
    def call_alts(self, X, bi, c, env, argv, a):
        d = c.callee; dd = c.decl
        if d is None: return None
        last = dd.path.rsplit('::', 1)[-1]
        if d.path == 'tombi_toml_text::' + self.final[0] or d.path.startswith('tombi_toml_text::parse_'):
            self.calls += 1
            if d.path != 'tombi_toml_text::' + self.final[0]: return [([], '!decodes with %s' % d.path)]
            ib = next((i for i, t in enumerate(c.argtys) if t.k == 'bool'), None)
            if ib is not None and argv[ib] in (T, F_) and argv[ib] != cbool(self.final[1]): return [([], '!decodes as %s text' % ('multi-line' if argv[ib] == T else 'single-line'))]
            iv = next((i for i, t in enumerate(c.argtys) if t.s.endswith('TomlVersion')), None)
            if iv is not None and argv[iv] != ('str', 'VERSION'): return [([], '!decodes under another version than the one given')]
            t = self.txt(X, env, argv[0])
            if t is None: self.unknown.add(dd.path); return None
            nl = ('\r\n' if self.pre.startswith('\r\n') else '\n' if self.pre.startswith('\n') else '') if self.final[1] else ''
            w = len(self.delim)
            if t[1] != w + len(nl) or t[2] != w: return [([], '!takes the text from offset %d to %d before the end instead of %d and %d' % (t[1], t[2], w + len(nl), w))]
            return None
        t = self.txt(X, env, argv[0]) if argv else None
        if t is None: return None
        _, lo, hi = t
        if last == 'len': return [([((), ('str', ('LEN', lo + hi)))], a)]
        if last in ('strip_prefix', 'starts_with', 'trim_start_matches'):
            s = self.cst(X, env, argv[1])
            k = self.known(t)
            if s is None:
                cs = self.charset(X, c.args[1])
                if cs is None: self.unknown.add(dd.path); return None
                n = 0
                while n < len(k) and k[n] in cs and (n == 0 or last == 'trim_start_matches'): n += 1
                if last == 'starts_with': return [([((), cbool(n > 0))], a)]
                if last == 'strip_prefix' and n == 0: return [([((), ('v', OPT, 'None'))], a)]
                return [([((), self.mk(lo + n, hi))] if last != 'strip_prefix' else [((), ('v', OPT, 'Some')), (SOME0, self.mk(lo + n, hi))], a)]
            if last == 'strip_prefix': return [([((), ('v', OPT, 'Some')), (SOME0, self.mk(lo + len(s), hi))] if k.startswith(s) else [((), ('v', OPT, 'None'))], a)]
            if last == 'starts_with': return [([((), cbool(k.startswith(s)))], a)]
            while s and k.startswith(s): lo += len(s); k = k[len(s):]
            return [([((), self.mk(lo, hi))], a)]
        if last in ('strip_suffix', 'ends_with'):
            s = self.cst(X, env, argv[1])
            if s is None: self.unknown.add(dd.path); return None
            k = ('x' + self.delim); k = k[:len(k) - hi] if hi <= len(k) else ''
            if last == 'ends_with': return [([((), cbool(k.endswith(s)))], a)]
            return [([((), ('v', OPT, 'Some')), (SOME0, self.mk(lo, hi + len(s)))] if k.endswith(s) else [((), ('v', OPT, 'None'))], a)]
        if last in ('index', 'get') and c.args[1][0] != 'const':
            p = X.resolve(env, c.args[1][1]); st = env.get((p[0], p[1] + (('f', 'start'),))); en = env.get((p[0], p[1] + (('f', 'end'),)))
            ty = c.argtys[1].s
            l2, h2 = lo, hi
            if 'RangeFull' in ty: pass
            elif 'Inclusive' in ty: self.unknown.add(dd.path); return None
            else:
                if 'Range<' in ty or 'RangeFrom<' in ty:
                    if st is None or st[0] != 'c': self.unknown.add(dd.path); return None
                    l2 = lo + int(st[1])
                if 'Range<' in ty or 'RangeTo<' in ty:
                    if en is None or en[0] != 'str' or not isinstance(en[1], tuple) or en[1][0] != 'LEN': self.unknown.add(dd.path); return None
                    h2 = en[1][1] - lo
            return [([((), self.mk(l2, h2))] if last == 'index' else [((), ('v', OPT, 'Some')), (SOME0, self.mk(l2, h2))], a)]
        if last in ('as_ref', 'deref', 'as_str', 'borrow', 'into', 'clone'): return [([((), ('str', t))], a)]
        if last == 'trim_start' or last.startswith('trim') or last in ('split_once', 'splitn', 'lines'): self.unknown.add(dd.path)
        return None

class DX(TX):
    def do_stmt(self, bi, env, s):
        if s[0] == '=' and s[2][0] == 'bin' and s[2][1] in ('Sub', 'SubWithOverflow', 'SubUnchecked'):
            a = self.eval(bi, env, s[2][2]); b = self.eval(bi, env, s[2][3])
            if a is not None and a[0] == 's': a = env.get(a[1])
            if a is not None and a[0] == 'str' and isinstance(a[1], tuple) and a[1][0] == 'LEN' and b is not None and b[0] == 'c':
                dest = self.resolve(env, s[1]); self.kill(env, dest)
                v = ('str', ('LEN', a[1][1] + int(b[1])))
                env[(dest[0], dest[1] + (() if s[2][1] != 'SubWithOverflow' else (('f', '0'),)))] = v
                return
        return TX.do_stmt(self, bi, env, s)

def delimiters(ck, prog):
    for name, (delim, ml, target) in API.items():
        fn = ck.need(prog.fn('tombi_toml_text::' + name), name, 'the decoder ' + name)
        if not fn: continue
        F = Flat(prog, fn, lambda g, fr, c: g.crate.name == 'tombi_toml_text' and not g.path.startswith('tombi_toml_text::parse_'))
        for pre in (PREFIX if ml else ['']):
            m = Del(delim, pre, 'VERSION', (target, ml)); X = DX(F, m); env = {(1, ()): ('str', ('TXT', 0, 0))}
            for i in range(2, fn.ac + 1):
                if fn.ltys[i].s.endswith('TomlVersion'): env[(i, ())] = ('str', 'VERSION')
            X.run(env); ck.count('states', X.states)
            for st, msg, bi, line in X.bad: ck.ob(False, 'delimiter:%s:%r' % (name, pre), '%s: content beginning with %r: %s (%s)' % (name, pre, msg, F.loc(bi, line)))
            if m.unknown: ck.notes.append('%s: not understood: %s' % (name, sorted(m.unknown))); continue
            ck.ob(m.calls > 0, 'delimiter-call:' + name, '%s does not decode its content' % name, sample='%s: content beginning with %r: delimiters and exactly the first newline dropped' % (name, pre))

# ---------------------------------------------------------------- escapes that are written
def decode_all(s, v10):
    m = ('T',); out = []; i = 0
    for ch in s:
        m, o = step(m, ord(ch), v10, False, True); out += o
        if m[0] == 'ERR': return None
    return out if m[0] == 'T' else None

class Esc(Text):
    """astate: (character being written or None, what was written for it, or None when not known, formatted as hex)"""
    init = (None, '', False)
    def __init__(self, outs, chars): self.outs = outs; self.chars = chars; self.unknown = {}; self.done = 0
    is_out = Dec.is_out
    def finish(self, a):
        c, w, h = a
        if c is None: return None if w in ('"', None) else '!begins with %r' % w
        if w is None: self.unknown['text written'] = 1; return None
        if w == 'HEX': return None if c < 0x10000 else None
        self.done += 1
        for v10 in (True, False):
            if decode_all(w, v10) != [c] or c == 34 and w == '"': return '!writes %s as %r, which is not read back as the same character%s' % (show(c), w, ' under TOML 1.0' if v10 else '')
        return None
    def call_alts(self, X, bi, c, env, argv, a):
        d = c.callee; dd = c.decl
        if d is None: return None
        path = dd.path; last = path.rsplit('::', 1)[-1]
        if last in ('chars', 'char_indices') and self.is_text(X, env, argv[0]): return [([((), KEEP)], a)]
        if argv and argv[0] == KEEP or c.args and c.args[0][0] != 'const' and env.get(X.resolve(env, c.args[0][1])) == KEEP:
            if last in ('peekable', 'into_iter', 'by_ref', 'fuse'): return [([((), KEEP)], a)]
            self.unknown[path] = 1; return None
        ip = self.iter_place(X, env, argv[0]) if argv and argv[0] is not None and argv[0][0] == 'r' else None
        if ip is not None and last == 'next':
            e = self.finish(a)
            if e: return [([], e)]
            return [(self.tree_some(ch), (ch, '', False)) for ch in self.chars] + [([((), ('v', OPT, 'None'))], ('END', '', False))]
        if ip is not None and d.fn is None and last not in ('by_ref', 'into_iter'): self.unknown[path] = 1
        if c.argtys and c.argtys[0].k == 'refmut' and self.is_out(X, env, argv[0]):
            w = None
            if last in ('push', 'write_char'):
                ch = self.char(X, env, argv[1])
                if ch is not None: w = chr(ch)
            elif last in ('push_str', 'write_str', 'add_assign'):
                v = argv[1]; n = 0
                while v is not None and v[0] in ('s', 'r') and n < 5: v = env.get(v[1]); n += 1
                if v is not None and v[0] == 'str' and isinstance(v[1], str): w = v[1]
                elif a[2]: return [([], (a[0], 'HEX', False))]
            elif last == 'write_fmt' and a[2]: return [([], (a[0], 'HEX', False))]
            elif last in ('reserve', 'deref'): return None
            return [([], (a[0], a[1] + w if w is not None and a[1] is not None else None, a[2]))]
        if path.startswith('core::fmt::rt::Argument') and isinstance(a[0], int):
            x = self.char(X, env, argv[0])
            if x == a[0]:
                if last in ('new_lower_hex', 'new_upper_hex'): return [([], (a[0], a[1], True))]
                if last in ('new_octal', 'new_binary') or last == 'new_display' and c.argtys[0].peel().s in ('u32', 'u8', 'i32', 'usize'): return [([], '!writes the number of %s in another base than 16' % show(a[0]))]
        l = self.lib(X, bi, c, env, argv)
        if l is False: self.unknown[path] = 1; return None
        if l is not None: return [(l, a)]
        return None
    def on_ret(self, X, bi, env, a):
        if a[0] == 'END' and a[1] not in ('"', None): return '!ends with %r' % a[1]
        return 0

def escapes(ck, prog):
    fn = ck.need(prog.fn('tombi_toml_text::to_basic_string'), 'to_basic_string', 'the writer of basic strings')
    if not fn: return
    F = Flat(prog, fn, lambda g, fr, c: g.crate.name == 'tombi_toml_text')
    outs = set()
    for b in F.blocks:
        for s in b.stmts:
            if s[0] == '=' and s[1] == (0, ()) and s[2][0] == 'use' and s[2][1][0] != 'const': outs.add(s[2][1][1][0])
    outs = moved(F, outs)
    if not outs: ck.notes.append('to_basic_string: the returned string is not a local'); return
    chars = alphabet(F)
    m = Esc(outs, chars); X = TX(F, m, cap=4000); X.run({(1, ()): ('str', 'INPUT')}); ck.count('states', X.states)
    for st, msg, bi, line in X.bad:
        if m.unknown: ck.notes.append('to_basic_string: ' + msg); continue
        ck.ob(False, 'escape:' + msg, 'to_basic_string %s' % msg)
    if m.unknown: ck.notes.append('to_basic_string: not understood: %s' % m.unknown)
    else: ck.ob(m.done >= len(chars) // 2, 'escape-vacuous', 'to_basic_string: nothing written', sample='to_basic_string: %d classes of characters are read back as written' % len(chars))

# ---------------------------------------------------------------- bare keys
class Bare(Text):
    init = 0
    def __init__(self, ch): self.ch = ch; self.unknown = {}; self.got = set()
    def call_alts(self, X, bi, c, env, argv, a):
        d = c.callee; dd = c.decl
        if d is None: return None
        path = dd.path; last = path.rsplit('::', 1)[-1]
        if last == 'chars' and self.is_text(X, env, argv[0]): return [([((), KEEP)], 0)]
        if c.args and (argv[0] == KEEP or c.args[0][0] != 'const' and env.get(X.resolve(env, c.args[0][1])) == KEEP):
            if last in ('into_iter', 'by_ref'): return [([((), KEEP)], a)]
            self.unknown[path] = 1; return None
        if argv and argv[0] is not None and argv[0][0] == 'r' and self.iter_place(X, env, argv[0]) is not None:
            if last == 'next': return [(self.tree_some(self.ch), 1)] if a == 0 else [([((), ('v', OPT, 'None'))], 0)]
            self.unknown[path] = 1
        if last == 'is_empty' and self.is_text(X, env, argv[0]): return [([((), F_)], a)]
        if last == 'contains' and self.is_text(X, env, argv[0]):
            x = self.char(X, env, argv[1])
            if x is not None: return [([((), cbool(x == self.ch))], a)]
        if self.is_text(X, env, argv[0] if argv else None) and last not in ('to_string', 'to_owned', 'into', 'from', 'deref', 'as_ref', 'len'): self.unknown[path] = 1
        l = self.lib(X, bi, c, env, argv)
        if l is False: self.unknown[path] = 1; return None
        return [(l, a)] if l is not None else None
    def on_ret(self, X, bi, env, a):
        for l in X.F.ret_locals:
            v = X.variant_at(env, (l, ()))
            self.got.add(v[2] if v is not None and v[0] == 'v' else '?')
        return 0

def bare(ck, prog):
    fn = ck.need(prog.fn('tombi_toml_text::try_from_bare_key'), 'try_from_bare_key', 'the decoder of bare keys')
    if not fn: return
    F = Flat(prog, fn, lambda g, fr, c: g.crate.name == 'tombi_toml_text')
    for ch in alphabet(F):
        if ch == 46: continue     # a dot stands for a key that was read as a float
        m = Bare(ch); X = TX(F, m); X.run({(1, ()): ('str', 'INPUT')}); ck.count('states', X.states)
        if m.unknown or '?' in m.got: ck.notes.append('try_from_bare_key: not understood: %s' % sorted(m.unknown)); return
        ok = ch < 128 and (chr(ch).isalnum() or chr(ch) in '_-')
        ck.ob(m.got == {'Ok' if ok else 'Err'}, 'bare-key:%s' % show(ch), 'a bare key with %s is %s' % (show(ch), sorted(m.got)), sample='bare key %s: %s' % (show(ch), 'accepted' if ok else 'rejected'))

# ---------------------------------------------------------------- what only TOML 1.1 has
class Inl(Model):
    """astate: (newline seen or None, comma or None, reports)"""
    init = (None, None, frozenset())
    wants_stmts = True
    def __init__(self, v): self.v = v; self.rep = set()
    def read(self, X, bi, p, owner):
        if owner is not None and owner.endswith('Linter') and p[1] and p[1][-1] == ('f', 'toml_version'): return ('v', TV, self.v)
    def call_alts(self, X, bi, c, env, argv, a):
        d = c.callee; dd = c.decl
        if d is None: return None
        last = dd.path.rsplit('::', 1)[-1]
        if last == 'toml_version': return [([((), ('v', TV, self.v))], a)]
        if last == 'has_newlines_between_braces': return [([((), cbool(b))], (b, a[1], a[2])) for b in (True, False) if a[0] is None or a[0] == b]
        if last == 'has_last_key_value_trailing_comma': return [([((), cbool(b))], (a[0], b, a[2])) for b in (True, False) if a[1] is None or a[1] == b]
        if last in ('last', 'next_back', 'next'):
            rt = X.F.ltys[c.dest[0]] if not c.dest[1] else None
            if rt is not None and opt_comma(rt):
                return [([((), ('v', OPT, 'Some')), (SOME0 + (('f', '1'),), ('v', OPT, 'Some'))], a)] + ([([((), ('v', OPT, 'None'))], a)] if last == 'next' else [])
        m = Text.lib(Text(), X, bi, c, env, argv)
        if m not in (None, False): return [(m, a)]
    def on_stmt(self, X, bi, s, env, a):
        if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt' and s[2][2] is not None and s[2][2].path.endswith('::DiagnosticKind'):
            self.rep.add(s[2][3]); return (a[0], a[1], a[2] | {s[2][3]})
        return a
    def on_ret(self, X, bi, env, a):
        want = set()
        if self.v == 'V1_0_0':
            if a[0]: want.add('InlineTableMustSingleLine')
            if a[1]: want.add('ForbiddenInlineTableLastComma')
            if a[0] is None or a[1] is None: return '!does not look for newlines and a trailing comma'
        if set(a[2]) != want: return '!newline %s, trailing comma %s: reports %s' % (a[0], a[1], sorted(a[2]) or 'nothing')
        return 'ok'

def opt_comma(t): return t.d is not None and t.d.path == OPT and t.args and t.args[0].k == 'tuple' and 'Comma' in t.args[0].s

def inline(ck, prog):
    fs = set()
    for f in prog.fns:
        if f.crate.name != 'tombi_linter': continue
        for b in f.blocks:
            for s in b.stmts:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt' and s[2][3] in ('InlineTableMustSingleLine', 'ForbiddenInlineTableLastComma') and s[2][2].path.endswith('DiagnosticKind'): fs.add(prog.outer(f))
    rules = [f for f in prog.fns if f.crate.name == 'tombi_linter' and f.name == 'check' and f.kind not in ('closure', 'coroutine') and prog.reach([f], stop=lambda d: d.crate != 'tombi_linter').keys() & fs]
    ck.need(rules, 'inline-table-rule', 'the rule for inline tables of TOML 1.0')
    for fn in rules:
        F = Flat(prog, fn, lambda g, fr, c: not derived(g) and g.crate.name in ('tombi_linter', 'tombi_toml_version') and len(g.blocks) < 60)
        for v in [x[0] for x in prog.adts[TV].variants]:
            m = Inl(v); X = Explorer(F, m); X.run(); ck.count('states', X.states)
            for st, msg, bi, line in X.bad: ck.ob(False, 'inline-table:%s' % v, '%s under %s: %s: %s' % (prog.outer(fn).path, v, msg, ' ; '.join(X.witness(st, 4))))
            ck.ob('ok' in {k[0] for k in X.final}, 'inline-table-vacuous', '%s: no return explored' % fn.path, sample='inline tables under %s: newline and trailing comma %s' % (v, 'reported' if v == 'V1_0_0' else 'allowed'))

# date-times: the shape of the text, digits being one class
class Dt(Text):
    """astate: (position in the text or None, what was written)"""
    init = (None, '')
    def __init__(self, shape, v, outs): self.shape = shape; self.v = v; self.outs = outs; self.got = {}; self.unknown = {}
    is_out = Dec.is_out
    def call_alts(self, X, bi, c, env, argv, a):
        d = c.callee; dd = c.decl
        if d is None: return None
        path = dd.path; last = path.rsplit('::', 1)[-1]; rt = X.F.ltys[c.dest[0]] if not c.dest[1] else None
        if d.crate == 'tombi_syntax' or last == 'text' and rt is not None and 'str' in rt.s: return [([((), ('str', 'INPUT'))], a)] if rt is not None and rt.peel().s == 'str' else None
        if last == 'token' and rt is not None and rt.d is not None and rt.d.path == OPT: return [([((), ('v', OPT, 'Some'))], a)]
        if self.is_text(X, env, argv[0] if argv else None):
            if last in ('chars', 'char_indices'): return [([((), KEEP)], (0, a[1]))]
            if last == 'len': return [([((), ('c', str(len(self.shape))))], a)]
            if last in ('to_string', 'to_owned', 'into', 'from', 'deref', 'as_ref', 'as_str'): return [([((), ('str', 'INPUT'))], a)]
            if last not in ('from_str', 'parse') and d.fn is None: self.unknown[path] = 1
        if c.args and (argv[0] == KEEP or c.args[0][0] != 'const' and env.get(X.resolve(env, c.args[0][1])) == KEEP):
            if last in ('into_iter', 'by_ref'): return [([((), KEEP)], a)]
            self.unknown[path] = 1; return None
        if argv and argv[0] is not None and argv[0][0] == 'r' and self.iter_place(X, env, argv[0]) is not None:
            idx = rt is not None and '(usize, char)' in rt.s
            i = a[0]
            if last == 'nth' and argv[1] is not None and argv[1][0] == 'c': i = i + int(argv[1][1])
            elif last != 'next':
                if last not in ('by_ref', 'into_iter'): self.unknown[path] = 1
                return None
            if i is None: return None
            if i >= len(self.shape): return [([((), ('v', OPT, 'None'))], (i, a[1]))]
            return [(self.tree_some(ord(self.shape[i]), i if idx else None), (i + 1, a[1]))]
        if c.argtys and c.argtys[0].peel().s.endswith('string::String') and self.is_out(X, env, argv[0]):
            if last == 'push':
                ch = self.char(X, env, argv[1])
                return [([], (a[0], a[1] + (chr(ch) if ch is not None else '?')))]
            if last == 'push_str':
                v = argv[1]
                return [([], (a[0], a[1] + (v[1] if v is not None and v[0] == 'str' and isinstance(v[1], str) else '?')))]
            if last == 'len': return [([((), ('c', str(len(a[1]))))], a)]
            if c.argtys[0].k == 'refmut' and last not in ('reserve', 'deref', 'deref_mut'): self.unknown[path] = 1
        if last in ('from_str', 'parse') and rt is not None and rt.d is not None and rt.d.path == RES and 'tombi_date_time' in rt.s:
            v = argv[0]; n = 0
            txt = self.shape if self.is_text(X, env, v) else a[1]
            return [([((), ('v', RES, 'Ok'))], (a[0], 'PARSED ' + txt)), ([((), ('v', RES, 'Err'))], (a[0], 'PARSE ERROR ' + txt))]
        l = self.lib(X, bi, c, env, argv)
        if l is False: self.unknown[path] = 1; return None
        return [(l, a)] if l is not None else None
    def on_ret(self, X, bi, env, a):
        for l in X.F.ret_locals:
            v = X.variant_at(env, (l, ()))
            self.got.setdefault((v[2] if v is not None and v[0] == 'v' else '?', a[1]), None)
        return 0

SHAPES = {'OffsetDateTime': [d + s + t + z for d in ('0000-00-00',) for s in ('T', 't', ' ') for t in ('00:00', '00:00:00', '00:00:00.000') for z in ('Z', 'z', '+00:00', '-00:00')],
          'LocalDateTime': [d + s + t for d in ('0000-00-00',) for s in ('T', 't', ' ') for t in ('00:00', '00:00:00', '00:00:00.000')],
          'LocalTime': ['00:00', '00:00:00', '00:00:00.000']}

def seconds(ck, prog):
    n = 0
    for kind, shapes in SHAPES.items():
        l = [f for f in prog.fns if f.crate.name == 'tombi_document_tree' and f.kind not in ('closure', 'coroutine') and f.ltys[0].d is not None and f.ltys[0].d.path == RES and f.ltys[0].args[0].d is not None and f.ltys[0].args[0].d.path.endswith('tombi_date_time::%s' % kind if False else '::' + kind) and 'tombi_date_time' in f.ltys[0].args[0].s and any(f.ltys[i].s.endswith('TomlVersion') for i in range(1, f.ac + 1))]
        fn = ck.need(l[0] if l else None, 'read-' + kind, 'the reading of a ' + kind)
        if not fn: continue
        F = Flat(prog, fn, lambda g, fr, c: g.crate.name in ('tombi_document_tree', 'tombi_toml_version') and not derived(g))
        outs = {i for i, t in enumerate(F.ltys) if t is not None and t.s.endswith('alloc::string::String')}
        iv = next(i for i in range(1, fn.ac + 1) if fn.ltys[i].s.endswith('TomlVersion'))
        for v in [x[0] for x in prog.adts[TV].variants]:
            for sh in shapes:
                m = Dt(sh, v, outs); X = TX(F, m, cap=500); X.run({(iv, ()): ('v', TV, v)}); ck.count('states', X.states)
                if m.unknown or any(k[0] == '?' for k in m.got): ck.notes.append('%s: not understood: %s' % (fn.path, sorted(m.unknown))); break
                t = sh.find(':')
                nosec = sh[t + 3:t + 4] != ':'
                oks = {w for (r, w) in m.got if r == 'Ok'}
                n += 1
                if nosec and v == 'V1_0_0': ck.ob(not oks and bool(m.got), 'seconds:%s:%s' % (kind, v), '%s accepts %s without seconds under TOML 1.0' % (fn.path, sh), sample='%s %s under %s: rejected' % (kind, sh, v))
                else:
                    full = sh[:t + 3] + ':00' + sh[t + 3:] if nosec else sh
                    want = {x.replace('T', ' ', 1).replace('t', ' ', 1) for x in (full,)}
                    # a parser that reads times without seconds itself is fine for local times
                    alt = want | ({sh.replace('T', ' ', 1)} if kind == 'LocalTime' else set())
                    got = {w.replace('PARSED ', '').replace('T', ' ', 1).replace('t', ' ', 1) for w in oks}
                    early = {w for (r, w) in m.got if r == 'Err' and not w.startswith('PARSE ERROR')}
                    ck.ob(bool(oks) and got <= alt and not early, 'seconds:%s:%s' % (kind, v), '%s reads %s under %s as %s%s' % (fn.path, sh, v, sorted(got) or 'an error', ', or rejects it' if early else ''), sample='%s %s under %s -> %s' % (kind, sh, v, sorted(got)))
    ck.floor('date_time_shapes', n, 40)

# ---------------------------------------------------------------- kinds and errors
KIND_FN = {'BasicString': 'try_from_basic_string', 'LiteralString': 'try_from_literal_string', 'MultiLineBasicString': 'try_from_multi_line_basic_string', 'MultiLineLiteralString': 'try_from_multi_line_literal_string', 'BareKey': 'try_from_bare_key'}
class Kind(Model):
    init = ()
    def __init__(self, var, adt, place): self.var = var; self.adt = adt; self.place = place; self.seen = set()
    def read(self, X, bi, p, owner):
        if p == self.place: return ('v', self.adt, self.var)
    def on_call(self, X, bi, c, env, argv, a):
        d = c.callee
        if d is not None and d.path.startswith('tombi_toml_text::try_from_'): self.seen.add(d.path.rsplit('::', 1)[-1])
        return a

def kinds(ck, prog):
    n = 0
    # functions that choose a decoder by an enum of kinds
    for f in prog.fns:
        if f.crate.name not in ('tombi_document_tree', 'tombi_ast') or f.kind in ('closure', 'coroutine'): continue
        cs = {c.callee.path for _, c in f.calls() if c.callee is not None and c.callee.path.startswith('tombi_toml_text::try_from_')}
        if len(cs) < 2: continue
        for i in range(1, f.ac + 1):
            t = f.ltys[i].peel()
            ad = prog.adts.get(t.d.path) if t.d is not None else None
            if ad is None or ad.kind != 'enum' or not {v[0] for v in ad.variants} & set(KIND_FN) or t.s.endswith('TomlVersion'): continue
            F = Flat(prog, f, lambda *a: False)
            for v in ad.variants:
                if v[0] not in KIND_FN: continue
                m = Kind(v[0], ad.path if hasattr(ad, 'path') else t.d.path, None)
                X = Explorer(F, m)
                env = {(i, ()): ('v', t.d.path, v[0])} if f.ltys[i].k not in ('ref', 'refmut') else {(('S', (i, ())), ()): ('v', t.d.path, v[0])}
                X.run(env); n += 1; ck.count('states', X.states)
                ck.ob(m.seen == {KIND_FN[v[0]]}, 'kind:%s:%s' % (f.path, v[0]), '%s decodes a %s with %s' % (f.path, v[0], sorted(m.seen) or 'nothing'), sample='%s: %s -> %s' % (f.path, v[0], KIND_FN[v[0]]))
    ck.floor('kinds', n, 7)
    # syntax nodes hand on their own kind
    k = 0
    for f in prog.fns:
        if f.crate.name != 'tombi_document_tree' or f.kind in ('closure', 'coroutine') or f.ac < 1 or f.ltys[1].d is None: continue
        own = f.ltys[1].d.path
        if not own.startswith('tombi_ast::'): continue
        node = own.rsplit('::', 1)[-1]
        for b in f.blocks:
            for s in b.stmts:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt' and s[2][2] is not None and s[2][2].path.endswith(('::StringKind', '::KeyKind')) and node in KIND_FN:
                    k += 1
                    ck.ob(s[2][3] == node, 'node-kind:' + node, '%s: a %s is read as a %s (%s)' % (f.path, node, s[2][3], f.loc(s[3])), sample='%s read as %s' % (node, s[2][3]))
    ck.floor('node_kinds', k, 4)

class Fail(Model):
    """Decoding fails: an error must be put in the list (or be returned).  astate: reported"""
    init = (False, False)
    wants_stmts = True
    def __init__(self, isdec): self.isdec = isdec; self.n = 0
    def call_alts(self, X, bi, c, env, argv, a):
        d = c.callee
        if d is not None and self.isdec(d, c):
            self.n += 1
            return [([((), ('v', RES, 'Err'))], (True, a[1]))]
    def on_call(self, X, bi, c, env, argv, a):
        dd = c.decl
        if dd is None: return a
        last = dd.path.rsplit('::', 1)[-1]
        if last in ('push', 'extend', 'append', 'insert') and c.argtys and 'tombi_document_tree::error::Error' in c.argtys[0].s.replace('crate::', '') : return (a[0], True)
        return a
    def on_stmt(self, X, bi, s, env, a):
        if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'array' and any('Error' in str(F_ty(X.F, o)) for o in s[2][5]): return (a[0], True)
        return a
    def on_ret(self, X, bi, env, a):
        if not a[0] or a[1]: return 0
        for l in X.F.ret_locals:
            v = X.variant_at(env, (l, ()))
            if v is not None and v[0] == 'v' and v[2] == 'Err': return 0
            t = X.F.ltys[l]
            if t is not None and t.d is not None and t.d.path == RES and v is None: return 0
        return '!drops the error of a text that could not be decoded'

def F_ty(F, o):
    if o[0] == 'const': return o[1].ty.s if o[1].ty is not None else ''
    t = place_ty(F, o[1]); return t.s if t is not None else ''

def failures(ck, prog):
    def isdec(d, c):
        if d.path.startswith('tombi_toml_text::') and ('try_from_' in d.path): return True
        if d.path.startswith('tombi_ast::support::literal::') and d.path.rsplit('::', 1)[-1].startswith('try_from_'): return True
        if d.path.rsplit('::', 1)[-1] in ('try_to_raw_text', 'try_new') and d.crate in ('tombi_ast', 'tombi_document_tree'): return True
        return d.crate == 'tombi_document_tree' and '::support::' in d.path and d.path.rsplit('::', 1)[-1].startswith('try_')
    n = 0
    for f in prog.fns:
        if f.crate.name != 'tombi_document_tree' or f.kind in ('closure', 'coroutine'): continue
        if not any(c.callee is not None and isdec(c.callee, c) for g in [f] + [h for h in prog.fns if h.crate is f.crate and h.kind == 'closure' and prog.outer(h) is f] for _, c in g.calls()): continue
        if isdec(f.d, None) and f.ltys[0].d is not None and f.ltys[0].d.path == RES: pass
        m = Fail(isdec); F = Flat(prog, f, lambda g, fr, c: g.kind == 'closure' and prog.outer(g) is f)
        X = Explorer(F, m); X.run(); ck.count('states', X.states)
        n += 1
        for st, msg, bi, line in X.bad: ck.ob(False, 'error-dropped:' + f.path, '%s %s: %s' % (f.path, msg, ' ; '.join(X.witness(st, 4))))
        ck.ob(m.n > 0, 'error-vacuous:' + f.path, '%s: decoding not reached' % f.path, sample='%s: a decoding error is reported' % f.path)
    ck.floor('decoding_callers', n, 10)

def check(ck):
    prog = ck.prog
    decoders(ck, prog)
    delimiters(ck, prog)
    escapes(ck, prog)
    bare(ck, prog)
    inline(ck, prog)
    seconds(ck, prog)
    kinds(ck, prog)
    failures(ck, prog)
    ck.rule('the decoders agree with the TOML grammar on every class of character; what is written is read back; TOML 1.1 syntax is an error under 1.0; decoding errors are reported')
