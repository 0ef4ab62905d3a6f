"""Standard input without `--check`: the command function is flattened and explored with an automaton that
follows what is written to standard output.  What a write prints is decided by a backward slice of its
arguments: the text the formatter returned, or the text that was read."""
import re
from props.common import *
from props.P03 import summaries, pick_inner, task_defs

def is_fmt_poll(X, c):
    po = poll_output(X.F, c)
    return po is not None and is_result(po) and 'Diagnostic' in po.args[-1].s and po.args[0].s == 'alloc::string::String'

class StdinModel(Model):
    """astate: (stdin?, outcome, printed)
    outcome: None (not read yet), 'off' (formatting disabled), 'read' (unreadable), 'ok', 'bad'"""
    init = (False, None, '')
    def __init__(self, what): self.what = what; self.outs = set(); self.fmts = set(); self.reads = set(); self.offs = set()
    def read(self, X, bi, p, owner):
        if owner is not None and owner.startswith('tombi::app::command') and p[1] and p[1][-1] == ('f', 'check'): return F_
    def discr(self, X, bi, p, adt):
        if adt.endswith('FileSearch'): return 'Stdin'
        if adt.endswith('FileInputType'): return 'Stdin'
    def call(self, X, bi, c, env, argv):
        d = c.decl
        if d is None: return None
        last = d.path.rsplit('::', 1)[-1]
        if last in ('eq', 'ne') and any(t.peel().d is not None and t.peel().d.path.endswith('FileInputType') for t in c.argtys): return cbool(last == 'eq')
        if last == 'le' and len(c.argtys) == 2 and c.argtys[1].peel().s == 'log::LevelFilter': return T
    def call_alts(self, X, bi, c, env, argv, a):
        d = c.decl
        if d is None: return None
        rt = X.F.ltys[c.dest[0]] if not c.dest[1] else None
        _, o, pr = a
        if is_fmt_poll(X, c):
            self.fmts.add(bi)
            return [(ready_result('Ok'), (True, 'ok', pr)), (ready_result('Err'), (True, 'bad', pr))]
        po = poll_output(X.F, c)
        if po is not None and is_result(po) and 'io::error::Error' in po.args[-1].s and X.mutstr(c):
            self.reads.add(bi)
            return [(ready_result('Ok'), a), (ready_result('Err'), (True, 'read', pr))]
        if d.path == 'tombi_glob::get_format_options' or d.path.endswith('::get_format_options'):
            self.offs.add(bi)
            return [([((), ('v', OPT, 'Some'))], a), ([((), ('v', OPT, 'None'))], (True, 'off', pr))]
        return None
    def on_call(self, X, bi, c, env, argv, a):
        k = X.outkind(bi, c)
        if k is None: return a
        self.outs.add((bi, k))
        s, o, pr = a
        want = {'ok': 'formatted', 'bad': 'source', 'off': 'copy', 'read': None, None: 'copy'}[o]
        if want == 'copy': okk = k == 'copy'
        else: okk = k == want
        if want is None: return '!something is written to standard output although it could not be read'
        if not okk: return '!standard output receives %s where %s' % ({'copy': 'the rest of the input', 'formatted': 'the formatted text', 'source': 'the source text', 'other': 'something that is neither the source nor the formatted text'}[k],
            {'ok': 'the formatter succeeded', 'bad': 'the formatter failed', 'off': 'formatting is disabled', None: 'the source was not read'}[o])
        if pr: return '!standard output receives the text twice'
        return (s, o, k)

ALTER = {'trim', 'trim_end', 'trim_start', 'trim_matches', 'trim_end_matches', 'trim_start_matches', 'replace', 'replacen', 'to_lowercase', 'to_uppercase',
    'lines', 'split', 'splitn', 'split_once', 'split_whitespace', 'chars', 'strip_prefix', 'strip_suffix', 'split_at', 'truncate', 'repeat', 'to_ascii_lowercase',
    'new_debug', 'new_lower_hex', 'escape_debug', 'escape_default', 'take', 'skip', 'rev'}
def altered(toks):
    calls = {t[1] for t in toks if t[0] == 'call'}
    if any(p.split('::')[-1] in ALTER and not p.startswith('tombi_') and 'Option' not in p and 'mem::' not in p for p in calls): return True
    # the template of print!("{text}") is one placeholder and its end
    if any(p.endswith("Arguments::<'a>::new") for p in calls):
        return any(re.fullmatch(r'&\[u8; (\d+)\]', str(t[1])) and str(t[1]) != '&[u8; 2]' for t in toks if t[0] == 'const')
    return False

def make_slices(prog, F):
    sl = Slicer(prog, follow=False, stop_call=lambda p: p.endswith('::format') and 'Formatter' in p)
    G = sl.graph(F); memo = {}
    def locs(o):
        """Locals an operand's value comes from."""
        key = o[1]
        seen = set(); st = [o]
        while st:
            o = st.pop()
            if o[0] == 'const': continue
            l = o[1][0]
            if l in seen: continue
            seen.add(l)
            for bi, s in G.defs.get(l, []):
                if isinstance(s, Call):
                    if s.callee is not None and s.callee.path.endswith('::format') and 'Formatter' in s.callee.path: continue
                    st.extend(s.args); continue
                r = s[2]
                if r[0] in ('use', 'repeat'): st.append(r[1])
                elif r[0] in ('ref', 'refmut', 'raw', 'discr'): st.append(('copy', r[1]))
                elif r[0] == 'cast': st.append(r[2])
                elif r[0] == 'agg': st.extend(r[5])
        return seen
    # buffers filled from standard input: &mut String handed to a read
    srcs = set()
    for bi, b in enumerate(F.blocks):
        if b.term[0] == 'call' and b.term[1].decl is not None and b.term[1].decl.path.rsplit('::', 1)[-1] in ('read_to_string', 'read_to_end'):
            for a, t in zip(b.term[1].args, b.term[1].argtys):
                if t.k == 'refmut' and t.peel().s in ('alloc::string::String', 'alloc::vec::Vec<u8>'):
                    srcs |= {l for l in locs(a) if F.ltys[l].s == t.peel().s}
    def outkind(bi, c):
        if bi in memo: return memo[bi]
        d = c.decl; k = None
        if d is not None:
            last = d.path.rsplit('::', 1)[-1]
            isout = d.path.endswith('::_print')
            data = None
            if isout: data = c.args[0]
            elif last in ('write_all', 'write', 'write_fmt', 'write_str', 'println', 'print') and c.argtys and 'Stdout' in c.argtys[0].s:
                isout = True; data = c.args[1] if len(c.args) > 1 else None
            elif last == 'copy' and len(c.args) == 2 and any('Stdout' in t.s for t in c.argtys):
                isout = True
                k = 'copy' if 'Stdin' in c.argtys[0].s else 'other'
            if isout and k is None:
                k = 'other'
                if data is not None:
                    toks = sl.operand(F, data)
                    if any(t[0] == 'call' and t[1].endswith('::format') and 'Formatter' in t[1] for t in toks): k = 'formatted'
                    elif locs(data) & srcs: k = 'source'
                    # a prompt or status line made of constants alone is not the text
                    # anything written around the text, or a changed text, is not the text either
                    if k != 'other' and altered(toks): k = 'other'
        memo[bi] = k
        return k
    return srcs, outkind

def check(ck):
    prog = ck.prog
    run = ck.need(cli_run(prog, 'format'), 'format', 'format command')
    if run is None: return
    sums = summaries(prog)
    inner = pick_inner(prog, run, sums) - {run}
    root = sorted(inner, key=lambda f: -len(prog.reach([f], stop=lambda d: d.crate != 'tombi')))[0] if inner else run
    F = Flat(prog, root, lambda f, fr, c: f.crate.name == 'tombi' and not f.path.endswith('::print') and 'Print<' not in f.path and 'eprint_diff' not in f.path)
    m = StdinModel(None)
    X = Explorer(F, m, cap=200)
    srcs, ok = make_slices(prog, F)
    ck.count('source_buffers', len(srcs))
    X.outkind = ok
    X.mutstr = lambda c: True
    X.run()
    ck.count('states', X.states); ck.count('blocks', len(X.visited_blocks))
    ck.ob(not X.overflow, 'overflow', 'state space not exhausted')
    for st, msg, bi, line in X.bad: ck.ob(False, msg, '%s (%s): %s' % (msg, F.loc(bi, line), ' ; '.join(X.witness(st, 6))))
    if not X.bad:
        ck.floor('formatter_calls', len(m.fmts), 1); ck.floor('reads_of_stdin', len(m.reads), 1)
        ck.floor('disabled_by_override_tests', len(m.offs), 1)
        ck.floor('stdout_writes', len(m.outs), 3)
    for (a, r), st in X.final.items():
        s, o, pr = a
        w = ' ; '.join(X.witness(st, 6))
        if o == 'read': continue
        need = 'the formatted text' if o == 'ok' else 'the source text'
        ck.ob(pr != '', 'nothing:%s' % o, 'standard output does not receive %s when %s: %s' % (need, {'ok': 'the formatter succeeds', 'bad': 'the formatter fails', None: 'the run ends before it is read', 'off': 'formatting is disabled by an override'}[o], w))
        ck.samples.append('outcome %s -> stdout gets %s' % (o, pr))
    ck.rule('on every path of `format -` without --check exactly one write to standard output: the formatter\'s text if it succeeded, else the source')
