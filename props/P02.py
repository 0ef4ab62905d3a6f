"""Typestate analysis of the in-place rewrite.  The innermost CLI function that reaches both the
formatter and a file write is flattened with everything it calls and explored path-sensitively with an
automaton over the file operations (seek to 0, set_len 0, write_all, flush) and the outcome of every
fallible I/O future and of the formatter call; the written buffer's provenance is sliced backward."""
from props.common import *

IDENT = ('deref', 'as_bytes', 'as_str', 'as_ref', 'borrow', 'into_future', 'new_unchecked', 'poll', 'get_context', 'clone', 'into', 'into_bytes', 'to_owned', 'as_mut', 'branch', 'from', 'as_mut_string', 'into_boxed_str', 'new')

def op_of(d):
    p = d.path
    last = p.rsplit('::', 1)[-1]
    if last == 'set_len': return 'set_len'
    if last in ('seek', 'rewind') and 'eek' in p: return last
    if last in ('write_all', 'write', 'write_buf', 'write_all_buf', 'write_vectored') and 'rite' in p: return last
    if last in ('flush', 'sync_all', 'sync_data', 'shutdown') and ('rite' in p or 'File' in p): return 'flush'
    return None

def on_file(c):
    return any(effects.mentions_file(t) for t in list(c.argtys) + list(c.func[1].args if c.func[0] == 'const' else ()))

class M(Model):
    # state: (phase, rewound, truncated, written, flushed, io_failed, fmt) ; fmt: None/'ok'/'err'
    init = (False, False, False, False, False, None)
    def __init__(self, sl, F, same=None):
        self.sl = sl; self.F = F; self.writes = {}; self.polls = set(); self.same = same; self.fmtcalls = set(); self.cmps = set()
    def discr(self, X, bi, p, adt):
        a = X.prog.adts.get(adt)
        if a is None or a.crate != 'tombi': return None
        vs = [v[0] for v in a.variants if any(effects.mentions_file(f[1]) for f in v[2])]
        return vs[0] if a.kind == 'enum' and len(vs) == 1 else None
    def call(self, X, bi, c, env, argv):
        last = c.decl.path.rsplit('::', 1)[-1] if c.decl is not None else ''
        if last in ('eq', 'ne') and 'PartialEq' in c.decl.path and all(t.peel().s in ('alloc::string::String', 'str') or t.peel().k == 'str' for t in c.argtys):
            self.cmps.add(bi)
            if self.same is not None: return cbool((last == 'eq') == self.same)
    def call_alts(self, X, bi, c, env, argv, a):
        out = poll_output(X.F, c)
        if out is None or not is_result(out): return None
        rew, trunc, wr, fl, bad, fmt = a
        if 'io::error::Error' in out.args[-1].s:
            self.polls.add(bi)
            return [(ready_result('Ok'), a), (ready_result('Err'), (rew, trunc, wr, fl, True, fmt))]
        if any('tombi_formatter::formatter::Formatter' in t[1] and t[1].endswith('::format') for t in self.toks(c.args[0]) if t[0] == 'call'):
            self.fmtcalls.add(bi)
            return [(ready_result('Ok'), (rew, trunc, wr, fl, bad, 'ok')), (ready_result('Err'), (rew, trunc, wr, fl, bad, 'err'))]
        return None
    def toks(self, o):
        return self.sl.operand(self.F, o)
    def on_call(self, X, bi, c, env, argv, a):
        d = c.callee
        if d is None: return a
        op = op_of(c.decl) or op_of(d)
        if op is None or not on_file(c): return a
        rew, trunc, wr, fl, bad, fmt = a
        if op in ('seek', 'rewind'):
            ok = op == 'rewind'
            if op == 'seek':
                t = self.toks(c.args[1])
                ok = any(x[0] == 'agg' and x[2] == 'Start' for x in t) and {x[1] for x in t if x[0] == 'const'} <= {'0'}
                if wr: return '!the file is repositioned after the write'
                if not ok: return '!the file is not rewound to its start before the write'
            return (True, trunc, wr, fl, bad, fmt)
        if op == 'set_len':
            if fmt != 'ok': return '!the file is truncated although the formatter has not succeeded'
            if wr: return '!the file is truncated after it was written'
            if argv[1] != ('c', '0'): return '!the file is not truncated to zero before the write'
            return (rew, True, wr, fl, bad, fmt)
        if op == 'flush': return (rew, trunc, wr, True if wr else fl, bad, fmt)
        # a write
        if fmt != 'ok': return '!the file is written although the formatter has not succeeded'
        if op in ('write', 'write_buf', 'write_vectored'): return '!a partial write (%s) is used for the file' % op
        if not (rew and trunc): return '!the file is written without rewinding and truncating it first'
        if wr: return '!the file is written twice'
        t = self.toks(c.args[1])
        calls = {x[1] for x in t if x[0] == 'call'}
        extra = sorted(x for x in calls if x.rsplit('::', 1)[-1] not in IDENT and not x.endswith('::format'))
        fmtd = any('tombi_formatter::formatter::Formatter' in x and x.endswith('::format') for x in calls)
        lits = sorted(x[1] for x in t if x[0] == 'str')
        self.writes[bi] = c
        if not fmtd: return '!the bytes written do not come from the formatter'
        if extra or lits: return '!the bytes written are not exactly the formatted text (also computed by %s)' % ', '.join((extra + lits)[:3])
        return (rew, trunc, True, False, bad, fmt)

def ok_payload(r):
    """'true'/'false'/None for a returned Ok(bool)."""
    if r is None: return None
    if r[0] == 'Ok': return r[1]
    return None

def check(ck):
    prog = ck.prog
    fs = in_place_formatters(prog)
    if not ck.need(fs, 'in-place', 'a CLI function that formats a file and writes it'): return
    root = fs[0]
    ck.samples.append('in-place rewrite analysed in %s (%s)' % (root.path, root.loc()))
    pol = lambda f, fr, c: f.crate.name == 'tombi'
    F = Flat(prog, root, pol)
    sl = Slicer(prog, follow=False, ok_only=True, stop_call=lambda p: 'tombi_formatter::formatter::Formatter' in p and p.endswith('::format'))
    m = M(sl, F)
    X = Explorer(F, m).run()
    ck.count('states', X.states); ck.count('blocks', len(X.visited_blocks))
    ck.ob(not X.overflow, 'overflow', 'state space not exhausted')
    for st, msg, bi, line in X.bad:
        ck.ob(False, '%s@%s' % (msg[:60], F.where(bi)), '%s (%s); path: %s' % (msg, F.loc(bi, line), ' ; '.join(X.witness(st, 5))))
    ck.floor('file_writes', len(m.writes), 0 if X.bad else 1)
    ck.floor('fallible_io_operations', len(m.polls), 3)
    ck.floor('formatter_calls', len(m.fmtcalls), 1)
    for (a, r), st in X.final.items():
        rew, trunc, wr, fl, bad, fmt = a
        v = r[0] if r is not None else None
        w = ' ; '.join(X.witness(st, 6))
        ck.ob(not (bad and v != 'Err'), 'io-error-lost', 'an I/O operation failed and %s is returned: %s' % (v, w))
        ck.ob(not (fmt == 'err' and v != 'Err'), 'format-error-lost', 'the formatter failed and %s is returned: %s' % (v, w))
        ck.ob(not (fmt != 'ok' and (trunc or wr)), 'touch-on-error', 'file touched without a formatted text')
        if v == 'Ok':
            ck.ob(not (trunc and not wr), 'truncated-only', 'success is returned with the file truncated and nothing written: %s' % w)
            ck.ob(not (wr and not fl), 'unflushed', 'success is returned before the written data was flushed (a failed write goes unreported): %s' % w)
            ck.ob(v != 'Ok' or fmt == 'ok', 'ok-without-format', 'success without a formatter result: %s' % w)
        ck.ob(v in ('Ok', 'Err'), 'result-shape', 'unrecognised result %s' % (r,)) if r is not None else None
    # text unchanged => file untouched; text changed and not check => written
    for same in (True, False):
        m2 = M(sl, F, same)
        X2 = Explorer(F, m2).run()
        ck.floor('comparisons_%s' % same, len(m2.cmps), 1)
        for (a, r), st in X2.final.items():
            rew, trunc, wr, fl, bad, fmt = a
            if same: ck.ob(not (trunc or wr), 'unchanged-touched', 'the file is rewritten although the formatted text is identical: %s' % ' ; '.join(X2.witness(st, 6)))
            elif fmt == 'ok' and not bad and r is not None and r[0] == 'Ok':
                ck.ob(wr, 'changed-not-written', 'the formatted text differs, no error occurred, and the file is not written: %s' % ' ; '.join(X2.witness(st, 6)))
    ck.rule('automaton: formatter Ok -> seek(0), set_len(0) -> write_all(formatted) -> flush -> Ok; every Err result -> Err')

