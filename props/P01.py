"""Effect analysis of the whole resolved program.  Every call, reachable from the CLI entry, of a
primitive that can change the file system is classified by where its path operand comes from
(interprocedural backward slice through parameters and captures): those confined to tombi's cache
directory, and the rest.  The `lint` command, and the `format` command under the assumption that
every read of its `check` option yields true, are flattened (callees, async bodies, closures inlined)
and explored path-sensitively: no unconfined mutating primitive may be reachable."""
from props.common import *

CHECK_OWNERS = 'tombi::app::command::format'

class M(Model):
    def __init__(self, ck, rel, other, label, assume):
        self.ck = ck; self.rel = rel; self.other = other; self.label = label; self.assume = assume; self.hits = 0; self.reads = 0
        self.opaque = set()
    def read(self, X, bi, p, owner):
        if self.assume and owner is not None and owner.startswith(CHECK_OWNERS) and p[1] and p[1][-1] == ('f', 'check'):
            self.reads += 1; return T
    def on_call(self, X, bi, c, env, argv, a):
        d = c.callee
        if d is None: return a
        if effects.fs_mutator(d, c) or (c.decl is not d and effects.fs_mutator(c.decl, c)):
            if 'OpenOptions::' in d.path and len(argv) > 1 and argv[1] == F_: return a
            src = X.F.bframe[bi].fn
            if (src.path, c.line) in self.other: 
                self.hits += 1
                return '!%s reached from `%s`' % (d.path, self.label)
        elif d.fn is not None and d.fn in self.rel and d.fn not in X.F.inlined:
            self.hits += 1
            return '!call of %s, which can change files, reached from `%s`' % (d.path, self.label)
        return a

def check(ck):
    prog = ck.prog
    root = ck.need(main_root(prog), 'main', 'the tombi binary entry point')
    fmt = ck.need(cli_run(prog, 'format'), 'format::run', 'format command'); lint = ck.need(cli_run(prog, 'lint'), 'lint::run', 'lint command')
    if ck.violations: return
    fns = shipped(prog, [root])
    conf, other = confined_sites(prog, fns)
    ck.floor('reachable_functions', len(fns), 3000)
    ck.floor('cache_confined_write_sites', len(conf), 3)
    for f, bi, c in conf: ck.samples.append('confined: %s at %s' % (c.callee.path, f.loc(c.line)))
    # who may change files at all
    fmtfns = prog.reach([fmt])
    oset = set(); osites = {}
    for f, bi, c in other:
        oset.add((f.path, c.line)); osites[(f.path, c.line)] = c
    ck.floor('source_file_write_sites', len(other), 2)
    seeds = {f for f, _, _ in other}
    relset = relevant_fns(prog, seeds)
    pol = lambda f, fr, c: f.crate.name == 'tombi' or f in relset
    for name, r, assume in (('format --check', fmt, True), ('lint', lint, False)):
        F = Flat(prog, r, pol)
        m = M(ck, relset, oset, name, assume)
        X = Explorer(F, m).run()
        ck.count('blocks_explored', len(X.visited_blocks)); ck.count('states', X.states)
        ck.ob(not X.overflow, 'overflow:' + name, 'state space not exhausted')
        if assume: ck.floor('check_option_reads', m.reads, 1)
        ck.ob(not X.bad, 'x', '') if not X.bad else None
        for st, msg, bi, line in X.bad:
            ck.ob(False, 'write:%s:%s' % (name, F.where(bi)), '%s at %s via %s' % (msg, F.loc(bi, line), ' > '.join(F.chain(bi)[-4:])))
        # positive example: without the assumption the format command must reach its own writes
        if assume:
            m2 = M(ck, relset, oset, 'format', False)
            X2 = Explorer(F, m2).run()
            ck.floor('writes_reached_without_check', len({(b, l) for _, _, b, l in X2.bad}), 1)
    # the other commands: only `format` may touch user files
    app = [f for f in fns if (f.path, ) and any(s[0] == f.path for s in oset)]
    for f in app:
        callers = f.root.fn
        ck.ob(f in fmtfns, 'owner:' + f.path, '%s changes files outside the cache and is not part of the format command' % f.path)
        ck.count('functions_that_write_user_files')
    # every path to such a function comes from format::run
    nofmt = prog.reach([root], stop=lambda d: d is fmt.d or d.crate in NOISE)
    for f in nofmt:
        if f in seeds: ck.ob(False, 'reach:' + f.path, '%s reachable without the format command: %s' % (f.path, ' > '.join(prog.chain(nofmt, f)[-5:])))
        else: ck.obligations += 1; ck.discharged += 1
    ck.rule('assume(check) => no unconfined file-system mutation reachable in format::run; none at all in lint::run, lsp and the other commands')

def relevant_fns(prog, seeds):
    rev = {}
    for f in prog.fns:
        for d, line, k in prog.edges(f):
            if d.fn is not None: rev.setdefault(d.fn, []).append(f)
    seen = set(seeds); st = list(seeds)
    while st:
        f = st.pop()
        for g in rev.get(f, []):
            if g not in seen: seen.add(g); st.append(g)
    return seen
