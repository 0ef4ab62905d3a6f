"""Path-sensitive accounting of outcomes in the `format` and `lint` commands.  The command functions are
flattened (helpers, async bodies, spawned tasks and closures inlined) and explored with an automaton that
follows every discovered input from the point it is taken to the point it is counted, with every outcome of
the fallible operations enumerated; the exit paths are explored under assumed error counts."""
from props.common import *
from an.explore import place_ty

def summaries(prog):
    return {a.path: [f[0] for f in a.fields()] for a in prog.adts.values()
            if a.crate == 'tombi' and a.kind == 'struct' and any(f[0].startswith('error') and f[1].s in ('usize', 'u32', 'u64') for f in a.fields())
            and len([f for f in a.fields() if f[1].s in ('usize', 'u32', 'u64')]) >= 2}

def is_err_field(n): return n.startswith('error') or n.startswith('fail')

class ExitModel(Model):
    """astate: None before the inner result, then 'Ok'/'Err' ."""
    init = None
    def __init__(self, sums, errs, inner):
        self.sums = sums; self.errs = errs; self.inner = inner; self.exits = set(); self.reads = 0; self.inners = 0
    def read(self, X, bi, p, owner):
        if owner in self.sums and p[1] and p[1][-1][0] == 'f' and is_err_field(p[1][-1][1]):
            self.reads += 1; return ('c', self.errs)
    def call_alts(self, X, bi, c, env, argv, a):
        if c.callee is not None and c.callee.fn in self.inner:
            self.inners += 1
            return [([((), ('v', RES, 'Ok'))], 'Ok'), ([((), ('v', RES, 'Err'))], 'Err')]
    def on_call(self, X, bi, c, env, argv, a):
        if c.decl is not None and c.decl.path in ('std::process::exit', 'std::process::abort'):
            self.exits.add(bi)
            code = argv[0][1] if argv and argv[0] is not None and argv[0][0] == 'c' else None
            if c.decl.path.endswith('exit') and code == '0' and (self.errs != '0' or a == 'Err'): return '!exits with status 0 although %s' % ('an input failed' if a != 'Err' else 'the run failed')
            if c.decl.path.endswith('exit') and code is None: return '!exits with a status that is not a constant'
            if code != '0' and self.errs == '0' and a == 'Ok': return '!exits with status %s although no input failed' % code
        return a

class CountModel(Model):
    """astate: (phase, n, exp, said)  phase S(tdin)/E(ntry)/J(oin)/- ; exp None/'err'/'ok'/'skip'."""
    init = ('S', 0, None, False, False)
    def __init__(self, sums, check=None, same=None):
        self.sums = sums; self.check_ = check; self.same = same
        self.nexts = set(); self.joins = set(); self.incs = {}; self.spawns = set(); self.opens = set(); self.errprints = set(); self.fails = set()
    wants_stmts = True
    def read(self, X, bi, p, owner):
        if self.check_ is not None and owner is not None and owner.startswith('tombi::app::command') and p[1] and p[1][-1] == ('f', 'check'): return cbool(self.check_)
    def call(self, X, bi, c, env, argv):
        last = c.decl.path.rsplit('::', 1)[-1] if c.decl is not None else ''
        # the level filter of a log macro lets the message through
        if last == 'le' and len(c.argtys) == 2 and c.argtys[1].peel().s == 'log::LevelFilter': return T
        if self.same is not None and last in ('eq', 'ne') and 'PartialEq' in c.decl.path and all(t.peel().s in ('alloc::string::String', 'str') for t in c.argtys):
            return cbool((last == 'eq') == self.same)
    def close(self, a, where):
        ph, n, exp, said, pend = a
        if ph in 'EJ':
            if n == 0: return '!an input is taken %s and counted in no outcome' % ('from the search result' if ph == 'E' else 'as a finished task')
            if said == 'owed': return '!a failed input is counted without any message'
        return None
    def call_alts(self, X, bi, c, env, argv, a):
        d = c.decl
        if d is None: return None
        pend = a[4]
        if pend and c.argtys and 'tombi::error::Error' in c.argtys[0].s:
            # a collection of errors that holds one
            if d.path.endswith('Iterator::next'): return [([((), ('v', OPT, 'Some'))], a)]
            if d.path.endswith('::is_empty'): return [([((), F_)], a)]
        rt = X.F.ltys[c.dest[0]] if not c.dest[1] else None
        if d.path.endswith('Iterator::next') and rt is not None and rt.args and rt.args[0].d is not None and rt.args[0].d.path == 'tombi_glob::file_search::FileSearchEntry':
            self.nexts.add(bi)
            e = self.close(a, 'E')
            if e: return [([], e)]
            S = ('v', OPT, 'Some'); FE = 'tombi_glob::file_search::FileSearchEntry'; pre = (('d', 'Some'), ('f', '0'))
            out = [([((), ('v', OPT, 'None'))], ('-', 0, None, False, pend))]
            for v in [x[0] for x in X.prog.adts[FE].variants]:
                exp = {'Error': 'err', 'Skipped': 'skip', 'Found': None}.get(v)
                out.append(([((), S), (pre, ('v', FE, v))], ('E', 0, exp, False, pend)))
            return out
        po = poll_output(X.F, c)
        if po is not None and po.d is not None and po.d.path == OPT and po.args and is_result(po.args[0]) and 'JoinError' in po.args[0].s:
            self.joins.add(bi)
            e = self.close(a, 'J')
            if e: return [([], e)]
            ok = po.args[0].args[0]
            base = [((), ('v', POLLT, 'Ready'))]
            some = READY + (('d', 'Some'), ('f', '0'))
            out = [(base + [(READY, ('v', OPT, 'None'))], ('-', 0, None, False, pend))]
            S = base + [(READY, ('v', OPT, 'Some'))]
            out.append((S + [(some, ('v', RES, 'Err'))], ('J', 0, 'err', False, pend)))
            okp = some + (('d', 'Ok'), ('f', '0'))
            So = S + [(some, ('v', RES, 'Ok'))]
            if is_result(ok):
                out.append((So + [(okp, ('v', RES, 'Err'))], ('J', 0, 'err', False, pend)))
                out.append((So + [(okp, ('v', RES, 'Ok'))], ('J', 0, 'ok', False, pend)))
            elif ok.k == 'bool':
                out.append((So + [(okp, F_)], ('J', 0, 'err', True, pend)))
                out.append((So + [(okp, T)], ('J', 0, 'ok', False, pend)))
            else: out.append((So, ('J', 0, None, False, pend)))
            return out
        if po is not None and is_result(po) and 'io::error::Error' in po.args[-1].s:
            # opening / reading an input.  Inside a spawned task the outcome comes back through join.
            self.opens.add(bi)
            ph, n, exp, said, pend = a
            if self._in_task(X, bi): return None
            return [(ready_result('Ok'), a), (ready_result('Err'), (ph, n, 'err', said, pend) if ph in 'SE' else a)]
        if po is not None and is_result(po) and 'Diagnostic' in po.args[-1].s and not self._in_task(X, bi) and a[0] == 'S' and 'String' in po.args[0].s:
            self.fails.add(bi)
            return [(ready_result('Ok'), (a[0], a[1], 'err' if self.check_ and self.same is False else 'ok' if self.check_ is False or self.same else None, a[3], pend)), (ready_result('Err'), (a[0], a[1], 'err', a[3], pend))]
        return None
    def _in_task(self, X, bi):
        # a frame created for a spawned coroutine
        f = X.F.bframe[bi]
        while f is not None:
            if f.fn.d in X.task_defs: return True
            f = f.parent
        return False
    def on_call(self, X, bi, c, env, argv, a):
        d = c.decl
        if d is None: return a
        last = d.path.rsplit('::', 1)[-1]
        ph, n, exp, said, pend = a
        if last in ('spawn', 'spawn_on', 'spawn_blocking', 'spawn_local') and 'JoinSet' in d.path:
            self.spawns.add(bi)
            if n: return '!an input is both counted and formatted'
            if exp in ('err', 'skip'): return '!a task is spawned for an input that %s' % ('failed' if exp == 'err' else 'is to be skipped')
            return (ph, n + 1, exp, said, pend)
        if (last == 'print' and 'Print' in d.path) or d.path.endswith('_eprint') or 'log::__private_api::log' in d.path:
            if last == 'print' and 'Print' in d.path:
                self.errprints.add(bi)
                return (ph, n, exp, True, pend and ph == 'J')
            if d.path.endswith('_eprint'): return (ph, n, exp, True, pend)
            if 'log' in d.path and self._err_level(X, bi, c): return (ph, n, exp, True, pend)
        if last in ('push', 'extend', 'push_back') and ph == 'J' and c.argtys and 'tombi::error::Error' in c.argtys[0].s: return (ph, n, exp, True, True)
        return a
    def _err_level(self, X, bi, c):
        for o in c.args:
            for t in X.sl.operand(X.F, o):
                if t[0] == 'agg' and t[1] == 'log::Level' and t[2] == 'Error': return True
                if t[0] in ('named', 'const') and 'Error' in str(t[1]): return True
        return False
    def on_stmt(self, X, bi, s, env, a):
        if s[0] != '=' or not s[1][1]: return a
        e = s[1][1][-1]
        if e == '*':
            # through a reference to a counter
            t = place_ty(X.F, s[1])
            if t is None or t.s not in ('usize', 'u32', 'u64'): return a
            p = X.resolve(env, s[1]); owner = X.owner.get(p)
            if p[1] and p[1][-1][0] == 'f': e = p[1][-1]
            else:
                # one of several counters: which one is not followed
                self.unknown = getattr(self, 'unknown', 0) + 1
                return (a[0], a[1] + 1, a[2], a[3], a[4]) if a[0] in 'EJS' and a[1] == 0 else a
        if e[0] != 'f': return a
        if s[1][1][-1] != '*': owner = base_adt(X.F, s[1], len(s[1][1]) - 1)
        if owner not in self.sums or str(e[1]) not in self.sums[owner]: return a
        ph, n, exp, said, pend = a
        fld = str(e[1])
        self.incs.setdefault(fld, set()).add((bi, s[3]))
        # only increments by one
        if n >= 1: return '!an input is counted twice (%s)' % fld
        if ph == '-': return '!%s is changed with no input in hand' % fld
        if exp == 'err' and not is_err_field(fld): return '!a failed input is counted as %s' % fld
        if exp == 'ok' and is_err_field(fld): return '!a successful input is counted as %s' % fld
        if exp == 'skip' and not fld.startswith('skip'): return '!a skipped input is counted as %s' % fld
        if exp is None and is_err_field(fld) and ph == 'E': return '!an input without failure is counted as %s' % fld
        if exp is None and fld.startswith('skip'): return '!an input that is not skipped is counted as %s' % fld
        # lint reports inside the per-file function, see below
        if is_err_field(fld) and ph != '-' and not said and not (self.lint and ph in 'SJ'): said = 'owed'
        return (ph, n + 1, exp, said, pend)

def task_defs(prog, F):
    """Coroutine bodies handed to spawn."""
    out = set()
    sl = Slicer(prog, follow=False)
    for bi, b in enumerate(F.blocks):
        t = b.term
        if t[0] == 'call' and t[1].decl is not None and 'spawn' in t[1].decl.path.rsplit('::', 1)[-1]:
            for ty in t[1].argtys:
                x = ty.peel()
                if x.k == 'coroutine' and x.d is not None: out.add(x.d)
    return out

def pick_inner(prog, run, sums):
    """Functions of the command returning Result<Summary, _>."""
    out = set()
    for g in prog.reach([run], stop=lambda d: d.crate != 'tombi'):
        if g.crate.name == 'tombi' and g.kind not in ('closure', 'coroutine') and is_result(g.ltys[0]) and g.ltys[0].args[0].d is not None and g.ltys[0].args[0].d.path in sums: out.add(g)
    return out

def check(ck):
    prog = ck.prog
    sums = summaries(prog)
    ck.floor('summary_types', len(sums), 2)
    # the process exit status when a command returns an error
    mr = ck.need(main_root(prog), 'main', 'binary entry point')
    F = Flat(prog, mr, lambda f, fr, c: False)
    class MM(Model):
        init = None
        def call_alts(self, X, bi, c, env, argv, a):
            rt = X.F.ltys[c.dest[0]] if not c.dest[1] else None
            if is_result(rt) and 'tombi::error::Error' in rt.s: return [([((), ('v', RES, 'Ok'))], 'Ok'), ([((), ('v', RES, 'Err'))], 'Err')]
        def on_call(self, X, bi, c, env, argv, a):
            if c.decl is not None and c.decl.path == 'std::process::exit':
                if a == 'Err' and argv[0] == ('c', '0'): return '!exit 0 on error'
                if a == 'Ok' and argv[0] != ('c', '0'): return '!nonzero exit on success'
            return a
    rr = F.ltys[0]
    X = Explorer(F, MM()).run()
    if rr.s == '()':
        ck.ob(not X.bad and not any(a == 'Err' for a, _ in X.final), 'main-exit', 'the process ends with status 0 although the command returned an error')
    for cmd in ('format', 'lint'):
        run = ck.need(cli_run(prog, cmd), cmd, cmd + ' command')
        if run is None: continue
        inner = pick_inner(prog, run, sums) - {run}
        # ---- exit status ------------------------------------------------
        pol = lambda f, fr, c: f.crate.name == 'tombi' and f not in inner
        F = Flat(prog, run, pol)
        for errs in ('0', '1'):
            m = ExitModel(sums, errs, inner)
            X = Explorer(F, m).run()
            ck.count('states', X.states)
            ck.floor('%s_exit_calls_%s' % (cmd, errs), len(m.exits), 0 if X.bad else 1)
            ck.floor('%s_error_count_reads_%s' % (cmd, errs), m.reads, 1)
            for st, msg, bi, line in X.bad: ck.ob(False, '%s:%s' % (cmd, msg), '%s (%s)' % (msg, F.loc(bi, line)))
            for (a, r), st in X.final.items():
                v = r[0] if r is not None else None
                if errs == '1' or a == 'Err':
                    ck.ob(v == 'Err', '%s:status0-on-failure' % cmd, '`%s` returns success although %s: %s' % (cmd, 'an input failed' if errs == '1' else 'the run failed', ' ; '.join(X.witness(st, 5))))
                elif inner:
                    ck.ob(v == 'Ok', '%s:status1-on-success' % cmd, '`%s` fails although no input failed: %s' % (cmd, ' ; '.join(X.witness(st, 5))))
        # ---- accounting -------------------------------------------------
        root = sorted(inner, key=lambda f: -len(prog.reach([f], stop=lambda d: d.crate != 'tombi')))[0] if inner else run
        # messages are printed by the Print impls: keep them opaque
        pol2 = lambda f, fr, c: f.crate.name == 'tombi' and not f.path.endswith('::print') and 'Print<' not in f.path
        F = Flat(prog, root, pol2)
        for check_, same in ((False, None), (True, True), (True, False)) if cmd == 'format' else ((None, None),):
            m = CountModel(sums, check_, same); m.lint = cmd == 'lint'
            X = Explorer(F, m, cap=200); X.task_defs = task_defs(prog, F); X.sl = Slicer(prog, follow=False)
            X.run()
            ck.count('states', X.states); ck.count('blocks', len(X.visited_blocks)); ck.count('widened', X.widened)
            ck.ob(not X.overflow, cmd + ':overflow', 'state space not exhausted')
            if getattr(m, 'unknown', 0): ck.notes.append('%s: a counter is raised through a reference that is not followed (%d times)' % (cmd, m.unknown))
            for st, msg, bi, line in X.bad:
                ck.ob(False, '%s:%s' % (cmd, msg), '%s (%s): %s' % (msg, F.loc(bi, line), ' ; '.join(X.witness(st, 6))))
            if not X.bad:
                ck.floor('%s_entry_loops' % cmd, len(m.nexts), 1)
                ck.floor('%s_join_loops' % cmd, len(m.joins), 1)
                ck.floor('%s_spawn_sites' % cmd, len(m.spawns), 1)
                ck.floor('%s_counter_sites' % cmd, sum(len(v) for v in m.incs.values()), 5)
            for (a, r), st in X.final.items():
                ph, n, exp, said, pend = a
                v = r[0] if r is not None else None
                if v == 'Ok':
                    ck.ob(said != 'owed', cmd + ':silent', 'a failed input is counted without any message: %s' % ' ; '.join(X.witness(st, 6)))
                    ck.ob(not pend, cmd + ':errors-unprinted', 'the errors collected from the tasks are not printed: %s' % ' ; '.join(X.witness(st, 6)))
                    ck.ob(not (ph == 'S' and n == 0), cmd + ':stdin-uncounted', 'standard input is counted in no outcome: %s' % ' ; '.join(X.witness(st, 6)))
                    ck.ob(not (ph in 'EJ' and n == 0), cmd + ':entry-uncounted', 'an input is counted in no outcome: %s' % ' ; '.join(X.witness(st, 6)))
    lint_outcome(ck)
    format_outcome(ck)
    abandoned(ck)
    ck.rule('each taken input is counted exactly once, in the class of its outcome; error count > 0 <=> nonzero status; every failure prints a message')

class LintModel(Model):
    init = (None, False)
    def __init__(self, eow, empty): self.eow = eow; self.empty = empty; self.io = set(); self.lints = set()
    def call_alts(self, X, bi, c, env, argv, a):
        po = poll_output(X.F, c)
        if po is None or not is_result(po): return None
        if 'io::error::Error' in po.args[-1].s:
            self.io.add(bi); return [(ready_result('Ok'), a), (ready_result('Err'), ('io', a[1]))]
        if 'Diagnostic' in po.args[-1].s:
            self.lints.add(bi); return [(ready_result('Ok'), ('clean', a[1])), (ready_result('Err'), ('diag', a[1]))]
    def call(self, X, bi, c, env, argv):
        d = c.decl
        if d is None: return None
        last = d.path.rsplit('::', 1)[-1]
        # the diagnostics of a failed lint: at least one, all of them warnings
        if self.empty == 'warnings':
            if last == 'is_empty' and c.argtys and 'Diagnostic' in c.argtys[0].s: return F_
            if last in ('all', 'any') and c.args:
                for t in c.argtys[1:]:
                    p = t.d.path if t.d is not None else ''
                    names = {p} | ({x[1] for x in X.sl.ret(t.d.fn) if x[0] == 'call'} if t.d is not None and t.d.fn is not None else set())
                    if any('is_warning' in x for x in names): return cbool(True)
                    if any('is_error' in x for x in names): return cbool(False)
        if self.empty == 'errors':
            if last == 'is_empty' and c.argtys and 'Diagnostic' in c.argtys[0].s: return F_
            if last in ('all', 'any') and c.args:
                for t in c.argtys[1:]:
                    p = t.d.path if t.d is not None else ''
                    names = {p} | ({x[1] for x in X.sl.ret(t.d.fn) if x[0] == 'call'} if t.d is not None and t.d.fn is not None else set())
                    if any('is_warning' in x for x in names): return cbool(last == 'any') if False else (F_ if last == 'all' else None)
                    if any('is_error' in x for x in names): return T if last == 'any' else None
        return None
    def on_call(self, X, bi, c, env, argv, a):
        d = c.decl
        if d is not None and ((d.path.endswith('::print') and 'Print' in d.path) or d.path.endswith('_eprint')): return (a[0], True)
        return a

def lint_outcome(ck):
    prog = ck.prog
    cands = []
    for f in prog.fns:
        if f.crate.name != 'tombi' or f.kind in ('closure', 'coroutine'): continue
        b = prog.body_of(f)
        if b.ltys[0].k != 'bool': continue
        r = prog.reach([f], stop=lambda d: d.crate != 'tombi')
        if any('tombi_linter::linter::Linter' in d.path and d.path.endswith('::lint') for g in r for d, _, _ in prog.edges(g)): cands.append((len(r), f.path, f))
    cands.sort(key=lambda x: x[:2])
    if not ck.need(cands, 'lint-file', 'a CLI function linting one input and returning whether it succeeded'): return
    f = cands[0][2]
    F = Flat(prog, f, lambda g, fr, c: g.crate.name == 'tombi' and not g.path.endswith('::print'))
    for eow in (True, False):
        for what in ('warnings', 'errors'):
            m = LintModel(eow, what); X = Explorer(F, m); X.sl = Slicer(prog, follow=False)
            env = {}
            for i in range(1, f.ac + 1):
                if F.lnames[i] == 'error_on_warnings': env[(i, ())] = cbool(eow)
            X.run(env)
            ck.count('states', X.states)
            ck.floor('lint_io_%s_%s' % (eow, what), len(m.io), 1); ck.floor('linter_calls_%s_%s' % (eow, what), len(m.lints), 1)
            for (a, r), st in X.final.items():
                why, said = a
                v = r if r in (T, F_) else None
                w = ' ; '.join(X.witness(st, 5))
                if why == 'io':
                    ck.ob(v == F_, 'lint:read-error', 'an unreadable input counts as linted successfully: %s' % w)
                    ck.ob(said, 'lint:read-error-silent', 'an unreadable input is reported with no message: %s' % w)
                elif why == 'clean': ck.ob(v == T, 'lint:clean', 'an input without diagnostics does not count as success: %s' % w)
                elif why == 'diag':
                    ck.ob(said, 'lint:diag-silent', 'diagnostics of an input are not printed: %s' % w)
                    if what == 'errors': ck.ob(v == F_, 'lint:errors-%s' % eow, 'an input with error diagnostics does not count as failed (error_on_warnings=%s): %s' % (eow, w))
                    elif env: ck.ob(v == cbool(not eow), 'lint:warnings-%s' % eow, 'an input with only warnings counts as %s with error_on_warnings=%s: %s' % ('failed' if v == F_ else 'successful' if v == T else 'neither', eow, w))
                else: ck.ob(v != T, 'lint:unlinted', 'an input counts as successful without having been linted: %s' % w)

class FormatModel(Model):
    """astate: (what happened to the file, was anything written)"""
    init = (None, None)
    def __init__(self, same): self.same = same; self.io = set(); self.formats = set(); self.cmp = set()
    def call_alts(self, X, bi, c, env, argv, a):
        po = poll_output(X.F, c)
        if po is None or not is_result(po): return None
        if 'io::error::Error' in po.args[-1].s:
            self.io.add(bi); return [(ready_result('Ok'), a), (ready_result('Err'), ('io', a[1]))]
        if 'Diagnostic' in po.args[-1].s and 'String' in po.args[0].s:
            self.formats.add(bi); return [(ready_result('Ok'), ('ok' if a[0] is None else a[0], a[1])), (ready_result('Err'), ('diag', a[1]))]
    def call(self, X, bi, c, env, argv):
        last = c.decl.path.rsplit('::', 1)[-1] if c.decl is not None else ''
        if last in ('eq', 'ne') and 'PartialEq' in c.decl.path and all(t.peel().s in ('alloc::string::String', 'str') for t in c.argtys):
            self.cmp.add(bi); return cbool((last == 'eq') == self.same)

def format_outcome(ck):
    """What formatting one file returns: an error for every failure, and whether it was changed."""
    prog = ck.prog; cands = []
    for f in prog.fns:
        if f.crate.name != 'tombi' or f.kind in ('closure', 'coroutine'): continue
        b = prog.body_of(f); t = b.ltys[0]
        if not is_result(t) or t.args[0].s != 'bool' or 'tombi::error::Error' not in t.args[1].s: continue
        r = prog.reach([f], stop=lambda d: d.crate != 'tombi')
        if any('tombi_formatter::formatter::Formatter' in d.path and d.path.endswith('::format') for g in r for d, _, _ in prog.edges(g)): cands.append((f, r))
    # the innermost ones: those that contain no other candidate
    cands = [f for f, r in cands if not any(g is not f and g in r for g, _ in cands)]
    if not ck.need(cands, 'format-file', 'a CLI function formatting one input and returning whether it changed'): return
    for f in sorted(cands, key=lambda f: f.path): format_one(ck, f)

def format_one(ck, f):
    prog = ck.prog; nm = f.name
    F = Flat(prog, f, lambda g, fr, c: g.crate.name == 'tombi' and not g.path.endswith('::print') and 'diff' not in g.name)
    ch = [i for i in range(1, f.ac + 1) if F.lnames[i] == 'check' and F.ltys[i].k == 'bool']
    if not ch: ck.notes.append('%s: the check option is not a parameter, outcomes under --check not judged' % f.path)
    for check_ in (True, False):
        for same in (True, False):
            m = FormatModel(same); X = Explorer(F, m)
            X.run({(i, ()): cbool(check_) for i in ch})
            ck.count('states', X.states)
            ck.floor('%s_io_%s_%s' % (nm, check_, same), len(m.io), 1); ck.floor('%s_calls_%s_%s' % (nm, check_, same), len(m.formats), 1)
            if not m.cmp: ck.notes.append('%s: the comparison of the texts is not recognised' % f.path); continue
            for (a, r), st in X.final.items():
                v = r[0] if r is not None else None
                w = ' ; '.join(X.witness(st, 5)); why = a[0]
                if why == 'io': ck.ob(v != 'Ok', 'format:io-error', 'an input whose reading or writing failed does not count as failed: %s' % w)
                elif why == 'diag': ck.ob(v != 'Ok', 'format:parse-error', 'an input that cannot be formatted does not count as failed: %s' % w)
                elif why == 'ok' and ch and check_ and not same: ck.ob(v != 'Ok', 'format:check', 'an input that is not formatted does not count as failed under --check: %s' % w)
                elif why == 'ok': ck.ob(v != 'Err' or not same and check_ and not ch, 'format:fails', 'an input that is formatted without failure counts as failed: %s' % w)
                if why == 'ok' and v == 'Ok' and len(r) > 1 and r[1] is not None and r[1] in (T, F_) and (same or not check_):
                    ck.ob((r[1] == T) == (not same), 'format:changed', 'an input that is %s counts as %s: %s' % ('unchanged' if same else 'reformatted', 'reformatted' if same else 'unchanged', w))

def abandoned(ck):
    """The work on an input is never cancelled or left behind."""
    n = 0
    for f in ck.prog.fns:
        if f.crate.name != 'tombi' or not ('command::format' in f.path or 'command::lint' in f.path): continue
        for bi, c in f.calls():
            p = c.callee.path if c.callee is not None else ''
            if 'JoinSet' in p and p.endswith('::join_next'): n += 1
            ck.ob(not (p.startswith('tokio::') and p.split('::')[-1] in ('abort_all', 'shutdown', 'detach_all', 'abort', 'shutdown_background', 'shutdown_timeout')), 'abandoned:%s' % f.path.split('::{')[0], '%s cancels or abandons running work (%s): inputs that are not done count for what did not happen to them' % (f.loc(c.line), p.split('::')[-1]))
    ck.floor('joins', n, 2)
