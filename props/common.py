"""Anchors shared by several properties."""
from an.core import *
from an import effects

CLI = 'tombi'
NOISE = ('tombi_test_lib', 'xtask', 'zed_tombi', 'build_script_build', 'decode', 'encode')

def shipped(prog, roots):
    """Functions reachable from roots, without test-support crates.  Implementations of external traits
    (the language server's request methods among them) are reachable: external code calls them."""
    stop = lambda d: d.crate in NOISE
    own = {c.name for c in prog.crates}
    linked = {f.crate.name for f in prog.reach(roots, stop=stop)}
    ext = [f for f in prog.fns if f.trait is not None and f.trait.crate not in own and f.crate.name in linked and f.crate.name not in NOISE]
    return {f: v for f, v in prog.reach(list(roots) + ext, stop=stop).items() if f.crate.name not in NOISE}

def main_root(prog):
    l = [f for f in prog.fns if f.path == 'tombi::main' and f.crate.bin]
    return l[0] if l else prog.fn('tombi::main')

def cli_run(prog, name):
    return prog.fn('tombi::app::command::%s::run' % name)

CACHE_PATH = ('tombi_cache::get_cache_file_path', 'tombi_cache::get_tombi_cache_dir_path')

def path_operand(call):
    """The path argument of an FS primitive: the first argument that is a path-like value."""
    for a, t in zip(call.args, call.argtys):
        s = t.s
        if 'Path' in s or 'str' in s or 'String' in s: return a
    return call.args[0] if call.args else None

def cache_confined(prog, sl, fn, call):
    """True when every origin of the path operand is the cache directory."""
    o = path_operand(call)
    if o is None: return False, set()
    toks = sl.up(fn, o)
    ok = any(t[0] == 'call' and sl.stop_call(t[1]) for t in toks)
    # inside the function that computes the cache directory itself
    if not ok:
        cs = {g.root.fn.path if g.root.fn else g.path for g, _, _ in _sites_up(prog, sl, fn)}
        ok = bool(cs) and all(c in CACHE_PATH for c in cs)
    bad = [t for t in toks if t[0] == 'param' and not t[1].startswith('tombi_cache::')]
    bad += [t for t in toks if t[0] == 'field' and t[2] in ('source_path', 'path', 'file', 'files', 'stdin_filename')]
    return ok and not bad, toks

def _sites_up(prog, sl, fn):
    d = fn.root
    return sl.callsites(d)

def cache_path_fns(prog):
    """Functions returning a path that is (only) computed by the cache-path functions."""
    out = set(CACHE_PATH)
    for _ in range(3):
        sl = Slicer(prog, follow=False, ok_only=True, stop_call=lambda p: p in out)
        n = len(out)
        for g in list(out):
            for d in [x.d for x in prog.by_path.get(g, [])]:
                for f, bi, c in sl.callsites(d):
                    o = f.root.fn
                    if o is None or o.path in out: continue
                    b = prog.body_of(o)
                    if 'PathBuf' not in b.ltys[0].s or 'Option' not in b.ltys[0].s: continue
                    t = sl.place(b, (0, ()))
                    if any(x[0] == 'call' and x[1] in out for x in t) and not any(x[0] in ('param', 'upvar') for x in t): out.add(o.path)
        if len(out) == n: break
    return out

def confined_sites(prog, fns):
    """Partition the FS-mutating call sites of fns: (confined, other)."""
    stops = cache_path_fns(prog)
    sl = Slicer(prog, follow=False, ok_only=True, stop_call=lambda p: p in stops)
    conf, other = [], []
    for f, bi, c in effects.sites(prog, fns, effects.fs_mutator):
        ok, toks = cache_confined(prog, sl, f, c)
        (conf if ok else other).append((f, bi, c))
    return conf, other

RES = 'core::result::Result'; OPT = 'core::option::Option'; POLLT = 'core::task::poll::Poll'
READY = (('d', 'Ready'), ('f', '0'))

def ready_result(variant, adt=RES):
    """Result tree of an external poll: Poll::Ready(variant)."""
    return [((), ('v', POLLT, 'Ready')), (READY, ('v', adt, variant))]

def poll_output(F, c):
    """Output type of a poll call (Poll<T> -> T) or None."""
    t = F.ltys[c.dest[0]] if not c.dest[1] else None
    if c.decl is None or c.decl.path != POLL or t is None or t.d is None or t.d.path != POLLT: return None
    return t.args[0] if t.args else None

def is_result(ty): return ty is not None and ty.d is not None and ty.d.path == RES

FORMAT_API = 'tombi_formatter::formatter::Formatter::<\'a>::format'
LINT_API = 'tombi_linter::linter::Linter::<\'a>::lint'

def in_place_formatters(prog, crate='tombi'):
    """Named functions of the CLI from which both the formatter and a File write are reached,
    innermost first."""
    cands = []
    for f in prog.fns:
        if f.crate.name != crate or f.kind in ('closure', 'coroutine'): continue
        r = prog.reach([f], stop=lambda d: d.crate != crate and not d.path.startswith('tombi_formatter::formatter::Formatter'))
        hasfmt = any('tombi_formatter::formatter::Formatter' in d.path and d.path.endswith('::format') for g in r for d, _, _ in prog.edges(g))
        haswr = any(effects.fs_mutator(c.callee, c) for g in r if g.crate.name == crate for _, c in g.calls() if c.callee is not None and 'OpenOptions' not in c.callee.path)
        if hasfmt and haswr: cands.append((len(r), f))
    cands.sort(key=lambda x: (x[0], x[1].path))
    return [f for _, f in cands]

class FutureOrigin:
    """Which calls returned the future (or value) an operand holds: followed through moves, references and
    conversions that keep the value, never through arguments of other calls."""
    def __init__(self, F):
        self.F = F; self.defs = {}
        for bi, b in enumerate(F.blocks):
            for s in b.stmts:
                if s[0] == '=': self.defs.setdefault(s[1][0], []).append((s[1], s[2]))
            if b.term[0] == 'call': self.defs.setdefault(b.term[1].dest[0], []).append((b.term[1].dest, b.term[1]))
    def of(self, o):
        from an.flat import is_ident_call
        out = set(); seen = set(); work = [o[1][0]] if o[0] != 'const' else []
        while work:
            l = work.pop()
            if l in seen: continue
            seen.add(l)
            for dest, r in self.defs.get(l, []):
                if not isinstance(r, tuple):
                    d = r.callee; dc = r.decl
                    if any(x is not None and (is_ident_call(x.path) or x.path.rsplit('::', 1)[-1] in ('into_future', 'get_unchecked_mut', 'as_mut', 'deref_mut', 'instrument')) for x in (d, dc)) and r.args:
                        if r.args[0][0] != 'const': work.append(r.args[0][1][0])
                    else:
                        for x in (d, dc):
                            if x is not None: out.add(x.path)
                elif r[0] == 'use' and r[1][0] != 'const': work.append(r[1][1][0])
                elif r[0] == 'cast' and r[2][0] != 'const': work.append(r[2][1][0])
                elif r[0] in ('ref', 'refmut', 'raw'): work.append(r[1][0])
        return out
