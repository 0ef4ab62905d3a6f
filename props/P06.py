"""Provenance of what is stored in and read from the cache directory, path exploration of the cache reader under
assumed option values (no_cache, expired, fresh), and of every fetching function under failing fetches."""
from props.common import *
from props import P05
from props.P05 import GET, LocalFlow, off_owners, options_flow

import re
FSREAD = re.compile(r'^(std|tokio)::fs::((\w+::)?read(_to_string)?|(file::)?File::open|(open_options::)?OpenOptions::open)$')
SAVE = 'tombi_cache::save_to_cache'
CREAD = 'tombi_cache::read_from_cache'

def is_fsread(d): return d is not None and FSREAD.match(d.path) is not None

class CacheRead(Model):
    """astate: set of {'read'}"""
    init = (False, False)
    def __init__(self, no_cache=None, expired=None): self.no_cache = no_cache; self.expired = expired; self.reads = set(); self.cmps = set(); self.opt = 0
    def read(self, X, bi, p, owner):
        if self.no_cache is not None and p[1]:
            if p[1][-1] == ('f', 'no_cache'):
                self.opt += 1
                return [((), ('v', OPT, 'Some')), ((('d', 'Some'), ('f', '0')), cbool(self.no_cache))]
            if p[1][-3:] == (('f', 'no_cache'), ('d', 'Some'), ('f', '0')): return cbool(self.no_cache)
    def call(self, X, bi, c, env, argv):
        d = c.decl
        if d is None: return None
        last = d.path.rsplit('::', 1)[-1]
        if last in ('gt', 'lt', 'ge', 'le') and len(c.args) == 2 and all('core::time::Duration' in t.s for t in c.argtys) and self.expired is not None:
            el = [any(t[0] == 'call' and t[1].rsplit('::', 1)[-1] in ('elapsed', 'duration_since', 'sub') for t in X.sl.operand(X.F, a)) for a in c.args]
            if el.count(True) != 1: return None
            # expired: elapsed > ttl
            gt = self.expired if el[0] else not self.expired   # is left greater than right
            return cbool(gt if last in ('gt', 'ge') else not gt)
        if d.path.endswith('::elapsed') and self.expired is not None: return ('v', RES, 'Ok')
        if d.path.endswith('::modified') and self.expired is not None: return ('v', RES, 'Ok')
        if d.path.endswith('::is_file') and self.expired is not None: return T
        if d.path.endswith('fs::metadata') and self.expired is not None and is_result(X.F.ltys[c.dest[0]]): return ('v', RES, 'Ok')
    def call_alts(self, X, bi, c, env, argv, a):
        if self.expired is not None and bi not in self.cmps and self.call(X, bi, c, env, argv) in (T, F_) and c.decl.path.rsplit('::', 1)[-1] in ('gt', 'lt', 'ge', 'le'): self.cmps.add(bi)
        po = poll_output(X.F, c)
        if po is not None and is_result(po) and 'Metadata' in po.args[0].s and self.expired is not None: return [(ready_result('Ok'), a)]
    def on_call(self, X, bi, c, env, argv, a):
        if is_fsread(c.decl): self.reads.add(bi); return (True, a[1])
        if bi in self.cmps: return (a[0], True)
        return a

class AgeThenFetch(CacheRead):
    """astate: (a fetch followed an age test?, an age test was passed?)"""
    def on_call(self, X, bi, c, env, argv, a):
        if c.decl is not None and c.decl.path == GET and a[1]: return (True, a[1])
        if bi in self.cmps: return (a[0], True)
        return a

def ttl_fns(prog, live):
    """Functions that compare an age with a limit."""
    out = []
    for f in live:
        for bi, c in f.calls():
            d = c.decl
            if d is not None and d.path.rsplit('::', 1)[-1] in ('gt', 'lt', 'ge', 'le') and len(c.args) == 2 and all('core::time::Duration' in t.s for t in c.argtys) and any(x.callee is not None and x.callee.path.endswith('SystemTime::elapsed') for _, x in f.calls()):
                out.append(f)
    return out

class Fetch(Model):
    """Fetching functions, fetch fails or the store is offline: astate (failed?, stale cache consulted?, location of the copy asked for: remote?)"""
    init = (False, False, False)
    def __init__(self, offline): self.offline = offline; self.init = (offline, False, False); self.gets = set()
    def read(self, X, bi, p, owner):
        if p[1] and p[1][-1] == ('f', 'offline') and owner in X.offowners: return [((), ('v', OPT, 'Some')), ((('d', 'Some'), ('f', '0')), cbool(self.offline))]
        if p[1][-3:] == (('f', 'offline'), ('d', 'Some'), ('f', '0')): return cbool(self.offline)
    def call_alts(self, X, bi, c, env, argv, a):
        po = poll_output(X.F, c)
        if po is not None and is_result(po) and po.args[-1].s.endswith('FetchError'):
            self.gets.add(bi)
            return [(ready_result('Err'), (True, a[1], a[2]))]
    def on_call(self, X, bi, c, env, argv, a):
        d = c.callee
        if d is not None and d in X.stale: return (a[0], True, a[2])
        if d is not None and d.path in CACHE_PATH: return (a[0], a[1], True)
        return a

def check(ck):
    prog = ck.prog
    mr = ck.need(main_root(prog), 'main', 'binary entry point')
    live = shipped(prog, [mr])
    stops = cache_path_fns(prog)
    # a. who writes: nothing outside the cache path functions' results
    fmt = set()
    for f in in_place_formatters(prog): fmt |= {g for g in prog.reach([f], stop=lambda d: d.crate != 'tombi')}
    fmt |= {f for f in live if f.crate.name == 'tombi' and any(effects.fs_mutator(c.callee, c) for _, c in f.calls() if c.callee is not None)}
    conf, other = confined_sites(prog, [f for f in live if f not in fmt])
    for f, bi, c in other:
        ck.ob(False, 'outside:' + prog.outer(f).path, '%s writes to a path that does not come from the cache location (%s)' % (prog.outer(f).path, f.loc(c.line)))
    for f, bi, c in conf: ck.ob(True, '', '', sample='%s: %s only under the cache directory' % (prog.outer(f).path, c.callee.path))
    ck.floor('cache_write_sites', len(conf), 4)
    # b. what is saved: the bytes of a successful fetch, under the path of the fetched location
    lf = Slicer(prog, follow=False)
    n = 0
    for f in live:
        for bi, c in f.calls():
            if c.callee is None or c.callee.path != SAVE: continue
            n += 1
            o = prog.outer(f)
            body = f
            tk = lf.operand(body, c.args[1])
            up = lf.up(body, c.args[1])
            got = any(t[0] == 'call' and t[1] == GET for t in up | tk)
            other_src = [t for t in up if t[0] == 'str' and len(t[1]) > 0]
            ck.ob(got, 'saved-bytes:' + o.path, '%s stores something that was not fetched in the cache (%s)' % (o.path, f.loc(c.line)))
            # same location
            pt = lf.up(body, c.args[0])
            gets = [x for _, x in body.calls() if x.decl is not None and x.decl.path == GET]
            if gets:
                def src(ts): return {t for t in ts if t[0] == 'param' and ('Uri' in _pty(prog, t) or _pty(prog, t).endswith('str'))}
                lt = LocalFlow(prog)
                a = src(lt.toks(body, c.args[0])); b = src(lt.toks(body, gets[0].args[1]))
                viacache = any(t[0] == 'call' and t[1] in stops for t in lt.toks(body, c.args[0])) or any(t[0] == 'param' and 'Path' in _pty(prog, t) for t in lt.toks(body, c.args[0]))
                ck.ob(viacache, 'saved-path:' + o.path, '%s saves under a path that is not the cache path (%s)' % (o.path, f.loc(c.line)))
                if a: ck.ob(a == b, 'saved-under-other:' + o.path, '%s saves the content of %s under the cache path of %s (%s)' % (o.path, sorted(b), sorted(a), f.loc(c.line)))
    ck.floor('cache_save_sites', n, 4)
    # the path handed down next to a URL is the cache path of that URL
    for f in live:
        for bi, c in f.calls():
            if c.func[0] != 'const': continue
            for d in prog.callees_of_const(c.func[1]):
                g = d.fn
                if g is None or g.kind in ('closure', 'coroutine') or not any(x.callee is not None and x.callee.path == SAVE for h in [prog.body_of(g)] for _, x in h.calls()): continue
                pi = [i for i, t in enumerate(c.argtys) if 'Path' in t.s]; ui = [i for i, t in enumerate(c.argtys) if t.peel().s == 'str' or 'Uri' in t.s]
                if not pi or not ui: continue
                lt = LocalFlow(prog)
                pa = {t for t in lt.toks(f, c.args[pi[0]]) if t[0] == 'param'}; ua = {t for t in lt.toks(f, c.args[ui[0]]) if t[0] == 'param'}
                viacache = any(t[0] == 'call' and t[1] in stops for t in lt.toks(f, c.args[pi[0]]))
                ck.ob(viacache and (not ua or bool(pa & ua)), 'path-of-url:' + prog.outer(f).path, '%s pairs a URL with the cache path of something else (%s)' % (prog.outer(f).path, f.loc(c.line)))
                ck.count('url_path_pairs')
    # only successful responses
    gb = [f for f in live if f.kind in ('coroutine',) and prog.outer(f).path.endswith('HttpClient>::get_bytes') and any(effects.net_primitive(c.callee) for _, c in f.calls() if c.callee is not None)]
    if ck.need(gb, 'get_bytes', 'the HTTP client implementation'):
        for f in gb:
            F = Flat(prog, prog.outer(f), lambda g, fr, c: g.crate.name == f.crate.name and (g is f or g.kind == 'closure'))
            class St(Model):
                init = None
                def call(self, X, bi, c, env, argv):
                    if c.decl is not None and c.decl.path.endswith('StatusCode::is_success'): X.st.add(bi); return F_
                    if c.decl is not None and c.decl.path.endswith('StatusCode::is_client_error'): return None
                def on_call(self, X, bi, c, env, argv, a):
                    if c.decl is not None and c.decl.path.endswith('Response::bytes'): X.bytes.add(bi); return '!the body of an unsuccessful response is used'
                    return a
            X = Explorer(F, St()); X.st = set(); X.bytes = set(); X.run()
            ck.ob(len(X.st) >= 1, 'status-test', 'the status of a response is not tested')
            for st, msg, bi, line in X.bad: ck.ob(False, 'status', '%s (%s)' % (msg, F.loc(bi, line)))
    layout(ck, prog)
    # c. no_cache: the reader does not read; d. TTL
    rf = ck.need(prog.fn(CREAD), 'read_from_cache', 'the cache reader')
    if rf:
        pol = lambda g, fr, c: g.crate.name == 'tombi_cache'
        def run(**kw):
            F = Flat(prog, rf, pol); m = CacheRead(**kw); X = Explorer(F, m); X.sl = Slicer(prog, follow=False)
            X.run({(i, ()): ('v', OPT, 'Some') for i in range(1, rf.ac + 1) if rf.ltys[i].s.startswith(OPT) and 'Options' in rf.ltys[i].s}); return F, m, X
        F, m, X = run(no_cache=True)
        ck.floor('no_cache_reads', m.opt, 1)
        for (a, r), st in X.final.items():
            ck.ob(not a[0] and r == ('Ok', ('v', OPT, 'None')), 'no_cache', 'the cache is read although it is disabled: %s' % ' ; '.join(X.witness(st)))
        F, m, X = run(no_cache=False)
        ck.ob(any(a[0] for a, r in X.final), 'cache-unused', 'the cache is not read although it is enabled')
        F, m, X = run(no_cache=False, expired=True)
        ck.floor('age_tests', len(m.cmps), 1)
        # ttl None (never expires) reads without an age test: only paths through the test count
        for (a, r), st in X.final.items():
            passed = a[1]
            if passed: ck.ob(not a[0] and r == ('Ok', ('v', OPT, 'None')), 'expired', 'an expired cache entry is used: %s' % ' ; '.join(X.witness(st)))
            else: ck.count('paths_without_age_test')
        F, m, X = run(no_cache=False, expired=False)
        ck.ob(any(a == (True, True) for (a, r), st in X.final.items()), 'fresh', 'a fresh cache entry is not used')
    ages = {prog.outer(f) for f in ttl_fns(prog, live)}
    inread = set(prog.reach([rf], stop=lambda d: d.crate != rf.crate.name)) if rf else set()
    near = {}
    for f in live:
        if not any(x.decl is not None and x.decl.path == GET for _, x in f.calls()): continue
        o = prog.outer(f)
        r = set(prog.reach([o], stop=lambda d: d.crate != o.crate.name))
        for g in ages & r:
            if g not in inread and g is not o: near.setdefault(o, set()).add(g)
        if o in ages: near.setdefault(o, set()).add(o)
    for o in sorted(near, key=lambda o: o.path):
        for exp in (True, False):
            F = Flat(prog, o, lambda g, fr, c: g.crate.name == o.crate.name); m = AgeThenFetch(expired=exp); X = Explorer(F, m); X.sl = Slicer(prog, follow=False); X.run()
            ck.count('age_tests_elsewhere', len(m.cmps)); ck.count('states', X.states)
            if not m.cmps: continue
            after = [st for (a, r), st in X.final.items() if a[1] and a[0]]
            if exp: ck.ob(bool(after), 'fresh-fn:' + o.path, '%s does not fetch again what has expired' % o.path)
            else:
                ck.ob(not after, 'refetch:' + o.path, '%s fetches what is still fresh: %s' % (o.path, ' ; '.join(X.witness(after[0], 6)) if after else ''))
    # content of cached files is only obtained through the reader
    k = 0
    for f, bi, c in ((f, bi, c) for f in live for bi, c in f.calls()):
        if not is_fsread(c.callee): continue
        o = path_operand(c)
        tk = Slicer(prog, follow=False, ok_only=True, stop_call=lambda p: p in stops).operand(f, o) if o is not None else set()
        k += 1
        if any(t[0] == 'call' and t[1] in stops for t in tk): ck.ob(prog.outer(f) is rf, 'other-reader:' + prog.outer(f).path, '%s reads a cached file without the cache reader, so no_cache and the lifetime are ignored (%s)' % (prog.outer(f).path, f.loc(c.line)))
    ck.count('file_read_sites', k)
    # e. stale entries are consulted when offline or when the fetch fails
    reads = set()
    callers = prog.callers()
    stale = set()
    for f in live:
        for b in f.blocks:
            for s in b.stmts:
                if s[0] == '=' and s[1][1] and s[1][1][-1] != '*' and s[1][1][-1][:2] == ('f', 'cache_ttl') and s[2][0] in ('agg', 'use'):
                    o = prog.outer(f)
                    if any(g.path == CREAD for g in prog.reach([o], stop=lambda d: d.crate in NOISE)):
                        isnone = s[2][0] == 'agg' and s[2][3] == 'None' or (s[2][0] == 'use' and ('agg', OPT, 'None') in Slicer(prog, follow=False).operand(f, s[2][1]))
                        ck.ob(isnone, 'stale-ttl:' + o.path, '%s is meant to ignore the lifetime of an entry but sets one (%s)' % (o.path, f.loc(s[3])))
                        if isnone: stale.add(o.d)
    ck.floor('stale_readers', len(stale), 3)
    nf = 0
    for f in sorted({prog.outer(f) for f in live for _, c in f.calls() if c.decl is not None and c.decl.path == GET}, key=lambda f: f.path):
        # a cached answer is what the function is for: it also reads the cache
        if not any(g.d in stale for g in prog.reach([f], stop=lambda d: d.crate in NOISE)): continue
        nf += 1
        for off in (True, False):
            F = Flat(prog, f, lambda g, fr, c: (g.kind in ('closure', 'coroutine') or len(g.blocks) <= 25) and g.d not in stale and g.crate.name not in NOISE and 'HttpClient' not in prog.outer(g).path and prog.outer(g).path not in CACHE_PATH)
            m = Fetch(off); X = Explorer(F, m); X.stale = stale
            # a function that is handed the cache path only deals with remote locations
            if not any(b.term[0] == 'call' and b.term[1].callee is not None and b.term[1].callee.path in CACHE_PATH for b in F.blocks): m.init = (off, False, True)
            X.offowners = off_owners(prog, 'offline')
            env = {}
            for i in range(1, f.ac + 1):
                if f.ltys[i].k == 'bool': env[(i, ())] = cbool(off)
            X.run(env); ck.count('states', X.states)
            # only paths that concern a remote location: either a fetch failed, or (offline) the cache was asked
            for (a, r), st in X.final.items():
                failed, asked, remote = a
                if failed and remote and not _hit(r): ck.ob(asked, 'no-fallback:%s:%s' % (f.path, off), '%s gives up %s without looking for a cached copy: %s' % (f.path, 'offline' if off else 'after a failed fetch', ' ; '.join(X.witness(st, 6))))
            if not off: ck.ob(len(m.gets) >= 1, 'no-fetch:' + f.path, '%s never fetches' % f.path)
    ck.floor('fetching_functions_with_fallback', nf, 3)
    k = options_flow(ck, prog, live, 'tombi_cache::options::Options', 'no_cache')
    ck.floor('cache_option_constructions', k, 3)
    ck.rule('fetched bytes only, under the path of the fetched location; no_cache => no read; expired => not used; offline or failed fetch => stale copy consulted')

PLAIN = re.compile(r'::(deref|as_ref|borrow|to_string|to_owned|into|from|as_str|next|into_iter|iter|clone|by_ref|as_deref|scheme|host|host_str|domain|path_segments|port|port_or_known_default|get_tombi_cache_dir_path|extend|fold|for_each|unwrap_or_default|into_future|poll|new_unchecked|get_context|branch)$')
CLEAN = re.compile(r'::(trim_start_matches|trim_matches|strip_prefix|split\w*|trim_left_matches|components|encode\w*|hash|digest|finish|index|get)$')

def layout(ck, prog):
    """Where in the cache directory the copy of a location lies: each appended component is the scheme, the host or one
    unchanged segment of the path of the location (none of which holds a separator), or a constant; all three appear."""
    g = ck.need(prog.fn('tombi_cache::get_cache_file_path'), 'cache-path', 'the function that derives the cache path')
    if not g: return
    sl = Slicer(prog, follow=False); seen = set(); unknown = False; n = 0
    for f in prog.reach([g], stop=lambda d: d.crate != g.crate.name):
        for bi, c in f.calls():
            d = c.decl
            if d is None or len(c.args) < 2: continue
            last = d.path.rsplit('::', 1)[-1]
            if not (d.path.startswith('std::path::') and last in ('push', 'join', 'set_file_name') or last == 'extend' and 'PathBuf' in c.argtys[0].s): continue
            n += 1
            for a in c.args[1:]:
                toks = sl.up(f, a) if f.kind == 'fn' else sl.operand(f, a)
                calls = {t[1] for t in toks if t[0] == 'call'}
                url = {x.rsplit('::', 1)[-1] for x in calls if x.startswith('url::')}
                strs = [t[1] for t in toks if t[0] == 'str']
                other = sorted(x for x in calls if not PLAIN.search(x) and not x.startswith('url::'))
                part = [x for x in other if re.search(r'::(next_back|last|nth|nth_back|take|skip|first|rsplit_once)$', x)]
                other = [x for x in other if x not in part]
                seen |= url - {'path_segments'} if part else url
                ck.count('cache_path_components')
                if url & {'path'} and not any(CLEAN.search(x) for x in other):
                    ck.ob(False, 'absolute-component', 'the whole path of a location is appended to the cache directory: it starts with a separator and so replaces the directory (%s)' % f.loc(c.line)); continue
                if 'path_segments' in url:
                    dec = [x for x in other if re.search(r'decode|unescape', x)]
                    if any(x.rsplit('::', 1)[-1] in ('replace', 'replacen', 'replace_range') for x in other) and any('/' in t or '\\' in t or '..' in t for t in strs): dec.append('replace')
                    ck.ob(not dec, 'decoded-component', 'a segment of a location is decoded (%s) before it is appended to the cache directory, so it can hold a separator or `..` (%s)' % (', '.join(dec), f.loc(c.line)), sample='cache path component %s: %s' % (f.loc(c.line), sorted(url)))
                if other: unknown = True; ck.notes.append('cache path component at %s goes through %s' % (f.loc(c.line), other[:3]))
                elif not url and any(t[0] == 'upvar' or t[0] == 'param' for t in toks) and not any('get_tombi' in x or 'var_os' in x for x in calls): unknown = True
    ck.floor('cache_path_appends', n, 3)
    for what, names in (('scheme', {'scheme'}), ('host', {'host', 'host_str', 'domain', 'authority'}), ('path', {'path_segments', 'path'})):
        if unknown or seen & {'as_str', 'to_string', 'into_string'}: ck.notes.append('whether the cache path depends on the %s of the location is not decided' % what)
        else: ck.ob(bool(seen & names), 'shared-entry:' + what, 'locations that differ in their %s share one cache entry: the cache path does not depend on it (%s)' % (what, g.file))

def _pty(prog, t):
    f = prog.fn(t[1])
    return f.ltys[t[2]].s if f is not None and t[2] < len(f.ltys) else ''

def _hit(r): return r is not None and (r[0] == 'Some' or (r[0] == 'Ok' and isinstance(r[1], tuple) and r[1][0] == 'v' and r[1][2] == 'Some'))
