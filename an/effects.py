"""Classification of external (non-workspace) primitives by callee path."""
import re

_FS_MUT = re.compile(r'''^(
  (std|tokio)::fs::(\w+::)?(write|remove_file|remove_dir|remove_dir_all|rename|create_dir|create_dir_all|copy|hard_link|soft_link|symlink\w*|set_permissions|set_times)$
 |(std|tokio)::fs::(file::)?File::(create|create_new|create_buffered|set_len|set_permissions|set_times|set_modified|options)$
 |(std|tokio)::fs::(dir_builder::)?DirBuilder::create$
 |(std|tokio)::fs::(open_options::)?OpenOptions::(write|append|create|create_new|truncate)$
 |std::os::\w+::fs::(symlink\w*|chown|lchown|fchown|chroot|\w*write\w*)
 |.*std::os::unix::fs::FileExt::(write\w*)$
 |(std|tokio)::process::.*Command::new$|std::process::Command::.*|tokio::process::.*
 |libc::.*|nix::.*|rustix::.*|tempfile::.*|memmap.*|filetime::.*|fs_extra::.*|trash::.*|atomicwrites::.*|async_fs::.*
)''', re.X)

_WRITE_METHOD = re.compile(r'(::Write::(write\w*|by_ref)|AsyncWriteExt::(write\w*)|::AsyncWrite::poll_write\w*|as (std|alloc)::io::(\w+::)?Write>::write\w*|as core::fmt::Write>::write_\w+|BufWriter|LineWriter)')
_COPY = re.compile(r'^(alloc|std|tokio)::io::(\w+::)*copy(_buf|_bidirectional)?$')

FILE_TYPES = ('std::fs::File', 'tokio::fs::file::File')

def mentions_file(ty):
    return any(x in ty.s for x in FILE_TYPES)

def fs_mutator(d, call=None):
    """Is this callee (with this call's operand types) a primitive that can change the file system?"""
    p = d.path
    if _FS_MUT.match(p): return True
    if (_WRITE_METHOD.search(p) or _COPY.match(p) or p.endswith('write_fmt')) and call is not None:
        tys = list(call.argtys) + list(call.func[1].args if call.func[0] == 'const' else ())
        if any(mentions_file(t) for t in tys): return True
    return False

def sites(prog, fns, pred):
    """(fn, bb, call) of calls in fns whose callee satisfies pred(def, call)."""
    for f in fns:
        for bi, c in f.calls():
            d = c.callee
            if d is not None and (pred(d, c) or (c.decl is not d and pred(c.decl, c))): yield f, bi, c

def net_primitive(d):
    p = d.path
    if p.startswith('reqwest::') and re.search(r'::(send|execute|get|post|put|head|delete|patch|request|fetch)$', p): return True
    if re.match(r'^(std|tokio)::net::', p): return True
    if re.match(r'^(hyper|hyper_util|h2|ureq|isahc|curl|surf|attohttpc|minreq|gloo_net|web_sys)::', p): return True
    if p == 'reqwest::get': return True
    return False
