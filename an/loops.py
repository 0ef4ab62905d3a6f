"""Which loop iterations enclose a block."""
from .facts import succs

def reachable(F, start, without=()):
    seen = set(); st = [start]
    while st:
        b = st.pop()
        if b in seen or b in without: continue
        seen.add(b); st.extend(succs(F.blocks[b].term))
    return seen

def none_edge(F, bi):
    """The block entered when the iterator asked in block bi is exhausted."""
    b = F.blocks[bi].term[1].target
    for _ in range(12):
        if b is None: return None
        t = F.blocks[b].term
        if t[0] == 'switch':
            d = dict(t[2])
            return d.get('0', t[3] if '1' in d else None)
        s = succs(t)
        if len(s) != 1: return None
        b = s[0]
    return None

class Loops:
    def __init__(self, F, is_next):
        self.F = F
        self.sites = {}
        for i, b in enumerate(F.blocks):
            if b.term[0] == 'call' and is_next(b.term[1]):
                r = set()
                for s in succs(b.term): r |= reachable(F, s)
                if i not in r: continue
                n = none_edge(F, i)
                if n is None: continue
                self.sites[i] = (r, reachable(F, n, without=(i,)))
    def enclosing(self, bi):
        """The iterator sites whose loop body contains block bi."""
        return {s for s, (r, n) in self.sites.items() if bi in r and bi not in n}

def preds(F):
    p = {}
    for i, b in enumerate(F.blocks):
        for s in succs(b.term): p.setdefault(s, []).append(i)
    return p

def natural(F, h, pr):
    """The natural loop whose header is h, or None."""
    fw = reachable(F, h); ent = reachable(F, 0, without=(h,))
    st = [t for t in pr.get(h, []) if t in fw and t not in ent]
    if not st: return None
    body = {h}
    while st:
        x = st.pop()
        if x not in body: body.add(x); st.extend(pr.get(x, []))
    return body

def iterations(F, is_next):
    """(block of the next call, natural loop, edges that leave it before the iterator is exhausted)"""
    pr = preds(F); out = []
    for i, b in enumerate(F.blocks):
        if b.term[0] != 'call' or not is_next(b.term[1]): continue
        j = i; body = natural(F, j, pr)
        while body is None and len(pr.get(j, [])) == 1: j = pr[j][0]; body = natural(F, j, pr)
        if body is None: continue
        ne = none_edge(F, i)
        out.append((i, body, [(x, s) for x in sorted(body) for s in succs(F.blocks[x].term) if s not in body and s != ne and F.blocks[s].term[0] not in ('unreach', 'resume')]))
    return out
