"""Check harness: evidence, violations, known findings, common queries."""
import importlib, json, os, sys, time, traceback, hashlib
from .facts import *
from .flat import Flat, POLL
from .explore import Explorer, Model, T, F_, BAD, cbool, base_adt, place_ty
from .slice import Slicer

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Check:
    def __init__(self, pid, prog, tier):
        self.id = pid; self.prog = prog; self.tier = tier
        self.violations = []   # (key, message)
        self.counts = {}
        self.samples = []
        self.notes = []
        self.rules = []
        self.assumptions = []
        self.obligations = 0; self.discharged = 0
    # --- reporting
    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n
    def ob(self, ok, key, msg, sample=None):
        """One obligation: discharged, or reported under `key`."""
        self.obligations += 1
        if ok:
            self.discharged += 1
            if sample and len(self.samples) < 40: self.samples.append(sample)
        else: self.violate(key, msg)
        return ok
    def violate(self, key, msg):
        if not any(k == key for k, _ in self.violations): self.violations.append((key, msg))
    def floor(self, name, n, least):
        """A count must not fall below what was confirmed by hand."""
        self.counts[name] = n
        self.ob(n >= least, 'floor:' + name, 'only %d %s analysed, at least %d expected: the construct this property rests on has disappeared' % (n, name, least))
    def rule(self, text): self.rules.append(text)
    def need(self, x, key, what):
        """A required anchor."""
        if not x: self.violate('anchor:' + key, 'not found in the current source: ' + what)
        return x

def relevant(prog, pred):
    """Functions from which a call (resolved or by CHA) satisfying pred(Def) may be reached."""
    rev = {}
    seeds = set()
    for f in prog.fns:
        for d, line, k in prog.edges(f):
            if pred(d): seeds.add(f)
            if d.fn is not None: rev.setdefault(d.fn, []).append(f)
        # a closure/coroutine is reached from the function that creates it: edges has 'ref'
    seen = set(seeds); st = list(seeds)
    while st:
        f = st.pop()
        for g in rev.get(f, []):
            if g not in seen: seen.add(g); st.append(g)
    return seen

def run_main(argv):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    facts = os.path.join(os.environ.get('VERIF_WORK', os.path.join(HERE, 'work')), 'facts')
    verify_facts(facts)
    prog = Prog(facts)
    if len(prog.fns) < 8000: print('facts incomplete: %d bodies' % len(prog.fns), file=sys.stderr); return 2
    mod = importlib.import_module('props.' + pid)
    ck = Check(pid, prog, tier)
    mod.check(ck)
    known = load_known(pid)
    new = [(k, m) for k, m in ck.violations if k not in known]
    old = [(k, m) for k, m in ck.violations if k in known]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cov = {
        'explanation': mod.__doc__.strip() if mod.__doc__ else '',
        'rules': ck.rules,
        'bodies_in_program': len(prog.fns), 'crates': len(prog.crates),
        'obligations': ck.obligations, 'discharged': ck.discharged,
        'checker_cmd': './check.sh ' + pid,
        'counts': ck.counts, 'samples': ck.samples[:40] or ['(none)'],
        'known_findings': [k for k, _ in old],
        'new_violations': [{'key': k, 'message': m} for k, m in new],
        'notes': ck.notes,
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': ck.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    path = os.path.join(HERE, 'evidence', pid + '.json')
    with open(path, 'w') as fh: json.dump(ev, fh, indent=1)
    print('%s: %d obligations, %d discharged; %s' % (pid, ck.obligations, ck.discharged, ', '.join('%s=%s' % kv for kv in ck.counts.items())))
    for k, m in old: print('KNOWN-FINDING: property=%s %s -- %s' % (pid, k, known[k]))
    for k, m in new: print('  [%s] %s' % (k, m))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, path)); return 1
    return 0

def load_known(pid):
    """known_findings.txt: 'finding: property=<id> key=<key> :: <what fails>'."""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' key=', 1)[1]
                key, what = rest.split(' :: ', 1)
                out[key.strip()] = what.strip()
    return out

def verify_facts(facts):
    """The facts must describe the sources on disk now."""
    import glob
    repo = os.environ.get('VERIF_REPO', '/repo')
    pats = glob.glob(os.path.join(facts, '*.json'))
    if len(pats) < 40: sys.stderr.write('facts incomplete: %d crates\n' % len(pats)); sys.exit(2)
    for f in pats:
        with open(f) as fh: head = fh.readline()
        # the first line holds crate, kind, cwd and files
        d = json.loads(head.rstrip().rstrip(',') + '}')
        for name, lines, ln in d['files']:
            if name.startswith('<') or name.startswith('/'): continue
            p = os.path.join(d['cwd'], name)
            try:
                with open(p, 'rb') as fh: b = fh.read()
            except OSError:
                sys.stderr.write('stale facts: %s\n' % p); sys.exit(2)
            if b.startswith(b'\xef\xbb\xbf'): b = b[3:]
            b = b.replace(b'\r\n', b'\n')
            if len(b) != ln: sys.stderr.write('stale facts: %s (%d != %d)\n' % (p, len(b), ln)); sys.exit(2)

if __name__ == '__main__':
    sys.exit(run_main(sys.argv))
