"""Schema validation: every keyword of a schema decides the result, and what it decides is reported."""
from props.vx import *
from props import kw
from an.loops import iterations, none_edge, reachable

V = VAL + 'validate::'
SS = 'tombi_schema_store::schema::'
def kebab(s): return ''.join('-' + x.lower() if x.isupper() else x for x in s).lstrip('-')

def policy(prog):
    keep = {}
    def pol(g, fr, c):
        p = g.path
        if g.crate.name == 'tombi_comment_directive': return g.name in ('enum', 'r#enum')
        if g.crate.name == 'tombi_severity_level': return False
        if 'table_schema::TableSchema' in p and g.kind in ('fn', 'assoc') and g.ltys and g.ltys[0].s in ('bool', 'core::option::Option<bool>', 'Option<bool>'): return True
        if g.crate.name != 'tombi_validator': return False
        if p.startswith(V + 'format::') or '::comment_directive::' in p: return False
        o = prog.outer(g) if g.kind in ('closure', 'coroutine') else g
        if g.kind in ('closure', 'coroutine') and o.path in fr_paths(fr): return True
        if 'match_evidence::' in o.path or 'PartialEq' in o.path or o.path.startswith(VAL + 'valid') and not o.path.startswith(V): return False
        if o.name in ('push_diagnostic_with_level', 'handle_unused_noqa', 'is_multiple_of_with_tolerance', 'mark_type_match', 'get_duplicated_ranges', 'convert_deprecated_diagnostics_range', 'schema_resolution_diagnostic', 'project_current_schema_for_value'): return False
        if o.path.startswith(VAL + 'convert'): return False
        if o.path.startswith(V) and CHILD.match(o.name): return False
        return True
    return pol
# what validates against a schema of its own; everything else is looked into
CHILD = re.compile(r'validate(_(adjacent_applicators|(all|any|one)_of|not|if_then_else|(array|table)(_without_schema)?|boolean|float(_schema_for_integer)?|integer(_schema)?|key_empty_rule|like_string|(offset|local)_date_time|local_(date|time)|(mismatched|resolved)_schema|string(_as_date_format)?))?$|collect_evaluated|validate_format$|validate_timezone$|validate_uri_component$')
def fr_paths(fr):
    out = set(); n = 0
    while fr is not None and n < 12:
        f = getattr(fr, 'fn', None)
        if f is not None:
            out.add(f.path); p = f
            while p is not None and p.par is not None and p.kind in ('closure', 'coroutine'):
                p = p.par.fn
                if p is not None: out.add(p.path)
        fr = getattr(fr, 'parent', None); n += 1
    return out

NUM = ('maximum', 'minimum', 'exclusive_maximum', 'exclusive_minimum')
VIO = {'maximum': ('gt',), 'minimum': ('lt',), 'exclusive_maximum': ('gt', 'eq'), 'exclusive_minimum': ('lt', 'eq'),
       'max_length': ('gt',), 'min_length': ('lt',), 'max_items': ('gt',), 'min_items': ('lt',), 'max_properties': ('gt',), 'min_properties': ('lt',),
       'multiple_of': ('vio',), 'const_value': ('vio',), 'enum': ('vio',), 'pattern': ('vio',), 'max_contains': ('gt',), 'min_contains': ('lt',)}
def sat(f): return [r for r in (('lt', 'eq', 'gt') if VIO[f][0] not in ('sat', 'vio') else ('sat',)) if r not in VIO[f]]
def camel(s): return ''.join(x.capitalize() for x in s.split('_'))
COMMON = {'const_value': ('Const', 'const_value'), 'enum': ('Enum', 'enum')}
def numtab(k): return dict(COMMON, **{f: (k + camel(f), k.lower() + '_' + f) for f in NUM + ('multiple_of',)})
TEMPORAL = dict(COMMON)

class Run:
    def __init__(self, ck, prog): self.ck = ck; self.prog = prog; self.flats = {}; self.sl = Slicer(prog, follow=False); self.adt = {}; self.states = 0
    def flat(self, fn):
        if fn.path not in self.flats: self.flats[fn.path] = Flat(self.prog, fn, policy(self.prog))
        return self.flats[fn.path]
    def ftype(self, owner, f):
        a = self.prog.adts.get(owner)
        if a is None or a.kind == 'enum': return None
        for n, t, _ in a.fields():
            if n == f: return t
        return None
    def measure(self, F, o):
        tk = self.sl.operand(F, o)
        return {t[1].rsplit('::', 1)[-1] for t in tk if t[0] == 'call'}
    def go(self, fn, m, cap=400):
        F = self.flat(fn)
        X = VX(F, m, cap=cap, max_states=150000)
        X.ftype = self.ftype; X.measure = lambda o: self.measure(F, o)
        X.run(); self.states += X.states
        if m.eqblocks and not m.eqheads:
            # an element looked for one by one: the innermost loops around the comparison
            L = [(i, body) for i, body, _ in iterations(F, lambda c: c.callee is not None and c.callee.path.endswith('::next'))]
            for b in m.eqblocks:
                l = sorted((len(body), i) for i, body in L if b in body)
                if l: m.eqheads.add(l[0][1])
            if m.eqheads: self.ck.count('searches'); return self.go(fn, m, cap)
        return F, X

def judge(run, key, fn, m, F, X, what, fail, need=None):
    """Compare every result with the one the schema demands."""
    ck = run.ck; bad = None
    for st, msg, bi, line in X.bad[:1]: bad = '%s (%s): %s' % (msg, F.loc(bi, line), ' ; '.join(X.witness(st, 4)))
    und = X.overflow or not X.final and not X.bad
    for (a, r), st in X.final.items():
        if bad: break
        _, v, f, s, tags, ch, must, loop = a
        w = ' ; '.join(X.witness(st, 4))
        exp = fail(a) if callable(fail) else fail
        if v is None: und = True; continue
        miss = m.kinds - tags if exp and m.kinds and not getattr(m, 'soft', 0) else set()
        skip = need(a) if need else ()
        if skip: bad = 'the subschema of %s is not applied (%s)' % (' and '.join(skip), w); break
        if miss: bad = 'nothing is reported (%s) (%s)' % (', '.join(sorted(miss)), w)
        elif exp is True and v == 'Ok': bad = 'the value is accepted (%s)' % w
        elif exp is True and f == F_: bad = 'the result does not count as a failed assertion (%s)' % w
        elif exp is False and v == 'Err' and f == T: bad = 'the value is rejected (%s)' % w
        elif s is not None and must - s: bad = 'the report of %s is lost (%s)' % (', '.join(sorted(must - s)).replace('~', 'a subschema: '), w)
        elif exp is True and s is not None and not s and not any(o == 'off' for _, o in ch) and not any(isinstance(t, str) for t in tags): bad = 'nothing is reported (%s)' % w
        elif f is None: und = True
        elif s is None: ck.count('lists_unknown')
    if bad is None and und:
        ck.count('undecided'); ck.notes.append('%s: not decided (%s)' % (fn.path, what)); return None
    ck.ob(bad is None, key, '%s: when %s: %s' % (fn.path.split('::{')[0], what, bad))
    return bad is None

REL_TXT = {'lt': 'the value is below %s', 'gt': 'the value is above %s', 'eq': 'the value equals %s', 'vio': 'the value violates %s', 'sat': 'the value satisfies %s'}
def text(rel): return ' and '.join(REL_TXT[r] % f for f, r in sorted(rel.items()))

FORMATS = {'DateTimeLocal': 'local_date_time', 'TimeLocal': 'local_time'}
def snake(s): return ''.join('_' + x.lower() if x.isupper() else x for x in s).lstrip('_')

class SM(VM):
    """String formats: the checker called must be the one of the format."""
    def call_alts(self, X, bi, c, env, argv, a):
        p = c.callee.path if c.callee is not None else ''
        if p.startswith(V + 'format::') and p.endswith('::validate_format'):
            w = self.variants.get('format')
            if w is not None:
                if p.split('::')[-2] != FORMATS.get(w, snake(w)): return [([], '!the format %s is checked as %s' % (w, p.split('::')[-2]))]
                self.compared.setdefault('format', set()).add(p)
                return [([((), cbool(self.rel.get('format') == 'sat'))], a)]
        return VM.call_alts(self, X, bi, c, env, argv, a)
    def variant(self, X, bi, v, adt):
        if fld(v) == 'format' and adt.endswith('StringFormat'): return self.variants.get('format')
        return VM.variant(self, X, bi, v, adt)

def keywords(run, fn, adt, table, measured=None, extra=None, mk=VM, other=()):
    """Every keyword alone and every pair of keywords, in every outcome."""
    ck = run.ck
    rules = {k: r for k, r in table.values() if r}
    if extra: rules.update(extra)
    fs = sorted(table)
    have = {n for n, _, _ in run.prog.adts[adt].fields()} if adt in run.prog.adts else set()
    fs = [f for f in fs if ck.need(f in have or None, '%s.%s' % (adt.rsplit('::', 1)[-1], f), 'a schema keyword')]
    def one(rel):
        vio = {f for f, r in rel.items() if r in VIO[f]}
        m = mk({adt}, {f: None for f in rel}, dict(rel), [table[f][0] for f in vio], rules=rules, other=other)
        F, X = run.go(fn, m)
        ok = judge(run, '%s:%s' % (adt.rsplit('::', 1)[-1], ','.join('%s=%s' % x for x in sorted(rel.items()))), fn, m, F, X, text(rel) if rel else 'no keyword is present', bool(vio))
        ck.count('runs')
        for u in m.unknown: ck.notes.append('%s: %s not interpreted' % (fn.path, u))
        return m, ok
    one({})
    for f in fs:
        for r in VIO[f] + tuple(sat(f)):
            m, ok = one({f: r})
            ck.count('keyword_outcomes')
        if measured and f in measured:
            want, forbid = measured[f]; got = m.measured.get(f, set())
            ck.ob(bool(got & want) and not got & forbid, '%s.%s:measure' % (adt.rsplit('::', 1)[-1], f), '%s: %s is compared with %s' % (fn.path.split('::{')[0], f, ', '.join(sorted(got)) or 'something else than the value'))
    for i, f in enumerate(fs):
        for g in fs[i + 1:]:
            one({f: VIO[f][0], g: VIO[g][0]}); one({f: VIO[f][0], g: sat(g)[0]}); one({f: sat(f)[0], g: VIO[g][0]})

def root(prog, name, kind='coroutine'):
    l = [f for f in prog.fns if f.crate.name == 'tombi_validator' and f.path == V + name + '::{closure#0}' and f.kind == kind]
    return l[0] if l else None

STRING = dict(COMMON, max_length=('StringMaxLength', 'string_max_length'), min_length=('StringMinLength', 'string_min_length'), pattern=('StringPattern', 'string_pattern'))
ARRAY = dict(COMMON, max_items=('ArrayMaxValues', 'array_max_values'), min_items=('ArrayMinValues', 'array_min_values'))
TABLE = dict(COMMON, max_properties=('TableMaxKeys', 'table_max_keys'), min_properties=('TableMinKeys', 'table_min_keys'))

KEYKINDS = ('TableStrictAdditionalKeys', 'KeyNotAllowed')
def scalars(run):
    prog = run.prog; ck = run.ck
    for name, adt, tab, meas in (
        ('integer::validate_integer_schema', 'integer_schema::IntegerSchema', numtab('Integer'), None),
        ('integer::validate_float_schema_for_integer', 'float_schema::FloatSchema', numtab('Integer'), None),
        ('float::validate_float', 'float_schema::FloatSchema', numtab('Float'), None),
        ('boolean::validate_boolean', 'boolean_schema::BooleanSchema', COMMON, None),
        ('offset_date_time::validate_offset_date_time', 'offset_date_time_schema::OffsetDateTimeSchema', TEMPORAL, None),
        ('local_date_time::validate_local_date_time', 'local_date_time_schema::LocalDateTimeSchema', TEMPORAL, None),
        ('local_date::validate_local_date', 'local_date_schema::LocalDateSchema', TEMPORAL, None),
        ('local_time::validate_local_time', 'local_time_schema::LocalTimeSchema', TEMPORAL, None),
        ('string::validate_string', 'string_schema::StringSchema', STRING, {'max_length': ({'graphemes'}, {'len', 'bytes', 'chars'}), 'min_length': ({'graphemes'}, {'len', 'bytes', 'chars'})}),
        ('array::validate_array', 'array_schema::ArraySchema', ARRAY, {'max_items': ({'values'}, set()), 'min_items': ({'values'}, set())}),
        ('table::validate_table', 'table_schema::TableSchema', TABLE, {'max_properties': ({'keys', 'key_values', 'len'}, set()), 'min_properties': ({'keys', 'key_values', 'len'}, set())}),
    ):
        fn = ck.need(root(prog, name), V + name, 'a schema validator')
        if fn: keywords(run, fn, SS + adt, tab, meas, other=KEYKINDS if 'table' in name else ())

ARR = SS + 'array_schema::ArraySchema'; TAB = SS + 'table_schema::TableSchema'
SCALAR_FNS = ('integer::validate_integer_schema', 'integer::validate_float_schema_for_integer', 'float::validate_float', 'boolean::validate_boolean', 'offset_date_time::validate_offset_date_time',
    'local_date_time::validate_local_date_time', 'local_date::validate_local_date', 'local_time::validate_local_time', 'string::validate_string')
ADJ = ('one_of', 'any_of', 'all_of', 'not')
CHILDREN = [('array::validate_array', ARR, [('if_then_else',), ('items',), ('prefix_items',), ('prefix_items', 'additional_items_schema'), ('prefix_items', 'items'), ('unevaluated_items_schema',), ADJ]),
    ('table::validate_table', TAB, [('if_then_else',), ('properties',), ('pattern_properties',), ('additional_property_schema',), ('unevaluated_property_schema',), ('dependencies',), ('dependent_schemas',), ('property_names',), ADJ])]
def failed(ch): return any(o in ('fail', 'off') for _, o in ch)
def needs(fs):
    """every way through applies the subschemas fs"""
    def f(a):
        got = {x for c, _ in a[5] for x in c.split('+')}
        return [x for x in fs if x not in got]
    return f

def children(run):
    prog = run.prog; ck = run.ck
    sch = {'integer': 'Integer', 'float': 'Float', 'boolean': 'Boolean', 'string': 'String', 'offset_date_time': 'OffsetDateTime', 'local_date_time': 'LocalDateTime', 'local_date': 'LocalDate', 'local_time': 'LocalTime'}
    todo = list(CHILDREN)
    for n in SCALAR_FNS:
        t = 'float' if 'float_schema' in n else n.split('::')[0]
        todo.append((n, SS + '%s_schema::%sSchema' % (t, sch[t]), [('if_then_else',), ADJ]))
    for name, adt, carriers in todo:
        fn = ck.need(root(prog, name), V + name, 'a schema validator')
        if not fn: continue
        for car in carriers:
            bad = None; seen = set(); und = False
            for o in ('warn', 'fail', 'off', 'warn+fail'):
                m = VM({adt}, {f: None for f in car}, {'dependencies': 'sat', 'dependent_schemas': 'sat', 'properties': 'sat' if 'properties' in car else 'vio', 'pattern_properties': 'sat'}, [], outcomes=('ok', o) if '+' not in o else tuple(o.split('+')), variants={('dependencies', TAB.rsplit('::', 1)[0] + '::Dependency'): 'Schema'}, other=KEYKINDS + ('KeyPattern',))
                F, X = run.go(fn, m)
                judge(run, 'child:%s:%s:%s' % (name.split('::')[1], '+'.join(car), o), fn, m, F, X, 'the subschema of %s is applied and gives %s' % (' and '.join(car), OUT[o]), lambda a: failed(a[5]), need=needs(car) if car is ADJ else None)
                ck.count('runs'); seen |= {x for c in m.children for x in c.split('+')}
            for f in car:
                if f == 'prefix_items' and len(car) > 1: continue
                ck.ob((f in seen or 'self' in seen and f == 'if_then_else'), 'applied:%s:%s' % (name.split('::')[1], f), '%s never applies the subschema of %s' % (fn.path.split('::{')[0], f))
OUT = {'warn+fail': 'warnings and failures', 'ok': 'success', 'warn': 'a warning', 'fail': 'a failure', 'off': 'a failure whose report is switched off'}

# ---------------------------------------------------------------- combining schemas
class CM(VM):
    twice = True
    keep = ('warn', 'fail')
    def kept(self, cid, o): return o in (self.keep.get(cid, ()) if isinstance(self.keep, dict) else self.keep)

def counts_later(fn):
    """A loop that counts without validating anything."""
    for bi, body, _ in iterations(fn, lambda c: c.decl is not None and c.decl.path == 'core::iter::traits::iterator::Iterator::next'):
        if any(fn.blocks[x].term[0] == 'call' and fn.blocks[x].term[1].decl is not None and fn.blocks[x].term[1].decl.path == 'core::future::future::Future::poll' for x in body): continue
        if any(s[0] == '=' and s[2][0] == 'bin' and s[2][1].startswith('Add') and s[2][3][0] == 'const' for x in body for s in fn.blocks[x].stmts): return True
    return False

def composites(run):
    prog = run.prog; ck = run.ck
    def passes(ch, c='schemas'): return sum(1 for x, o in ch if x == c and o.startswith(('ok', 'warn')))
    def adj(ch): return any(o in ('fail', 'off') for x, o in ch if x != 'schemas')
    def anyf(ch): return any(x == 'schemas' for x, _ in ch)
    ADJS = {'not': None, 'if_then_else': None}
    ALL = {'not': ('warn', 'fail'), 'if_then_else': ('warn', 'fail'), 'self': ('warn', 'fail')}
    L = (
        ('all_of::validate_all_of', 'AllOfSchema', {'schemas': None, **ADJS}, dict(ALL, schemas=('warn', 'fail')), {}, lambda a: failed(a[5]), 'all of the schemas and the adjacent not and if'),
        ('any_of::validate_any_of', 'AnyOfSchema', {'schemas': None, **ADJS}, dict(ALL, schemas=('warn',)), {}, lambda a: adj(a[5]) or (not passes(a[5]) if anyf(a[5]) else None), 'any of the schemas and the adjacent not and if'),
        ('one_of::validate_one_of', 'OneOfSchema', {'schemas': None, **ADJS}, ALL, {'OneOfMultipleMatch': 'one_of_multiple_match', 'OneOfNoMatch': None}, lambda a: adj(a[5]) or (passes(a[5]) != 1 if anyf(a[5]) else None), 'exactly one of the schemas and the adjacent not and if'),
        ('not_schema::validate_not', 'NotSchema', {'schema': None}, {}, {'NotSchemaMatch': 'not_schema_match'}, lambda a: passes(a[5], 'schema') > 0, 'not'),
        ('if_then_else::validate_if_then_else', 'IfThenElseSchema', {'if_schema': None, 'then_schema': None, 'else_schema': None}, {'if_schema': ('warn',), 'then_schema': ('warn', 'fail'), 'else_schema': ('warn', 'fail')}, {}, ite, 'if, then and else'),
    )
    for name, adt, present, keep, kinds, exp, txt in L:
        fn = ck.need(root(prog, name), V + name, 'a combining validator')
        path = next((x for x in prog.adts if x.startswith(SS) and x.endswith('::' + adt)), None)
        if not fn or not ck.need(path, adt, 'a schema'): continue
        if counts_later(fn): ck.notes.append('%s: successes are counted in a loop of their own over the collected results, which are not followed through the list; not decided' % fn.path.split('::{')[0]); continue
        seen = set(); pushed = set()
        for o in ('warn', 'fail', 'off'):
            for o2 in (('warn', 'fail', 'off') if 'not' in present else ('',)):
                out = {c: ('ok', o2) for c in ('not', 'if_then_else', 'self')} if o2 else {}
                m = CM({path}, present, {}, list(kinds), outcomes={**{c: tuple(sorted({'ok', o, 'fail'})) for c in ('schemas', 'schema', 'if_schema', 'then_schema', 'else_schema')}, **out}, rules={k: r for k, r in kinds.items() if r})
                m.keep = keep; m.soft = True
                F, X = run.go(fn, m); ck.count('runs'); seen |= m.children; pushed |= m.pushed
                judge(run, '%s:%s%s' % (adt, o, ',' + o2 if o2 else ''), fn, m, F, X, 'the result is that of %s (a schema gives %s%s)' % (txt, OUT[o], '' if not o2 else ', an adjacent one ' + OUT[o2]), exp, need=ITE_NEED if exp is ite else None)
        for c in present: ck.ob(any(c in x.split('+') for x in seen), 'applied:%s:%s' % (adt, c), '%s never applies %s' % (fn.path.split('::{')[0], c))
        for k in kinds: ck.ob(k in pushed, 'reported:%s:%s' % (adt, k), '%s never reports %s' % (fn.path.split('::{')[0], k))
    fn = ck.need(root(prog, '') or next((f for f in prog.fns if f.path == VAL + 'validate::validate_adjacent_applicators::{closure#0}'), None), 'validate_adjacent_applicators', 'combines the adjacent applicators')
    if fn:
        for o in ('warn', 'fail', 'off'):
            m = VM(set(), {}, {}, [], outcomes=('ok', o), args={'%s_schema' % f: [((), ('v', OPT, 'Some')), (SOME0, F0(f))] for f in ADJ})
            F, X = run.go(fn, m); ck.count('runs')
            judge(run, 'adjacent:%s' % o, fn, m, F, X, 'every adjacent oneOf, anyOf, allOf and not is applied and gives %s' % OUT[o], lambda a: failed(a[5]), need=needs(ADJ))
def ITE_NEED(a):
    d = dict(a[5]); i = d.get('if_schema')
    if i is None: return ['if_schema']
    w = 'then_schema' if i.startswith(('ok', 'warn')) else 'else_schema'
    return [] if w in d else [w]
def ite(a):
    d = {}
    for c, o in a[5]: d.setdefault(c, o)
    i = d.get('if_schema')
    if i is None: return False
    if i.startswith(('ok', 'warn')): return d.get('then_schema') in ('fail', 'off')
    return d.get('else_schema') in ('fail', 'off')

DUP = [((), ('v', OPT, 'Some')), (SOME0, F0('duplicates'))]
NONE = [((), ('v', OPT, 'None'))]
def extras(run):
    prog = run.prog; ck = run.ck
    arr = ck.need(root(prog, 'array::validate_array'), 'validate_array', 'the array validator'); tab = ck.need(root(prog, 'table::validate_table'), 'validate_table', 'the table validator')
    def one(fn, adt, key, txt, present, rel, kinds, exp, loop=None, rules=None, bools=None, variants=None, outcomes=('ok',), soft=False, other=(), keep=None, depth=()):
        if fn is None: return
        m = CM({adt}, present, rel, kinds, loop=loop, rules=rules or {}, bools=bools or {}, variants=variants or {}, outcomes=outcomes, other=other)
        m.soft = soft; m.loop_depth = depth
        if keep is not None: m.keep = keep
        F, X = run.go(fn, m); ck.count('runs')
        if set(bools or {}) - m.used: ck.count('undecided'); ck.notes.append('%s: not decided (%s): %s is not called' % (fn.path, txt, ', '.join(sorted(set(bools) - m.used)))); return
        judge(run, key, fn, m, F, X, txt, exp)
        if kinds and exp is not False: ck.ob(set(kinds) <= m.pushed, 'reported:' + key, '%s: when %s: %s is never reported' % (fn.path.split('::{')[0], txt, ' and '.join(kinds)))
    A = lambda *x, **k: one(arr, ARR, 'array:' + x[0], *x[1:], **k)
    B = lambda *x, **k: one(tab, TAB, 'table:' + x[0], *x[1:], **k)
    U = {'ArrayUniqueValues': 'array_unique_values'}
    A('unique:dup', 'uniqueItems is true and the array has duplicates', {'unique_items': T}, {}, list(U), True, rules=U, bools={'get_duplicated_ranges': DUP})
    A('unique:none', 'uniqueItems is true and the array has no duplicates', {'unique_items': T}, {}, [], False, bools={'get_duplicated_ranges': NONE})
    A('unique:off', 'uniqueItems is false', {'unique_items': F_}, {}, [], False)
    con = lambda a: not any(c == 'contains' and o.startswith('ok') for c, o in a[5])
    late = arr is not None and (counts_later(arr) or any(c.decl is not None and c.decl.path.startswith('core::iter::traits::iterator::Iterator::') and c.decl.path.rsplit('::', 1)[-1] in ('count', 'sum', 'fold') for _, c in arr.calls()))
    if late: ck.notes.append('%s: the items that match `contains` are counted over collected results, which are not followed through the list; not decided' % arr.path.split('::{')[0])
    if not late: A('contains', 'contains is present', {'contains': None}, {}, ['ArrayContains'], con, outcomes={'contains': ('ok', 'fail')}, keep=(), soft=True)
    for r in ('lt', 'eq', 'gt') if not late else ():
        A('min_contains=' + r, 'the number of matches is %s minContains' % {'lt': 'below', 'eq': 'equal to', 'gt': 'above'}[r], {'contains': None, 'min_contains': None}, {'min_contains': r}, ['ArrayMinContains'] if r == 'lt' else [], r == 'lt', keep=())
        A('max_contains=' + r, 'the number of matches is %s maxContains' % {'lt': 'below', 'eq': 'equal to', 'gt': 'above'}[r], {'contains': None, 'max_contains': None}, {'max_contains': r}, ['ArrayMaxContains'] if r == 'gt' else [], r == 'gt', keep=(), other=('ArrayContains',))
    for r in ('eq', 'gt'):
        A('additional_items:' + r, 'additionalItems is false and the element is beyond prefixItems', {'prefix_items': None, 'additional_items': F_}, {'prefix_items': r}, ['ArrayAdditionalItems'], True, loop='V')
        A('additional_items:on:' + r, 'additionalItems is true and the element is beyond prefixItems', {'prefix_items': None, 'additional_items': T}, {'prefix_items': r}, [], False)
    A('additional_items:lt', 'additionalItems is false and the element is within prefixItems', {'prefix_items': None, 'additional_items': F_}, {'prefix_items': 'lt'}, [], False)
    A('unevaluated_items', 'unevaluatedItems is false', {'unevaluated_items': F_}, {}, ['ArrayUnevaluatedItemNotAllowed'], lambda a: 'ArrayUnevaluatedItemNotAllowed' in a[4], soft=True)
    A('unevaluated_items:on', 'unevaluatedItems is true', {'unevaluated_items': T}, {}, [], False)
    # tables
    R = {'TableKeyRequired': 'table_key_required'}
    B('required:vio', 'a required key is missing', {'required': None}, {'required': 'vio'}, list(R), True, rules=R, loop='required', other=KEYKINDS)
    B('required:sat', 'every required key is there', {'required': None}, {'required': 'sat'}, [], False, other=KEYKINDS)
    for f, v in (('dependent_required', {}), ('dependencies', {('dependencies', SS + 'table_schema::Dependency'): 'Property'})):
        for trig in ('sat', 'vio'):
            for r in ('vio', 'sat'):
                bad = trig == 'sat' and r == 'vio'
                B('%s:%s:%s' % (f, trig, r), 'the key of %s is %s and a key it requires is %s' % (f, 'there' if trig == 'sat' else 'missing', 'there' if r == 'sat' else 'missing'), {f: None}, {f: r, 'trigger': trig}, ['TableDependencyRequired'] if bad else [], bad, variants=v, other=KEYKINDS)
    N = {'KeyNotAllowed': 'key_not_allowed'}
    B('not_allowed', 'additionalProperties is false and no property matches the key', {'properties': None, 'additional_properties': F_}, {'properties': 'vio'}, list(N), True, rules=N, loop='V')
    B('allowed', 'additionalProperties is true and no property matches the key', {'properties': None, 'additional_properties': T}, {'properties': 'vio'}, [], False)
    B('matched', 'additionalProperties is false and a property matches the key', {'properties': None, 'additional_properties': F_}, {'properties': 'sat'}, [], False)
    B('matched:pattern', 'additionalProperties is false and a pattern matches the key', {'properties': None, 'pattern_properties': None, 'additional_properties': F_}, {'properties': 'vio', 'pattern_properties': 'sat'}, [], False)
    K = {'KeyPattern': 'key_pattern'}
    B('pattern', 'additionalProperties is false and no pattern matches the key', {'properties': None, 'pattern_properties': None, 'additional_properties': F_}, {'properties': 'vio', 'pattern_properties': 'vio'}, list(K), True, rules=K, loop='V', other=('KeyNotAllowed',))
    B('unevaluated', 'unevaluatedProperties is false', {'properties': None, 'unevaluated_properties': F_}, {'properties': 'vio'}, ['UnevaluatedPropertyNotAllowed'], lambda a: 'UnevaluatedPropertyNotAllowed' in a[4], soft=True, other=KEYKINDS)
    B('strict', 'the schema says nothing about other keys and is strict', {'properties': None}, {'properties': 'vio'}, ['TableStrictAdditionalKeys'], False, bools={'strict': True, 'contains': False}, loop='V')

def formats(run):
    """Every string format is checked by its own checker."""
    fn = run.ck.need(root(run.prog, 'string::validate_string'), 'validate_string', 'the string validator')
    ad = run.ck.need(next((a for p, a in run.prog.adts.items() if p.endswith('::StringFormat') and a.kind == 'enum' and 'x_keyword' in p), None), 'StringFormat', 'the string formats')
    if not fn or not ad: return
    vs = [v.name if hasattr(v, 'name') else v[0] for v in ad.variants]
    run.ck.floor('string_formats', len(vs), 14)
    for w in vs:
        for r in ('vio', 'sat'):
            m = SM({SS + 'string_schema::StringSchema'}, {'format': None}, {'format': r}, ['StringFormat'] if r == 'vio' else [], rules={'StringFormat': 'string_format'}, variants={'format': w}, args={'format_assertion': T})
            F, X = run.go(fn, m); run.ck.count('runs')
            judge(run, 'format:%s:%s' % (w, r), fn, m, F, X, 'the format is %s and the value %s it' % (w, 'violates' if r == 'vio' else 'satisfies'), r == 'vio')
        run.ck.ob('format' in m.compared, 'format:' + w, '%s does not check the format %s' % (fn.path.split('::{')[0], w))
    m = SM({SS + 'string_schema::StringSchema'}, {'format': None}, {}, [], args={'format_assertion': F_}); F, X = run.go(fn, m)
    judge(run, 'format:off', fn, m, F, X, 'the format is not asserted', False)

class DM(VM):
    """Which validator a value is handed to."""
    def child(self, X, bi, c, env, argv, a, l, path, dt):
        if dt is None or not path.startswith(VAL): return None
        if l in ('mark_type_match', 'with_lint_diagnostics', 'merge_validation_results'): return VM.child(self, X, bi, c, env, argv, a, l, path, dt)
        if l == 'validate':
            t = c.argtys[0].peel().s.rsplit('::', 1)[-1]
            return [([((), ('str', ('CH', 'validate ' + t if t in self.types else 'validate', l)))], a)]
        if vres(dt) and CHILD.match(l):
            self.children.add(l); return [(self.outcome(o, '~' + l), self.applied(a, l, o)) for o in self.outcomes_of(l)]
        if l.startswith('validate') and 'Future' in dt.s or CHILD.match(l) and l != 'validate_format': return [([((), ('str', ('CH', l, l)))], a)]
        return None
    types = ()
    def poll(self, X, bi, c, env, argv, a, po):
        if is_opt(po) and po.args and is_result(po.args[0]) and 'CurrentSchema' in po.s: return [([((), ('v', POLLT, 'Ready')), (READY, ('v', OPT, 'None'))], a)]
        return VM.poll(self, X, bi, c, env, argv, a, po)

OWN = {'Integer': {'Integer': 'validate_integer_schema', 'Float': 'validate_float_schema_for_integer'},
    'String': dict({'String': 'validate_string'}, **{k: 'validate_string_as_date_format' for k in ('OffsetDateTime', 'LocalDateTime', 'LocalDate', 'LocalTime')})}
VIEWS = ('Boolean', 'Integer', 'Float', 'String', 'LocalDate', 'LocalDateTime', 'LocalTime', 'OffsetDateTime', 'Array', 'Table', 'OneOf', 'AnyOf', 'AllOf', 'Null', 'Anything', 'Nothing')
def dispatch(run):
    """Every kind of value under every kind of schema is handed to the validator of that kind."""
    prog = run.prog; ck = run.ck
    view = SS + 'schema_view::SchemaView'
    if ck.need(prog.adts.get(view), 'SchemaView', 'the kinds of schemas') is None: return
    ck.ob({v[0] for v in prog.adts[view].variants} <= set(VIEWS), 'views', 'a kind of schema is not covered: %s' % sorted({v[0] for v in prog.adts[view].variants} - set(VIEWS)))
    types = ('Boolean', 'Integer', 'Float', 'String', 'OffsetDateTime', 'LocalDateTime', 'LocalDate', 'LocalTime', 'Array', 'Table')
    def expect(t, v):
        own = OWN.get(t, {t: 'validate_' + snake(t)})
        if v in own: return own[v]
        if v in ('OneOf', 'AnyOf', 'AllOf'): return 'validate_' + snake(v)
        return None if v in ('Null', 'Anything', 'Nothing') else 'validate_mismatched_schema'
    def go(fn, key, m, v, want, what):
        F, X = run.go(fn, m); ck.count('runs'); ck.count('dispatches')
        seen = m.children - {'validate_key_empty_rule'}
        ck.ob(seen <= {want}, 'dispatch:' + key, '%s: %s is handed to %s' % (fn.path.split('::{')[0], what, ', '.join(sorted(seen - {want}))))
        exp = (lambda a: failed(a[5])) if want or v not in ('Null', 'Nothing') else (lambda a: None)
        judge(run, 'dispatch:' + key, fn, m, F, X, what, exp, need=(lambda a: [] if any(c == want for c, _ in a[5]) else [want]) if want else None)
        if v in ('Null', 'Nothing'): ck.ob('Nothing' in m.pushed, 'dispatch:%s:reported' % key, '%s: %s is not reported' % (fn.path.split('::{')[0], what))
    for t in types:
        if t == 'String': fn = root(prog, 'string::validate_like_string')
        else: fn = next((f for f in prog.fns if f.kind == 'coroutine' and re.match(re.escape(V) + r'\w+::<impl %svalidate::Validate for [\w:]+::%s>::validate::\{closure#\d\}$' % (re.escape(VAL), t), f.path)), None)
        if not ck.need(fn, 'Validate for ' + t, 'the validator of a kind of value'): continue
        for v in VIEWS:
            want = expect(t, v)
            for o in (('warn', 'fail', 'off') if want else ('warn',)):
                m = DM(set(), {}, {}, ['Nothing'] if v in ('Null', 'Nothing') else [], outcomes=('ok', o), variants={view: v}, args={'current_schema': [((), ('v', OPT, 'Some'))]}, bools={'project_current_schema_for_value': NONE}); m.soft = True
                if t == 'String': m.outcomes = {want: ('ok', o)}
                go(fn, '%s:%s:%s' % (t, v, o), m, v, want, 'a value of type %s under a schema of type %s (%s)' % (t, v, OUT[o]))
    fn = next((f for f in prog.fns if f.kind == 'coroutine' and re.match(re.escape(V) + r'value::<impl .* for [\w:]+::Value>::validate::\{closure#\d\}$', f.path)), None)
    val = 'tombi_document_tree::value::Value'
    if ck.need(fn, 'Validate for Value', 'the validator of values') and ck.need(prog.adts.get(val), 'Value', 'the values'):
        for v in prog.adts[val].variants:
            if v[0] not in types: continue
            for o in ('warn', 'fail', 'off'):
                m = DM(set(), {}, {}, [], outcomes=('ok', o), variants={val: v[0]}); m.types = types
                go(fn, 'Value:%s:%s' % (v[0], o), m, v[0], 'validate ' + v[0], 'a value of type %s (%s)' % (v[0], OUT[o]))
        sites = [b.term[1] for b in fn.blocks if b.term[0] == 'call' and b.term[1].decl is not None and b.term[1].decl.path == VAL + 'validate::Validate::validate']
        for c in sites:      # under the schema it was handed, at its own place
            for a, n in zip(c.args[1:], ('accessors', 'current_schema', 'schema_context')):
                tk = run.sl.operand(fn, a)
                ck.ob(not all(t[0] in ('agg', 'const', 'str', 'named') for t in tk), 'dispatch:Value:handed:%s' % n, '%s: the value is validated with a %s of its own (%s)' % (fn.path.split('::{')[0], n, fn.loc(c.line)))
    fn = root(prog, 'validate_mismatched_schema')
    if ck.need(fn, 'validate_mismatched_schema', 'the validator of values of another type'):
        m = DM(set(), {}, {}, ['TypeMismatch'], rules={'TypeMismatch': 'type_mismatch'}, bools={'has_type_assertion': True, 'has_direct_literal_assertion': False}); m.soft = True
        F, X = run.go(fn, m)
        judge(run, 'mismatch', fn, m, F, X, 'the schema asserts another type', lambda a: 'TypeMismatch' in a[4] or failed(a[5]))
        ck.ob('TypeMismatch' in m.pushed, 'mismatch:reported', '%s never reports a type mismatch' % fn.path.split('::{')[0])

def exhaustive(run):
    """A loop that reports, or collects results of subschemas, looks at every element: nothing leaves it early."""
    prog = run.prog; ck = run.ck; n = 0
    def is_next(c): return c.decl is not None and c.decl.path == 'core::iter::traits::iterator::Iterator::next'
    def collects(c):
        l = last(c)
        return l in ('push', 'extend', 'append', 'extend_from_slice', 'push_diagnostic_with_level') and any(diagvec(t) for t in c.argtys) or l in ('push',) and bool(c.argtys) and resvec(c.argtys[0])
    for f in prog.fns:
        if f.crate.name != 'tombi_validator' or not f.path.startswith(V) or '::tests::' in f.path: continue
        if not (vres(f.ltys[0]) or 'Invalid' in f.ltys[0].s): continue
        for bi, body, exits in iterations(f, is_next):
            ne = none_edge(f, bi); after = reachable(f, ne) if ne is not None else set()
            own = set(body)
            for _, s in exits: own |= reachable(f, s) - after
            if not any(f.blocks[x].term[0] == 'call' and collects(f.blocks[x].term[1]) for x in own): continue
            n += 1; c = f.blocks[bi].term[1]
            at = [x for x, _ in exits]
            ck.ob(not exits, 'exhaustive:%s' % f.path.split('::{')[0], '%s: the loop over %s (%s) reports, but can be left before its last element: the elements after it are not looked at' % (f.path.split('::{')[0], c.argtys[0].s.split('::')[-1].rstrip('>'), f.loc(c.line)), sample='%s:%s looks at every element' % (f.path.split('::')[-2], c.line))
    ck.floor('reporting_loops', n, 10)

def check(ck):
    run = Run(ck, ck.prog)
    dispatch(run); scalars(run); formats(run); children(run); composites(run); extras(run); exhaustive(run); kw.reading(ck); kw.types(ck); kw.division(ck)
    ck.count('states', run.states)
    ck.floor('schema_validators', len(run.flats), 17)
    ck.rule('a violated keyword => reported at its rule and the result a failed assertion; satisfied keywords => nothing; results of subschemas kept; oneOf/anyOf/allOf/not/if as defined')
