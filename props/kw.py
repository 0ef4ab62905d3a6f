"""Reading a schema: each keyword of a schema object is read into its own place, each type name makes its own schema."""
from props.common import *
from an.facts import succs
from an.slice import Slicer
from an.flat import Flat
from an.explore import Explorer, Model, T, F_

S = 'tombi_schema_store::schema::'
def camel(s):
    p = s.replace('r#', '').split('_'); return p[0] + ''.join(x.capitalize() for x in p[1:])
# fields not named after their keyword: (field -> (its keyword, what else may be looked at))
ALIAS = {'const_value': ('const', ()), 'enum_values': ('enum', ()), 'additional_property_schema': ('additionalProperties', ()),
    'unevaluated_items_schema': ('unevaluatedItems', ()), 'unevaluated_property_schema': ('unevaluatedProperties', ()),
    'additional_items': ('additionalItems', ('items',)), 'additional_items_schema': ('additionalItems', ('items',)),
    'prefix_items': ('prefixItems', ('items',)), 'items': ('items', ('prefixItems',)), 'deprecation': ('deprecationMessage', ('deprecated',)),
    'if_schema': ('if', ()), 'then_schema': ('then', ()), 'else_schema': ('else', ()),
    'dependent_required': ('dependentRequired', ('dependencies', 'dependentSchemas')), 'dependent_schemas': ('dependentSchemas', ('dependencies', 'dependentRequired')),
    'keys_order': ('x-tombi-table-keys-order', ()), 'values_order': ('x-tombi-array-values-order', ()), 'array_values_order_by': ('x-tombi-array-values-order-by', ()),
    'ref': ('$ref', ()), 'dynamic_ref': ('$dynamicRef', ()), 'recursive_ref': ('$recursiveRef', ())}
PLAIN = ('title description default examples minimum maximum exclusive_minimum exclusive_maximum multiple_of enum min_length max_length pattern '
    'content_encoding content_media_type content_schema contains min_contains max_contains min_items max_items unique_items unevaluated_items '
    'properties pattern_properties additional_properties unevaluated_properties property_names required dependencies min_properties max_properties').split()
INTEGER = ('minimum', 'maximum', 'exclusive_minimum', 'exclusive_maximum', 'multiple_of')
OFCLASS = {'AllOfSchema': 'allOf', 'AnyOfSchema': 'anyOf', 'OneOfSchema': 'oneOf', 'NotSchema': 'not'}
SCALAR = ('minimum maximum exclusive_minimum exclusive_maximum multiple_of min_length max_length pattern min_contains max_contains min_items max_items '
    'unique_items min_properties max_properties').split()
KEYS = {camel(x) for x in PLAIN} | {a for a, _ in ALIAS.values()} | {b for _, bs in ALIAS.values() for b in bs} | set(OFCLASS.values()) | {'format', 'type'}

class KSlicer(Slicer):
    """Does not look into what builds a subschema from the value it is given."""
    def ret(self, fn, depth=0):
        if fn not in self._ret:
            t = fn.ltys[0]
            while t.args and (t.s.startswith('core::option::Option<') or t.s.startswith('alloc::boxed::Box<') or t.s.startswith('core::result::Result<')): t = t.args[0]
            if fn.crate.name == 'tombi_schema_store' and t.d is not None and t.d.path.split('::')[-1] in ('Referable', 'SchemaView', 'SemanticSchema', 'SemanticSchemaObject'): self._ret[fn] = set()
        return super().ret(fn, depth)

def expected(adt, field):
    if field == 'schemas': return OFCLASS.get(adt), ()
    if field == 'schema' and adt == 'NotSchema': return 'not', ()
    if field in ALIAS: return ALIAS[field]
    if field in PLAIN: return camel(field), ()
    return None, ()

def reading(ck):
    prog = ck.prog; sl = KSlicer(prog, follow=True, through_mut=True); n = 0; structs = set()
    for f in prog.fns:
        if f.crate.name != 'tombi_schema_store' or not f.path.startswith(S) or '::tests::' in f.path or f.kind in ('closure', 'coroutine'): continue
        # what reads a schema object has one as its argument
        if not any('tombi_json' in t.s and 'ObjectNode' in t.s for t in f.ltys[1:f.ac + 1]): continue
        for g in [f] + [c for c in prog.fns if c.kind == 'closure' and c.path.startswith(f.path + '::{')]:
            for b in g.blocks:
                for s in b.stmts:
                    if s[0] != '=' or s[2][0] != 'agg' or s[2][1] != 'adt': continue
                    d = s[2][2]; path = getattr(d, 'path', str(d)); ad = prog.adts.get(path)
                    if ad is None or ad.kind != 'struct' or not path.startswith(S): continue
                    short = path.split('::')[-1]
                    for (name, _, _), o in zip(ad.fields(), s[2][5]):
                        name = name.replace('r#', ''); own, also = expected(short, name)
                        if own is None: continue
                        toks = sl.operand(g, o)
                        strs = {t[1] for t in toks if t[0] == 'str'}; kws = strs & KEYS; where = '%s, field %s (%s)' % (short, name, g.loc(s[3]) if s[3] else f.path)
                        # what a closure or a helper gets from its caller is judged there
                        if not strs and any(t[0] in ('upvar', 'param') and t[-1] in ('key', 'keyword', 'name') for t in toks): ck.notes.append('%s: keyword not known here' % where); continue
                        if not kws and any(t[0] == 'named' for t in toks) and own not in strs: ck.notes.append('%s: the keyword is a named constant' % where); continue
                        if g is not f and not strs: continue
                        n += 1; structs.add(short)
                        ck.ob(own in strs, 'read:%s.%s' % (short, name), 'the keyword `%s` of a schema is not read: %s does not come from it%s' % (own, where, ' but from `%s`' % '`, `'.join(sorted(kws)) if kws else ''), sample='%s.%s <- %s' % (short, name, own))
                        foreign = kws - {own} - set(also)
                        ck.ob(not foreign, 'mixed:%s.%s' % (short, name), '%s takes the value of `%s`, not only of `%s`' % (where, '`, `'.join(sorted(foreign)), own))
                        if short == 'IntegerSchema' and name in INTEGER:
                            calls = {t[1].split('::')[-1] for t in toks if t[0] == 'call'}
                            ck.ob('as_i64' not in calls or 'as_f64' in calls, 'fraction:IntegerSchema.%s' % name, 'a `%s` with a fraction (1.5) is dropped from the schema of an integer: %s only takes it if it is an integer' % (own, where))
                        if name in SCALAR:
                            ops = {t[1] for t in toks if t[0] == 'op'} & {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'Not', 'Neg', 'Shl', 'Shr'}
                            ck.ob(not ops, 'altered:%s.%s' % (short, name), '%s is not the value of `%s` but computed from it (%s)' % (where, own, ', '.join(sorted(ops))))
    ck.floor('keyword_fields', n, 120); ck.floor('schema_structs', len(structs), 15)
    # the applicators beside other keywords
    of = {'%sOfSchema' % x: '%sOf' % x.lower() for x in ('One', 'Any', 'All')}; m = 0
    for f in prog.fns:
        if f.crate.name != 'tombi_schema_store' or '::tests::' in f.path or f.kind in ('closure', 'coroutine') or not f.path.startswith(S): continue
        for b in f.blocks:
            for s in b.stmts:
                if s[0] != '=' or s[2][0] != 'agg' or s[2][1] != 'tuple' or len(s[2][5]) < 3: continue
                ops = [(o, f.ltys[o[1][0]].s) for o in s[2][5] if o[0] != 'const' and not o[1][1]]
                for o, t in ops:
                    k = [v for c, v in of.items() if t.startswith('core::option::Option<alloc::boxed::Box<') and c in t]
                    if len(k) != 1: continue
                    strs = {x[1] for x in guards(prog, f, o) if x[0] == 'str'} & set(of.values())
                    if not strs: continue
                    m += 1
                    ck.ob(k[0] in strs and len(strs) == 1, 'applicator:%s' % k[0], '%s: the schemas of `%s` are there when `%s` is given' % (f.path, k[0], '`, `'.join(sorted(strs))))
    ck.floor('adjacent_applicators', m, 3)

def guards(prog, f, o):
    """Strings looked at to decide whether to build the value, without those read in building it."""
    class G(Slicer):
        def ret(self, fn, depth=0):
            if fn not in self._ret and fn.crate.name == 'tombi_schema_store': self._ret[fn] = set()
            return super().ret(fn, depth)
    return G(prog, follow=True).operand(f, o)

class TypeModel(Model):
    init = ()
    def __init__(self, want): self.want = want; self.asked = set()
    def call(self, X, bi, c, env, argv):
        d = c.decl
        if d is None or not d.path.endswith('::eq') or 'PartialEq' not in d.path: return None
        if not all(t.peel().s == 'str' for t in c.argtys[:2]): return None
        for a in c.args:
            s = X.F.const_str(a) if hasattr(X.F, 'const_str') else None
            if s is None: s = const_str(X.F, a)
            if s is not None: self.asked.add(s); return T if s == self.want else F_
        return None

def const_str(F, o, n=0):
    if o[0] == 'const': return o[1].s
    l, pr = o[1]
    if n > 6: return None
    hit = None
    for b in F.blocks:
        for s in b.stmts:
            if s[0] == '=' and s[1][0] == l and not s[1][1]:
                if hit is not None: return None
                r = s[2]
                if r[0] in ('use', 'cast'): hit = r[1] if r[0] == 'use' else r[2]
                elif r[0] == 'ref': hit = ('copy', r[1])
                else: return None
    return const_str(F, hit, n + 1) if hit is not None else None

TYPES = {'null': {'Null'}, 'boolean': {'Boolean'}, 'integer': {'Integer'}, 'number': {'Float', 'Number'}, 'array': {'Array'}, 'object': {'Table', 'Object'},
    'string': {'String', 'OffsetDateTime', 'LocalDateTime', 'LocalDate', 'LocalTime'}}
def types(ck):
    prog = ck.prog; n = 0
    for f in prog.fns:
        if f.crate.name != 'tombi_schema_store' or not f.path.startswith(S) or '::tests::' in f.path or f.kind in ('closure', 'coroutine'): continue
        t = f.ltys[0]
        if not t.s.startswith('core::option::Option<tombi_schema_store::schema::') or t.args[0].d is None: continue
        strs = {a[1].s for _, c in f.calls() for a in c.args if a[0] == 'const' and a[1].s} | {s[2][1][1].s for b in f.blocks for s in b.stmts if s[0] == '=' and s[2][0] == 'use' and s[2][1][0] == 'const' and s[2][1][1].s}
        if len(strs & set(TYPES)) < 6: continue
        F = Flat(prog, f, lambda g, fr, c: False); n += 1
        for ty, want in [('other', None)] + sorted(TYPES.items()):
            m = TypeModel(ty); X = Explorer(F, m); X.run({})
            if want is None and len(m.asked & set(TYPES)) < 6: ck.notes.append('%s: how the type name is told apart is not recognised' % f.path); break
            got = set()
            for (a, r), st in X.final.items():
                if r is None: got.add('?')
                elif r[0] == 'None': got.add('nothing')
                elif len(r) > 1 and r[1] is not None and r[1][0] == 'v': got.add(r[1][2])
                else: got.add('?')
            if '?' in got: ck.notes.append('%s: what is made for type %s is not known' % (f.path, ty)); continue
            if want is None: ck.ob(got == {'nothing'}, 'type:other', '%s makes %s for a type name that does not exist' % (f.path, sorted(got)))
            else: ck.ob(got and got <= want and (ty != 'string' or 'String' in got), 'type:%s' % ty, '%s makes %s for the type `%s`' % (f.path, sorted(got), ty), sample='%s: %s -> %s' % (f.name, ty, sorted(got)))
    ck.floor('type_readers', n, 1)

def division(ck):
    """A number of a schema is never divided by before it is compared with something: a schema may contain a zero."""
    prog = ck.prog; sl = Slicer(prog, follow=False); n = 0
    def fields(g, o): return {t[1:] for t in sl.operand(g, o) if t[0] == 'field' and t[1] is not None and t[1].startswith('tombi_')}
    for f in prog.fns:
        if f.crate.name != 'tombi_validator' or '::tests::' in f.path: continue
        for bi, b in enumerate(f.blocks):
            for s in b.stmts:
                if s[0] != '=' or s[2][0] != 'bin' or s[2][1] not in ('Rem', 'Div', 'RemUnchecked', 'DivUnchecked'): continue
                o = s[2][3]
                if o[0] == 'const' or f.ltys[s[1][0]].s.lstrip('(').split(',')[0] in ('f64', 'f32'): continue
                of = {t[-1] for t in fields(f, o)}
                if not of: continue
                n += 1
                if any(t[0] == 'call' and t[1].split('::')[-1] in ('filter', 'max', 'clamp', 'is_some_and') for t in sl.operand(f, o)): ck.notes.append('%s: the divisor is selected in a way not followed' % f.loc(s[3])); continue
                guards = {gi for gi, g in enumerate(f.blocks) if g.term[0] == 'switch' and of & {t[-1] for t in fields(f, g.term[1])} and compares(sl, f, g.term[1])}
                ck.ob(not reach(f, bi, guards), 'zero:%s' % f.path.split('::{')[0], '%s divides by %s of the schema without having compared it with zero: a schema with a zero there makes the validation panic' % (f.loc(s[3]), '/'.join(sorted(of))), sample='%s: divisor %s compared first' % (f.path.split('::{')[0], '/'.join(sorted(of))))
    ck.count('divisions', n)

def compares(sl, f, o):
    ts = sl.operand(f, o)
    if any(t[0] == 'op' and t[1] in ('Rem', 'Div') for t in ts): return False
    return any(t[0] == 'op' and t[1] in ('Gt', 'Lt', 'Ge', 'Le', 'Ne', 'Eq') for t in ts) or o[0] != 'const' and direct(f, o)
def direct(f, o):
    """A switch on an integer itself (match on the value)."""
    return f.ltys[o[1][0]].s in ('i64', 'u64', 'usize')
def reach(f, goal, without):
    seen = set(); st = [0]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x == goal: return True
        if x in without: continue
        st.extend(y for y in succs(f.blocks[x].term) if y is not None)
    return False
