"""C34: definitions report exactly the declared marks."""
from __future__ import annotations
from enum import Enum
from itertools import count, product
from jsonclasses import jsonclass, jsonenum, types
from jsonclasses.fdef import (
    CopyBehavior, DeleteRule, EnumInput, EnumOutput, FStore, FSubtype, FType,
    Nullability, Queryability, ReadRule, Strictness, WriteRule)
from mc.core import enums, eq, expect

G = 'verif-c34'
COUNT = count()


@jsonenum(class_graph=G)
class Tone(Enum):
    LOW = 1
    HIGH = 2


@jsonclass(class_graph=G)
class Kid:
    id: int = types.int.primary
    name: str = types.str


@jsonclass(class_graph=G)
class Join:
    id: int = types.int.primary


def f1(x):
    return x


def f2(x, y):
    return x


# checkers are told apart by a mark of their own
CHK1, CHK2 = types.eq(1).cindex('chk1'), types.eq(2).cindex('chk2')


def fresh():
    return dict(
        ftype=None, fsubtype=None, fstore=FStore.EMBEDDED, getter=None,
        setter=None, primary=False, index=False, cindex=False,
        cindex_names=[], unique=False, cunique=False, cunique_names=[],
        required=False, enum_input=None, enum_output=None,
        force_set_on_save=False, foreign_key=None, use_join_table=None,
        join_table_cls=None, join_table_referrer_key=None,
        join_table_referee_key=None, delete_rule=None,
        read_rule=ReadRule.UNLIMITED, write_rule=WriteRule.UNLIMITED,
        collection_nullability=Nullability.NULLABLE,
        item_nullability=Nullability.UNDEFINED,
        strictness=Strictness.UNDEFINED, has_eager_modifier=False,
        has_reset_modifier=False, has_preserialize_modifier=False,
        requires_operator_assign=False, operator_assign_transformer=None,
        queryability=Queryability.QUERYABLE, copy_behavior=CopyBehavior.COPY,
        auth_identity=False, auth_by=False, auth_by_checker=None)


def put(**kw):
    return lambda m: m.update(kw)


def add(flag, names, name):
    def go(m):
        m[flag] = True
        m[names] = m[names] + [name]
    return go


def link(**kw):
    def go(m):
        m.update(kw)
        if m['delete_rule'] is None:
            m['delete_rule'] = DeleteRule.NULLIFY
    return go


def takes(flag):
    def go(m):
        m['enum_input'] = flag if m['enum_input'] is None \
            else m['enum_input'] | flag
    return go


MARKS = {
    'primary': (lambda t: t.primary,
                put(primary=True, has_reset_modifier=True)),
    'readonly': (lambda t: t.readonly, put(write_rule=WriteRule.NO_WRITE)),
    'writeonly': (lambda t: t.writeonly, put(read_rule=ReadRule.NO_READ)),
    'readwrite': (lambda t: t.readwrite,
                  put(write_rule=WriteRule.UNLIMITED,
                      read_rule=ReadRule.UNLIMITED)),
    'writeonce': (lambda t: t.writeonce,
                  put(write_rule=WriteRule.WRITE_ONCE)),
    'writenonnull': (lambda t: t.writenonnull,
                     put(write_rule=WriteRule.WRITE_NONNULL)),
    'internal': (lambda t: t.internal,
                 put(write_rule=WriteRule.NO_WRITE,
                     read_rule=ReadRule.NO_READ)),
    'index': (lambda t: t.index, put(index=True)),
    'cindex-a': (lambda t: t.cindex('a'), add('cindex', 'cindex_names', 'a')),
    'cindex-b': (lambda t: t.cindex('b'), add('cindex', 'cindex_names', 'b')),
    'unique': (lambda t: t.unique, put(unique=True)),
    'cunique-a': (lambda t: t.cunique('a'),
                  add('cunique', 'cunique_names', 'a')),
    'cunique-b': (lambda t: t.cunique('b'),
                  add('cunique', 'cunique_names', 'b')),
    'queryable': (lambda t: t.queryable,
                  put(queryability=Queryability.QUERYABLE)),
    'unqueryable': (lambda t: t.unqueryable,
                    put(queryability=Queryability.UNQUERYABLE)),
    'nocopy': (lambda t: t.nocopy, put(copy_behavior=CopyBehavior.NOCOPY)),
    'required': (lambda t: t.required, put(required=True)),
    'present': (lambda t: t.present, put(required=True)),
    'nonnull': (lambda t: t.nonnull,
                put(collection_nullability=Nullability.NONNULL)),
    'nullable': (lambda t: t.nullable,
                 put(item_nullability=Nullability.NULLABLE)),
    'asop': (lambda t: t.asop(f1),
             put(requires_operator_assign=True,
                 operator_assign_transformer=f1)),
    'asopd': (lambda t: t.asopd, put(requires_operator_assign=True)),
    'authidentity': (lambda t: t.authidentity, put(auth_identity=True)),
    'authby': (lambda t: t.authby(CHK1),
               put(auth_by=True, auth_by_checker=['chk1'])),
    'authby-2': (lambda t: t.authby(CHK2),
                 put(auth_by=True, auth_by_checker=['chk2'])),
    'setonsave': (lambda t: t.setonsave(f1),
                  put(has_preserialize_modifier=True)),
    'fsetonsave': (lambda t: t.fsetonsave(f1),
                   put(has_preserialize_modifier=True,
                       force_set_on_save=True)),
    'tscreated': (lambda t: t.tscreated, put()),
    'tsupdated': (lambda t: t.tsupdated, put(has_preserialize_modifier=True)),
    'onsave': (lambda t: t.onsave(f1), put()),
    'onwrite': (lambda t: t.onwrite(f1), put()),
    'onupdate': (lambda t: t.onupdate(f2), put(has_reset_modifier=True)),
    'compare': (lambda t: t.compare(f2), put(has_reset_modifier=True)),
    'default': (lambda t: t.default(None), put()),
    'append': (lambda t: t.append('x'), put(has_eager_modifier=True)),
    'validate': (lambda t: t.validate(f1), put()),
    'transform': (lambda t: t.transform(f1), put(has_eager_modifier=True)),
    'canu': (lambda t: t.canu(f1), put()),
    'mongoid': (lambda t: t.mongoid, put(fsubtype=FSubtype.MONGOID)),
    'uploader': (lambda t: t.uploader(f1), put(fsubtype=FSubtype.FILE, has_eager_modifier=True)),
}
STORE = {
    'temp': (lambda t: t.temp, put(fstore=FStore.TEMP)),
    'embedded': (lambda t: t.embedded, put(fstore=FStore.EMBEDDED)),
    'getter': (lambda t: t.getter(f1),
               put(fstore=FStore.CALCULATED, getter=f1)),
    'setter': (lambda t: t.setter(f2),
               put(fstore=FStore.CALCULATED, setter=f2)),
}
LINKS = {
    'linkto': (lambda t: t.linkto, link(fstore=FStore.LOCAL_KEY)),
    'linkedby': (lambda t: t.linkedby('p'),
                 link(fstore=FStore.FOREIGN_KEY, foreign_key='p',
                      use_join_table=False)),
    'linkedthru': (lambda t: t.linkedthru('q'),
                   link(fstore=FStore.FOREIGN_KEY, foreign_key='q',
                        use_join_table=True)),
    'linkedin': (lambda t: t.linkedin(Join),
                 link(fstore=FStore.FOREIGN_KEY, join_table_cls=Join,
                      use_join_table=True)),
    'referrer': (lambda t: t.referrer('r1'),
                 put(join_table_referrer_key='r1')),
    'referee': (lambda t: t.referee('r2'), put(join_table_referee_key='r2')),
    'nullify': (lambda t: t.nullify, put(delete_rule=DeleteRule.NULLIFY)),
    'cascade': (lambda t: t.cascade, put(delete_rule=DeleteRule.CASCADE)),
    'deny': (lambda t: t.deny, put(delete_rule=DeleteRule.DENY)),
    'strict': (lambda t: t.strict, put(strictness=Strictness.STRICT)),
}
ENUMS = {
    'inputall': (lambda t: t.inputall, put(enum_input=EnumInput.ALL)),
    'inputname': (lambda t: t.inputname, takes(EnumInput.NAME)),
    'inputlname': (lambda t: t.inputlname, takes(EnumInput.LOWERCASE_NAME)),
    'inputvalue': (lambda t: t.inputvalue, takes(EnumInput.VALUE)),
    'outputname': (lambda t: t.outputname,
                   put(enum_output=EnumOutput.NAME)),
    'outputlname': (lambda t: t.outputlname,
                    put(enum_output=EnumOutput.LOWERCASE_NAME)),
    'outputvalue': (lambda t: t.outputvalue,
                    put(enum_output=EnumOutput.VALUE)),
}
ALL = {**MARKS, **STORE, **LINKS, **ENUMS}

SIMPLE = {
    'str': (lambda t: t.str, FType.STR),
    'int': (lambda t: t.int, FType.INT),
    'float': (lambda t: t.float, FType.FLOAT),
    'bool': (lambda t: t.bool, FType.BOOL),
    'date': (lambda t: t.date, FType.DATE),
    'datetime': (lambda t: t.datetime, FType.DATETIME),
    'any': (lambda t: t.any, FType.ANY),
    'enum': (lambda t: t.enum(Tone), FType.ENUM),
    'enumname': (lambda t: t.enum('Tone'), FType.ENUM),
    'union': (lambda t: t.union([str, int]), FType.UNION),
    'list': (lambda t: t.listof(str), FType.LIST),
    'dict': (lambda t: t.dictof(int), FType.DICT),
}
OBJS = {
    'obj': (lambda t: t.objof(Kid), FType.INSTANCE),
    'objs': (lambda t: t.listof(Kid), FType.LIST),
    'objname': (lambda t: t.objof('Kid'), FType.INSTANCE),
    'objsname': (lambda t: t.listof('Kid'), FType.LIST),
}
BASES = {**SIMPLE, **OBJS}


def base_effect(m, base):
    m['ftype'] = BASES[base][1]
    if base in ('enum', 'enumname'):
        m['enum_input'] = EnumInput.NAME
        m['enum_output'] = EnumOutput.NAME


def snap(t):
    f = t.fdef
    out = {n: getattr(f, n) for n in fresh()}
    if out['auth_by_checker'] is not None:
        out['auth_by_checker'] = out['auth_by_checker'].fdef.cindex_names
    return {k: list(v) if isinstance(v, list) else v for k, v in out.items()}


def same_marks(got, want, what):
    eq({k: v for k, v in got.items() if v != want[k]},
       {k: want[k] for k, v in got.items() if v != want[k]}, what)


def build(base, chain, at):
    """The types and the marks they must report; the base type is given after
    ``at`` of the marks.  Every step leaves what it extends alone."""
    t, m = types, fresh()
    for i in range(len(chain) + 1):
        steps = []
        if i == at:
            steps.append((BASES[base][0], lambda m: base_effect(m, base)))
        if i < len(chain):
            steps.append(ALL[chain[i]])
        for real, model in steps:
            before = snap(t)
            n = real(t)
            same_marks(snap(t), before, 'marks of the extended types')
            other = real(t)
            model(m)
            same_marks(snap(n), m, 'marks')
            same_marks(snap(other), m, 'marks of the second extension')
            t = n
    return t, m


def chains(names, depth):
    for d in range(depth + 1):
        yield from product(names, repeat=d)


def listed(fields):
    return [f.name for f in fields]


def camel(name):
    head, *rest = name.split('_')
    return head + ''.join(w.capitalize() for w in rest)


def default_ref(name, kind):
    return name + ('_id' if kind == 'one' else '_ids')


def check_class(defs, config):
    """A class holding all ``defs``: the class definition sorts its fields by
    their marks."""
    ns, order, models = {'__annotations__': {}}, [], {}
    for i, (base, chain, at) in enumerate(defs):
        t, m = build(base, chain, at)
        name = f'field_no{"abcdefghijklmnopqrstuvwxyz"[i]}'
        ns[name] = t
        ns['__annotations__'][name] = object
        order.append(name)
        models[name] = (base, m)
    nr = next(COUNT)
    ns['__module__'] = __name__
    kw = {}
    out = camel
    if config == 'plain':
        kw = dict(output_key_strategy='identical',
                  ref_name_strategy=lambda f: 'k_' + f.name)
        out = str
    C = jsonclass(class_graph=G, **kw)(type(f'Big{nr}', (), ns))
    cd = C.cdef

    def those(cond):
        return [n for n in order if cond(models[n][1], models[n][0])]
    eq(listed(cd.fields), order, 'fields')
    for n in order:
        base, m = models[n]
        jf = cd.field_named(n)
        same_marks(snap(jf.types), m, 'marks of the field')
        eq(jf.name, n, 'name')
        eq(jf.json_name, out(n), 'json name')
        expect(jf.cdef is cd and jf.fdef.cdef is cd, 'class of the field')
        one, many = m['ftype'] == FType.INSTANCE, m['ftype'] == FType.LIST
        loc = m['fstore'] == FStore.LOCAL_KEY
        fgn = m['fstore'] == FStore.FOREIGN_KEY
        obj = base in OBJS
        eq([jf.is_primary, jf.is_inst_field, jf.is_list_field,
            jf.is_list_inst_field, jf.is_foreign_key_store,
            jf.is_local_key_store, jf.is_foreign_one_ref,
            jf.is_foreign_many_ref, jf.is_local_one_ref,
            jf.is_local_many_ref, jf.is_join_table_ref],
           [m['primary'], one, many, many and obj, fgn, loc, one and fgn,
            many and fgn, one and loc, many and loc,
            m['use_join_table'] is True], 'kind of the field')
        eq([jf.fdef.is_ref, jf.fdef.is_inst, jf.fdef.has_linked],
           [loc or fgn, obj, loc or fgn], 'reference kind')
        if one or many:
            expect(jf.foreign_class is (Kid if obj else None),
                   'class of the objects')
        want = Tone if base in ('enum', 'enumname') else None
        for _ in range(2):
            expect(jf.fdef.enum_class is want, 'enum class')
            eq([t.fdef.ftype for t in jf.fdef.union_types or []],
               [FType.STR, FType.INT] if base == 'union' else [],
               'union types')
            items = jf.fdef.item_types
            eq(items and items.fdef.ftype,
               {'list': FType.STR, 'dict': FType.INT, 'objs': FType.INSTANCE,
                'objsname': FType.INSTANCE}.get(base), 'item types')
        eq(jf.fdef.raw_enum_class, 'Tone' if base == 'enumname' else want,
           'declared enum')
        if obj and (loc or fgn):
            ref = 'k_' + n if config == 'plain' else \
                default_ref(n, 'one' if one else 'many')
            eq(jf.ref_name, ref, 'reference name')
    prim = those(lambda m, b: m['primary'])
    if len(prim) < 2:
        eq(cd.primary_field and cd.primary_field.name,
           prim[0] if prim else None, 'primary field')
    eq(listed(cd.calc_fields),
       those(lambda m, b: m['fstore'] == FStore.CALCULATED), 'calculated')
    eq(cd.calc_field_names, listed(cd.calc_fields), 'calculated names')
    eq(listed(cd.setter_fields),
       those(lambda m, b: m['setter'] is not None), 'settable')
    eq(cd.setter_field_names, listed(cd.setter_fields), 'settable names')
    for attr, rule in (('deny_fields', DeleteRule.DENY),
                       ('nullify_fields', DeleteRule.NULLIFY),
                       ('cascade_fields', DeleteRule.CASCADE)):
        eq(listed(getattr(cd, attr)),
           those(lambda m, b: m['delete_rule'] == rule), attr)
    for attr, mark in (('unique_fields', 'unique'),
                       ('assign_operator_fields', 'requires_operator_assign'),
                       ('auth_identity_fields', 'auth_identity'),
                       ('auth_by_fields', 'auth_by')):
        eq(listed(getattr(cd, attr)), those(lambda m, b: m[mark]), attr)
    # names
    refname = {n: cd.field_named(n).ref_name for n in order
               if models[n][0] in OBJS and cd.field_named(n).fdef.is_ref}

    def refs(cond):
        return {refname[n] for n in those(
            lambda m, b: b in OBJS and cond(m)) if n in refname}
    one = refs(lambda m: m['fstore'] == FStore.LOCAL_KEY
               and m['ftype'] == FType.INSTANCE)
    many = refs(lambda m: m['fstore'] == FStore.LOCAL_KEY
                and m['ftype'] == FType.LIST)
    virt = refs(lambda m: m['fstore'] == FStore.FOREIGN_KEY
                and m['use_join_table'])
    eq(cd.reference_names, one, 'reference names')
    eq(cd.list_reference_names, many, 'list reference names')
    eq(cd.virtual_reference_names, virt, 'virtual reference names')
    eq(cd.camelized_reference_names, {out(n) for n in one}, 'output names')
    eq(cd.camelized_list_reference_names, {out(n) for n in many},
       'list output names')
    eq(cd.camelized_virtual_reference_names, {out(n) for n in virt},
       'virtual output names')
    eq({k: f.name for k, f in cd.virtual_reference_fields.items()},
       {refname[n]: n for n in refname if refname[n] in virt},
       'virtual reference fields')
    for n, r in refname.items():
        if r in one | many | virt:
            expect(cd.rname_to_jfield(r) is cd.field_named(n),
                   f'field of the key {r}')
    stored = one | many
    eq(cd.update_names, set(order) | stored, 'names to update')
    eq(cd.available_names,
       set(order) | stored | {out(n) for n in order}
       | {out(n) for n in stored}, 'names to accept')
    return len(order)


def grouped(defs, size, config):
    batch = []
    for d in defs:
        batch.append(d)
        if len(batch) == size:
            yield batch, config
            batch = []
    if batch:
        yield batch, config


def mixed(defs, size):
    """Neighbours in a class come from far apart in the enumeration, so that a
    class never holds only fields of one kind."""
    defs = list(defs)
    n = (len(defs) + size - 1) // size
    return [[defs[j] for j in range(i, len(defs), n)] for i in range(n)]


def definitions(tier):
    deep = 3 if tier == 'quick' else 4
    few = 1 if tier == 'quick' else 2
    for b in BASES:
        own = dict(MARKS)
        own.update(STORE)
        if b in OBJS:
            own.update(LINKS)
        if b in ('enum', 'enumname'):
            own.update(ENUMS)
        full = 2 if b in ('str', 'enum', 'obj', 'objsname') else few
        for c in chains(own, full):
            for at in {0, len(c)} if b not in ('enum', 'enumname') else {0}:
                yield b, c, at
    for b in OBJS:
        for c in chains([*LINKS, 'required', 'nonnull', 'embedded'],
                        deep if b == 'objs' else 2):
            if len(c) > 2:
                yield b, c, 0
        if tier != 'quick':
            for c in chains(LINKS, 3):
                for at in range(1, len(c) + 1):
                    yield b, c, at
    for c in chains(ENUMS, deep):
        if len(c) > 2:
            yield 'enum', c, 0
    rules = ['readonly', 'writeonly', 'readwrite', 'writeonce',
             'writenonnull', 'internal']
    for c in chains(rules, deep):
        if len(c) > 2:
            yield 'str', c, 0
    for c in chains(['index', 'cindex-a', 'cindex-b', 'unique', 'cunique-a',
                     'cunique-b'], deep):
        if len(c) > 2:
            yield 'int', c, 0
    for c in chains(['asop', 'asopd', 'authby', 'authby-2', 'authidentity',
                     'primary'], deep):
        if len(c) > 2:
            yield 'str', c, 0


def chain_cases(tier):
    def cases():
        defs = sorted(set(definitions(tier)))
        for size in (1, 9):
            part = defs if size == 9 else \
                [d for d in defs if len(d[1]) <= 1]
            for i, batch in enumerate(mixed(part, size)):
                for config in ('default', 'plain'):
                    if size == 9 and (i % 2) != (config == 'plain'):
                        continue

                    def go(batch=batch, config=config):
                        return check_class(batch, config)
                    yield [config, [[b, list(c), at] for b, c, at in batch]], \
                        go
    return cases


# both ends of a relationship ------------------------------------------------
# each end: how it is stored; "k" counts parallel relationships between the
# same two classes

ENDS = {
    'one-many': ('obj', 'linkto', 'objs', 'linkedby'),
    'one-one': ('obj', 'linkto', 'obj', 'linkedby'),
    'keys-many': ('objs', 'linkto', 'objs', 'linkedby'),
    'keys-one': ('objs', 'linkto', 'obj', 'linkedby'),
    'many-many': ('objs', 'linkedthru', 'objs', 'linkedthru'),
    'one-none': ('obj', 'linkto', None, None),
    'keys-none': ('objs', 'linkto', None, None),
    'none': (None, None, None, None),
}


def relation_case(kinds, same, swap, byname, first):
    nr = next(COUNT)
    graph = f'{G}-rel-{nr}'
    na, nb = f'Ra{nr}', (f'Ra{nr}' if same else f'Rb{nr}')
    fields = {'A': {}, 'B': {}}
    expected = []
    order = list(enumerate(kinds))
    if swap:
        order.reverse()
    built = {}

    def of(side, shape):
        target = {'A': nb, 'B': na}[side]
        if not byname and target in built:
            target = built[target]
        return types.objof(target) if shape == 'obj' else types.listof(target)
    for i, kind in order:
        sa, la, sb, lb = ENDS[kind]
        a, b = f'here_{i}', f'there_{i}'
        if sa:
            fields['A'][a] = (sa, la, b)
            expected.append(('A', a, 'B', b if sb else None))
        if sb:
            fields['B'][b] = (sb, lb, a)
            expected.append(('B', b, 'A', a))

    def make(side, extra=()):
        ns = {'__annotations__': {'id': int}, 'id': types.int.primary,
              '__module__': __name__}
        for s in (side, *extra):
            for n, (shape, l, other) in fields[s].items():
                t = of(s, shape)
                t = t.linkto if l == 'linkto' else getattr(t, l)(other)
                ns[n] = t
                ns['__annotations__'][n] = object
        name = {'A': na, 'B': nb}[side]
        built[name] = jsonclass(class_graph=graph)(type(name, (), ns))
    if same:
        make('A', ('B',))
    elif first == 'A':
        make('A')
        make('B')
    else:
        make('B')
        make('A')
    A, B = built[na], built[nb]
    cls = {'A': A, 'B': B}
    for side, f, oside, of_ in expected:
        jf = cls[side].cdef.field_named(f)
        expect(jf.foreign_class is cls[oside], f'{f}: class at the other end')
        expect(jf.foreign_cdef is cls[oside].cdef, f'{f}: other definition')
        eq(jf.foreign_fname, of_, f'{f}: field at the other end')
        if of_ is None:
            expect(jf.foreign_field is None, f'{f}: no field')
        else:
            expect(jf.foreign_field is cls[oside].cdef.field_named(of_),
                   f'{f}: field at the other end')
    jf = A.cdef.field_named('id')
    eq([jf.foreign_class, jf.foreign_cdef, jf.foreign_field,
        jf.foreign_fname], [None] * 4, 'no other end')
    try:
        A.cdef.field_named('nothing')
    except ValueError:
        pass
    else:
        expect(False, 'field which is not there')
    return len(expected)


def relation_cases(tier):
    depth = 2 if tier == 'quick' else 3

    def cases():
        for n in range(1, depth + 1):
            for kinds in product(ENDS, repeat=n):
                for same, swap, byname, first in product(
                        (False, True), (False, True), (False, True), 'AB'):
                    if n > 2 and (swap or first == 'B'):
                        continue
                    if same and not byname:
                        continue

                    def go(a=(kinds, same, swap, byname, first)):
                        kinds, same, swap, byname, first = a
                        return relation_case(*a) if byname else \
                            relation_case(kinds, same, swap, False, first)
                    yield [list(kinds), same, swap, byname, first], go
    return cases


def scenarios(tier):
    n = 8
    return enums(n, 'chains', chain_cases(tier)) \
        + enums(n, 'relations', relation_cases(tier))
