"""C24: configuration and inheritance are isolated per class."""
from __future__ import annotations
from itertools import combinations, count, permutations, product
from typing import Any
from jsonclasses import jsonclass, types
from jsonclasses.excs import (
    AbstractJSONClassException, JSONClassResetNotEnabledError,
    UnauthorizedActionException, ValidationException)
from jsonclasses.jconf import JConf
from mc.core import digest, enums, eq, expect

COUNT = count()
LOG = []


def shout(name):
    return name.upper()


def key_of(field):
    return field.name + '_key'


# settings: name -> values (None means left out)
SETTINGS = {
    'camelize_json_keys': [False, True],
    'output_key_strategy': [shout],
    'strict_input': [False, True],
    'ref_name_strategy': [key_of],
    'validate_all_fields': [True, False],
    'abstract': [True],
    'reset_all_fields': [True, False],
    'output_null': [True, False],
    'hooks': [True],
    'deny': ['can_create', 'can_update', 'can_delete', 'can_read'],
}
PAIRS = [(k, v) for k, vs in SETTINGS.items() for v in vs]


def configs(n):
    for m in range(n + 1):
        for c in combinations(PAIRS, m):
            if len({k for k, _ in c}) == m:
                if {'camelize_json_keys', 'output_key_strategy'} \
                        <= {k for k, _ in c}:
                    continue
                yield dict(c)


def kwargs(conf, tag):
    kw = {k: v for k, v in conf.items() if k not in ('hooks', 'deny')}
    if conf.get('hooks'):
        for a in ('create', 'update', 'delete'):
            kw['on_' + a] = (lambda a: lambda o: LOG.append((tag, a)))(a)
    if conf.get('deny'):
        kw[conf['deny']] = lambda o, op: False
    return kw


def body(tag, extra=()):
    """A class body with everything the settings act on."""
    ns = {'__annotations__': {}}

    def f(name, t):
        ns['__annotations__'][name] = Any
        ns[name] = t
    f('id', types.int.primary)
    f(f'{tag}_one', types.int.max(5))
    f(f'{tag}_two', types.int.max(5))
    f(f'{tag}_dic', types.dictof(types.int))
    f(f'{tag}_ref', types.objof('R').linkto)
    for n, t in extra:
        f(n, t)
    return ns


def out_key(conf, name):
    if conf.get('output_key_strategy'):
        return conf['output_key_strategy'](name)
    if conf.get('camelize_json_keys') is False:
        return name
    head, *rest = name.split('_')
    return head + ''.join(x.capitalize() for x in rest)


def probe(cls, conf, tags, what, related=()):
    """Compare everything observable with the class's own settings.

    tags: prefixes of the fields the class has (its bases' and its own)."""
    if conf.get('abstract'):
        try:
            cls(id=1)
        except AbstractJSONClassException:
            return
        expect(False, f'{what}: an abstract class is instantiated')
    me = tags[-1]
    key = 'ref_key' if conf.get('ref_name_strategy') else 'ref_id'
    k = lambda n: out_key(conf, n)
    # input
    given = {'id': 1}
    for t in tags:
        given |= {f'{t}_one': 1, f'{t}_dic': {'x_y': 2}, f'{t}_{key}': 7}
    o = cls(**given)
    o2 = cls(**{(k(n) if n != 'id' else n): v for n, v in given.items()})
    try:
        cls(id=1, zz=1)
        strict = False
    except ValidationException:
        strict = True
    eq(strict, conf.get('strict_input', True) is not False,
       f'{what}: strict input')
    # output
    want = {k('id'): 1}
    null = conf.get('output_null', False)
    for t in tags:
        want[k(f'{t}_one')] = 1
        if null:
            want[k(f'{t}_two')] = None
        want[k(f'{t}_dic')] = {'x_y': 2}
        want[k(f'{t}_{key}')] = 7
        if null:
            want[k(f'{t}_ref')] = None
    for f in related:
        if null:
            want[k(f)] = None
    op = 'x'
    if conf.get('deny') == 'can_read':
        try:
            o.opby(op).tojson()
            expect(False, f'{what}: reading is allowed')
        except UnauthorizedActionException:
            pass
    else:
        eq(o.opby(op).tojson(), want, f'{what}: output')
        eq(o2.opby(op).tojson(), want, f'{what}: output of output keys')
    # validation
    bad = cls(id=1, **{f'{me}_one': 9, f'{me}_two': 9})
    try:
        bad.validate()
        n = 0
    except ValidationException as e:
        n = len(e.keypath_messages)
    eq(n, 2 if conf.get('validate_all_fields') else 1,
       f'{what}: messages')
    # save, hooks and permissions
    for action in ('create', 'update', 'delete'):
        o = cls(id=1, **{f'{me}_one': 1}).opby(op)
        if action != 'create':
            o._mark_unmodified()
            setattr(o, f'{me}_one', 2)
        LOG.clear()
        try:
            o.delete() if action == 'delete' else o.save()
            ok = True
        except UnauthorizedActionException:
            ok = False
        eq(ok, conf.get('deny') != 'can_' + action, f'{what}: {action}')
        eq(LOG, [(me, action)] if ok and conf.get('hooks') else [],
           f'{what}: callbacks of {action}')
    # reset
    o = cls(id=1, **{f'{me}_one': 1})
    o._mark_unmodified()
    setattr(o, f'{me}_one', 2)
    try:
        o.reset()
        ok = True
        eq(getattr(o, f'{me}_one'), 1, f'{what}: reset')
    except JSONClassResetNotEnabledError:
        ok = False
    eq(ok, bool(conf.get('reset_all_fields')), f'{what}: reset allowed')


RELATIONS = ['apart', 'embeds', 'links', 'inherits', 'graphs']


def run(ca, cb, rel, order):
    g = f'verif-c24-{next(COUNT)}'
    g2 = g + ('-2' if rel == 'graphs' else '')
    cls = {}
    extra = {'embeds': [('a_sub', types.objof('B'))],
             'links': [('a_sub', types.listof('B').linkedby('b_up'))]
             }.get(rel, [])
    extra_b = [('b_up', types.objof('A').linkto)] if rel == 'links' else []

    def define(n):
        if n == 'R':
            for gr in {g, g2}:
                jsonclass(class_graph=gr)(type('R', (), {
                    'id': types.int.primary, '__annotations__': {'id': Any}}))
        if n == 'A':
            bases = (cls['B'],) if rel == 'inherits' else ()
            cls['A'] = jsonclass(class_graph=g, **kwargs(ca, 'a'))(
                type('A', bases, body('a', extra)))
        if n == 'B':
            name = 'A' if rel == 'graphs' else 'B'
            cls['B'] = jsonclass(class_graph=g2, **kwargs(cb, 'b'))(
                type(name, (), body('b', extra_b)))
    for n in order:
        define(n)
    todo = {'A': lambda: probe(cls['A'], ca,
                               ['b', 'a'] if rel == 'inherits' else ['a'],
                               'A', ['a_sub'] if extra else []),
            'B': lambda: probe_b(cls, cb, rel)}
    for n in (order if rel != 'inherits' else [*order[::-1], *order]):
        if n in todo:
            todo[n]()
    if extra and not ca.get('abstract') and not cb.get('abstract'):
        nested(cls, ca, cb, rel)
    return digest([sorted(ca), sorted(cb), rel])


def probe_b(cls, cb, rel):
    if rel == 'links':
        # the additional reference shows up in null output
        if cb.get('output_null') and not cb.get('abstract'):
            o = cls['B'](id=1).opby('x')
            if cb.get('deny') != 'can_read':
                key = 'b_up_key' if cb.get('ref_name_strategy') else 'b_up_id'
                j = o.tojson()
                expect(out_key(cb, key) in j, 'B: null reference key')
            return
    probe(cls['B'], cb, ['b'], 'B')


def nested(cls, ca, cb, rel):
    """Each level of nested output and input follows its own class."""
    if ca.get('deny') == 'can_read':
        return
    inner = {'id': 2, 'b_one': 1, 'b_dic': {'x_y': 3}}
    o = cls['A'](id=1, a_one=4, a_sub=inner if rel == 'embeds' else [inner])
    j = o.opby('x').tojson()
    sub = j[out_key(ca, 'a_sub')]
    sub = sub if rel == 'embeds' else sub[0]
    eq(j[out_key(ca, 'a_one')], 4, 'nested: outer key')
    eq(sub[out_key(cb, 'b_one')], 1, 'nested: inner key')
    eq(sub[out_key(cb, 'b_dic')], {'x_y': 3},
       'nested: keys of an inner dict')
    eq(out_key(cb, 'b_two') in sub, bool(cb.get('output_null')),
       'nested: inner null')
    eq(out_key(ca, 'a_two') in j, bool(ca.get('output_null')),
       'nested: outer null')
    bad = {'id': 2, 'zz': 1}
    try:
        cls['A'](id=1, a_sub=bad if rel == 'embeds' else [bad])
        strict = False
    except ValidationException as e:
        strict = True
        key = 'a_sub.zz' if rel == 'embeds' else 'a_sub.0.zz'
        eq(list(e.keypath_messages), [key], 'nested: strict key path')
    eq(strict, cb.get('strict_input', True) is not False, 'nested: strict')
    bad = {'id': 2, 'b_one': 9, 'b_two': 9}
    o = cls['A'](id=1, a_sub=bad if rel == 'embeds' else [bad])
    try:
        o.validate()
        expect(False, 'nested: invalid values pass')
    except ValidationException as e:
        eq(len(e.keypath_messages), 2 if cb.get('validate_all_fields') else 1,
           'nested: messages')


def settings(thorough):
    def cases():
        for rel in RELATIONS:
            orders = ['RAB', 'RBA'] if rel not in ('inherits',) else ['RBA']
            if thorough:
                orders += ['ABR', 'BAR'] if rel != 'inherits' else ['BAR']
            big, small = list(configs(2)), list(configs(1))
            if not thorough:
                big = [c for i, c in enumerate(big) if len(c) < 2 or i % 2]
            combos = [*product(big, small)]
            if rel in ('apart', 'graphs') and not thorough:
                combos = [*product(small, small)]
            for (ca, cb), order in product(combos, orders):
                yield ([name(ca), name(cb), rel, order],
                       lambda a=(ca, cb, rel, order): run(*a))
    return cases


# ------------------------------------------------------------ three levels

def chain(confs, shape, again):
    """Classes a <- b <- c (or a, b <- c): each follows its own settings."""
    g = f'verif-c24-{next(COUNT)}'
    jsonclass(class_graph=g)(type('R', (), {
        'id': types.int.primary, '__annotations__': {'id': Any}}))
    made, tags = {}, {}
    for tag, conf in zip('abc', confs):
        bases = {'line': 'abc'['abc'.index(tag) - 1:][:1] if tag != 'a'
                 else '', 'fork': 'a' if tag != 'a' else '',
                 'join': 'ab' if tag == 'c' else ''}[shape]
        made[tag] = jsonclass(class_graph=g, **kwargs(conf, tag))(
            type(tag.upper(), tuple(made[b] for b in bases), body(tag)))
        order = bases[::-1]             # fields of the last base come first
        tags[tag] = [t for b in order for t in tags[b]] + [tag]
        if again == 'early':
            probe(made[tag], conf, tags[tag], f'{tag} when defined')
    for t in ('abc', 'cba', 'bcab')[again == 'back' and 1 or
                                    again == 'early' and 2]:
        probe(made[t], confs['abc'.index(t)], tags[t], t)
    return digest([shape, again, [sorted(c) for c in confs]])


def levels(thorough):
    def cases():
        sets = []
        for k, vs in SETTINGS.items():
            alts = [{}] + [{k: v} for v in vs]
            sets += product(alts, repeat=3)
        if thorough:
            sets += product(configs(1), configs(1), [{}])
        for confs, shape, again in product(sets, ('line', 'fork', 'join'),
                                           ('none', 'back', 'early')):
            yield ([[name(c) for c in confs], shape, again],
                   lambda a=(confs, shape, again): chain(*a))
    return cases


def name(c):
    return sorted([k, getattr(v, '__name__', v)] for k, v in c.items())


# ---------------------------------------------------------------- inheritance

def base(ns, g):
    @jsonclass(class_graph=g)
    class Base:
        id: int = types.int.primary
        name: Any = types.str.maxlength(3).required
        tags: Any = types.listof(str)
        items: Any = types.listof('Item').linkedby('owner')
    return Base


def item(ns, g):
    @jsonclass(class_graph=g)
    class Item:
        id: int = types.int.primary
        owner: Any = types.objof('Base').linkto
    return Item


def sub(ns, g):
    @jsonclass(class_graph=g)
    class Sub(ns['Base']):
        extra: Any = types.int
        name: Any = types.int
    return Sub


def leaf(ns, g):
    @jsonclass(class_graph=g, abstract=False)
    class Leaf(ns['Sub']):
        more: Any = types.str
    return Leaf


def other(ns, g):
    @jsonclass(class_graph=g)
    class Other:
        note: Any = types.str.default('n')
    return Other


def mixed(ns, g):
    @jsonclass(class_graph=g)
    class Mixed(ns['Other'], ns['Base']):
        own: Any = types.bool
    return Mixed


DEFS = {'Base': base, 'Item': item, 'Sub': sub, 'Leaf': leaf, 'Other': other,
        'Mixed': mixed}
NEED = {'Sub': ['Base'], 'Leaf': ['Sub'], 'Mixed': ['Base', 'Other']}
FIELDS = {
    'Base': ['id', 'name', 'tags', 'items'],
    'Item': ['id', 'owner'],
    'Sub': ['id', 'name', 'tags', 'items', 'extra'],
    'Leaf': ['id', 'name', 'tags', 'items', 'extra', 'more'],
    'Other': ['note'],
    'Mixed': ['id', 'name', 'tags', 'items', 'note', 'own'],
}
GOOD = {
    'Base': {'id': 1, 'name': 'ab', 'tags': ['x']},
    'Item': {'id': 2},
    'Sub': {'id': 1, 'name': 12345, 'tags': ['x'], 'extra': 3},
    'Leaf': {'id': 1, 'name': 12345, 'tags': ['x'], 'extra': 3, 'more': 'm'},
    'Other': {'note': 'n'},
    'Mixed': {'id': 1, 'name': 'ab', 'tags': ['x'], 'note': 'q', 'own': True},
}
BAD = {
    'Base': [{'id': 1, 'name': 'abcd'}, {'id': 1}, {'id': 1, 'name': 5}],
    'Item': [], 'Other': [{'note': 5}],
    'Sub': [{'id': 1, 'name': 'ab'}, {'extra': 'x'}],
    'Leaf': [{'name': 'ab'}, {'extra': 'x'}, {'more': 5}],
    'Mixed': [{'name': 'abcd'}, {'own': 5, 'name': 'a'}],
}


def inspect(ns, n):
    cls = ns[n]
    eq([f.name for f in cls.cdef.fields], FIELDS[n], f'fields of {n}')
    o = cls(**GOOD[n])
    o.validate()
    eq(o.tojson(), GOOD[n], f'output of {n}')
    for b in BAD[n]:
        try:
            cls(**b).validate()
        except ValidationException:
            continue
        expect(False, f'{n} accepts {b}')
    for k in {'extra', 'more', 'own', 'note', 'owner', 'tags'} \
            - set(FIELDS[n]):
        try:
            cls(**{k: None})
        except ValidationException:
            continue
        expect(False, f'{n} has a field {k}')
    # two objects of relatives stay apart
    for m in ns:
        if m in ('Item', 'Other') or n in ('Item', 'Other'):
            continue
        p = ns[m](**GOOD[m])
        o = cls(**GOOD[n])
        o.tags.append('y')
        o.name = GOOD[n]['name']
        eq(p.tojson(), GOOD[m], f'{m} after changing {n}')
    if n == 'Base' and 'Item' in ns:
        b = cls(id=1, name='ab', items=[{'id': 5}])
        expect(b.items[0].owner is b, 'Item is not linked to its Base')
        i = ns['Item'](id=6, owner={'id': 2, 'name': 'c'})
        expect(type(i.owner) is cls and i.owner.items[0] is i,
               'Base is not linked to its Item')


def inherit(thorough):
    names = list(DEFS)

    def cases():
        for order in permutations(names):
            if any(order.index(b) > order.index(n)
                   for n, bs in NEED.items() for b in bs):
                continue
            for early in ((), ('Base',), ('Base', 'Item'), ('Sub',)) \
                    if thorough else ((), ('Base',)):
                for last in (False, True):
                    yield ([order, early, last],
                           lambda a=(order, early, last): family(*a))
    return cases


def family(order, early, last):
    g = f'verif-c24-{next(COUNT)}'
    ns = {}
    for i, n in enumerate(order):
        ns[n] = DEFS[n](ns, g)
        for e in early:
            # a class that is used before its relatives exist
            if e in ns and (e not in ('Base', 'Sub', 'Item')
                            or 'Item' in ns and 'Base' in ns):
                inspect(ns, e)
    for n in (order[::-1] if last else order):
        inspect(ns, n)


def noop(o):
    return None


def never(o, op):
    return False


ALL = {'cgraph': ['verif-c24-a', 'verif-c24-b', None],
       'output_key_strategy': [shout, 'identical', 'camelize'],
       'input_key_strategy': [shout, 'identical', 'underscore'],
       'strict_input': [True, False], 'ref_name_strategy': [key_of, None],
       'validate_all_fields': [True, False], 'abstract': [True, False],
       'reset_all_fields': [True, False], 'output_null': [True, False],
       **{'on_' + a: [noop, None, [noop, noop]]
          for a in ('create', 'update', 'delete')},
       **{'can_' + a: [never, None, [never, never]]
          for a in ('create', 'update', 'delete', 'read')}}


def equal_cases():
    """Configurations are equal exactly when all their settings are."""
    first = {k: v[0] for k, v in ALL.items()}
    some = [first] + [{**first, k: v} for k, vs in ALL.items()
                      for v in vs[1:]]
    some += [{k: v[-1] for k, v in ALL.items()}]
    for i, j in product(range(len(some)), repeat=2):
        def go(i=i, j=j):
            a, b = JConf(**some[i]), JConf(**some[j])
            eq(a == b, i == j, f'{some[i]} and {some[j]}')
            eq(a != b, i != j, 'unequal')
            expect(a != some[i] and a != None, 'equal to others')  # noqa
            for c, conf in ((a, some[i]), (b, some[j])):
                for k, v in conf.items():
                    got = getattr(c, k)
                    if k.startswith(('on_', 'can_')):
                        want = v if isinstance(v, list) else \
                            [] if v is None else [v]
                        eq(list(got or []), want, k)
                    elif k == 'cgraph' and v is not None:
                        eq(got.name, v, k)
                    elif callable(v) or isinstance(v, bool):
                        expect(got is v or got == v, k)
        yield [i, j], go


RULES = ['on_create', 'on_update', 'on_delete', 'can_create', 'can_update',
         'can_delete', 'can_read']


def rule_cases():
    """Callbacks and guards given as nothing, one or a list: each class has
    exactly its own ones."""
    f, g, chain_ = (lambda o, p: None), (lambda o, p: True), types.getop
    forms = [(None, []), ([], []), (f, [f]), ([g], [g]), ([f, g], [f, g]),
             (chain_, [chain_]), ([chain_, f], [chain_, f])]

    def go(names, given):
        kw = {n: list(x[0]) if isinstance(x[0], list) else x[0]
              for n, x in zip(names, given)}
        cls = jsonclass(class_graph=f'verif-c24-{next(COUNT)}', **kw)(
            type('C', (), {'__annotations__': {'v': Any},
                           '__module__': __name__, 'v': types.int}))
        bare = jsonclass(class_graph=cls.cdef.jconf.cgraph.name)(
            type('D', (), {'__annotations__': {'v': Any},
                           '__module__': __name__, 'v': types.int}))
        want = dict(zip(names, [x[1] for x in given]))
        for n in RULES:
            got = getattr(cls.cdef.jconf, n)
            eq(list(map(id, got)), list(map(id, want.get(n, []))), n)
            eq(list(getattr(bare.cdef.jconf, n)), [], f'other class: {n}')
    for names in combinations(RULES, 2):
        for given in product(forms, repeat=2):
            yield [names, [forms.index(x) for x in given]], \
                lambda a=(names, given): go(*a)


def scenarios(tier):
    t = tier == 'thorough'
    return [*enums(10, 'settings', settings(t)),
            *enums(6, 'inherit', inherit(t)), *enums(4, 'levels', levels(t)),
            *enums(1, 'rules', rule_cases),
            *enums(1, 'equal', equal_cases)]
