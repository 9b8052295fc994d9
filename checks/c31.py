"""C31: defaults fill exactly the fields the input leaves out."""
from __future__ import annotations
from dataclasses import field
from datetime import date, datetime, timedelta, timezone
from itertools import product
from typing import Any, Optional
from jsonclasses import jsonclass, types
from mc.core import enums, eq, expect

G = 'verif-c31'
COUNT = [0]


def tick():
    COUNT[0] += 1
    return COUNT[0]


@jsonclass(class_graph=G)
class Kid:
    n: Any = types.int.default(8)
    tags: Any = types.listof(str).default(['k'])
    word: str = 'w'
    free: Any = types.int


@jsonclass(class_graph=G)
class Big:
    first: Any = types.int
    plain: int = 5
    plain_str: Optional[str] = 'p'
    plain_off: bool = False
    plain_zero: float = 0.0
    chain: Any = types.int.default(3)
    falsy: Any = types.int.default(0)
    empty: Any = types.str.default('')
    off: Any = types.bool.default(False)
    made: Any = types.int.default(tick)
    some_list: Any = types.listof(types.listof(int)).default([[1], [2]])
    made_list: Any = types.listof(int).default(lambda: [4])
    some_dict: Any = types.dictof(types.listof(int)).default({'k': [1]})
    piped: Any = types.str.default('ab').transform(lambda v: v + '!')
    early: Any = types.default('zz').str.toupper
    stepped: Any = types.listof(int).default([1]).append(9)
    computed: Any = types.int.default(types.default(3).add(2))
    locked: Any = types.int.readonly.default(7)
    inner: Any = types.int.internal.default(6)
    once: Any = types.str.writeonce.default('o')
    kept: Any = types.str.writenonnull.default('q')
    nonnull_list: Any = types.nonnull.listof(int)
    nonnull_dict: Any = types.nonnull.dictof(int)
    factory: list[int] = field(default_factory=lambda: [3])
    none: Any = types.str
    none_list: Any = types.listof(int)
    kid: Any = types.objof('Kid')


@jsonclass(class_graph=G)
class Sub(Big):
    plain: int = 50
    chain: Any = types.int.default(30)
    last: Any = types.str.default('last')


# field -> (default, given values (input, stored))
SPEC: dict = {
    'first': (None, [(1, 1), (0, 0)]),
    'plain': (5, [(1, 1), (0, 0), (5, 5)]),
    'plain_str': ('p', [('x', 'x'), ('', '')]),
    'plain_off': (False, [(True, True), (False, False)]),
    'plain_zero': (0.0, [(1.5, 1.5), (0.0, 0.0)]),
    'chain': (3, [(1, 1), (0, 0), (3, 3)]),
    'falsy': (0, [(1, 1), (0, 0)]),
    'empty': ('', [('x', 'x'), ('', '')]),
    'off': (False, [(True, True), (False, False)]),
    'made': (tick, [(-1, -1), (0, 0)]),
    'some_list': ([[1], [2]], [([[5]], [[5]]), ([], []), ([[]], [[]])]),
    'made_list': ([4], [([5], [5]), ([], [])]),
    'some_dict': ({'k': [1]}, [({'z': []}, {'z': []}), ({}, {})]),
    'piped': ('ab!', [('x', 'x!'), ('', '!')]),
    'early': ('ZZ', [('x', 'X'), ('', '')]),
    'stepped': ([1, 9], [([5], [5, 9]), ([], [9])]),
    'computed': (5, [(1, 1), (0, 0)]),
    'locked': (7, [(1, 7), (0, 7)]),
    'inner': (6, [(1, 6), (0, 6)]),
    'once': ('o', [('x', 'x'), ('', '')]),
    'kept': ('q', [('x', 'x'), ('', '')]),
    'nonnull_list': ([], [([5], [5]), ([], [])]),
    'nonnull_dict': ({}, [({'z': 1}, {'z': 1}), ({}, {})]),
    'factory': ([3], [([5], [5]), ([], [])]),
    'none': (None, [('x', 'x'), ('', '')]),
    'none_list': (None, [([5], [5]), ([], [])]),
}
SUB = {**SPEC, 'plain': (50, SPEC['plain'][1]),
       'chain': (30, SPEC['chain'][1]), 'last': ('last', [('x', 'x')])}
# what an explicit null becomes where that is stated
NULL = {'first': None, 'plain': None, 'plain_str': None, 'plain_off': None,
        'plain_zero': None, 'none': None, 'none_list': None, 'locked': 7,
        'inner': 6, 'kept': 'q', 'nonnull_list': [], 'nonnull_dict': {}}


def js(name):
    a, *rest = name.split('_')
    return a + ''.join(w.title() for w in rest)


def judge(o, spec, want, where):
    seen = []
    for f in spec:
        if f not in want:
            continue
        w, got = want[f], getattr(o, f)
        if w is tick:
            expect(isinstance(got, int) and got > 0, f'{where}: {f} is {got}')
            seen.append(got)
        else:
            eq(got, w, f'{where}: {f}')
            eq(type(got) in (bool,), type(w) in (bool,), f'{where}: {f} type')
    return seen


def build(cls, spec, choice, camel):
    """choice: field -> index of the given value, 'null' or missing."""
    kw, want = {}, {}
    for f, (d, given) in spec.items():
        c = choice.get(f)
        if c is None:
            want[f] = d
        elif c == 'null':
            kw[js(f) if camel else f] = None
            if f in NULL:
                want[f] = NULL[f]
        else:
            v, stored = given[c]
            kw[js(f) if camel else f] = v
            want[f] = stored
    return kw, want


def spoil(o):
    """Changes every container of an object, at every depth."""
    for f in o.__class__.cdef.fields:
        v = getattr(o, f.name)
        if isinstance(v, dict):
            for x in v.values():
                if isinstance(x, list):
                    x.append(77)
            v['spoiled'] = 1
        if isinstance(v, list):
            for x in v:
                if isinstance(x, list):
                    x.append(77)
            v.append(78)
    o.plain = o.chain = -5


def one(sub, choice, camel):
    cls, spec = (Sub, SUB) if sub else (Big, SPEC)
    kw, want = build(cls, spec, choice, camel)
    a, b = cls(**kw), None
    ta = judge(a, spec, want, 'first object')
    spoil(a)
    kw, want = build(cls, spec, choice, camel)
    b = cls(**kw)
    tb = judge(b, spec, want, 'second object')
    expect(not set(ta) & set(tb), 'a computed default is evaluated anew')
    # batch set does not bring any default back
    for f in spec:
        if f != 'none':
            setattr(b, f, None)
    b.set(none='given')
    for f in spec:
        if f != 'none' and f not in ('nonnull_list', 'nonnull_dict'):
            eq(getattr(b, f), None, f'{f} after a batch set of another field')
    eq(b.none, 'given', 'the batch set')


def singles():
    def cases():
        for sub in (False, True):
            spec = SUB if sub else SPEC
            for f, (_, given) in spec.items():
                for c in [None, *range(len(given)), 'null']:
                    for camel in (True, False):
                        yield [sub, f, c, camel], lambda a=(
                            sub, {} if c is None else {f: c}, camel): one(*a)
    return cases


def subsets(names, values):
    """All combinations over some fields, the others missing or given."""
    def cases():
        for combo in product(values, repeat=len(names)):
            for rest in (None, 0):
                choice = {f: 0 for f in SPEC} if rest == 0 else {}
                for f, c in zip(names, combo):
                    choice.pop(f, None)
                    if c is not None:
                        choice[f] = c
                yield [list(combo), rest], \
                    lambda ch=choice: one(False, ch, True)
    return cases


def pairs():
    def cases():
        names = list(SPEC)
        for i, f in enumerate(names):
            for g in names[i + 1:]:
                for c, d in product([0, 1], repeat=2):
                    for inverse in (False, True):
                        if inverse:
                            ch = {h: 0 for h in names if h not in (f, g)}
                        else:
                            ch = {f: c, g: d}
                        yield [f, g, c, d, inverse], \
                            lambda ch=ch: one(False, ch, True)
    return cases


KID = {'n': (8, [1, 0]), 'tags': (['k'], [['z'], []]), 'word': ('w', ['x']),
       'free': (None, [4, 0])}


@jsonclass(class_graph=G)
class House:
    name: Any = types.str.default('house')
    kid: Any = types.objof('Kid')
    kids: Any = types.listof('Kid')
    by: Any = types.dictof('Kid')
    rooms: Any = types.listof('Room').linkedby('house')


@jsonclass(class_graph=G)
class Room:
    id: int = types.int.primary
    size: Any = types.int.default(20)
    door: str = 'oak'
    house: Any = types.objof('House').linkto


def nested():
    """Objects created from nested input get their own defaults, when
    building and when batch-setting."""
    def run(via, pos, combo, again):
        kw, want = {}, {}
        for (f, (d, given)), c in zip(KID.items(), combo):
            if c is None:
                want[f] = d
            else:
                kw[f] = want[f] = given[c]
        value = {'kid': dict(kw), 'kids': [dict(kw), {}],
                 'by': {'a': dict(kw), 'b': {}}}[pos]
        if via == 'init':
            h = House(**{pos: value})
            eq(h.name, 'house', 'outer default')
        else:
            h = House(name='given')
            h.name = None
            h.set(**{pos: value})
            eq(h.name, None, 'outer field')
        got = getattr(h, pos)
        first = got if pos == 'kid' else got[0 if pos == 'kids' else 'a']
        eq({f: getattr(first, f) for f in KID}, want, 'nested object')
        if pos != 'kid':
            other = got[1 if pos == 'kids' else 'b']
            first.tags.append('spoil')
            eq({f: getattr(other, f) for f in KID},
               {f: d for f, (d, _) in KID.items()}, 'other nested object')
        eq(Kid().tags, ['k'], 'a later object')

    def rooms(via, given):
        value = [{'id': i + 1, **{k: v for k, v in g.items()}}
                 for i, g in enumerate(given)]
        h = House(rooms=value) if via == 'init' else \
            House().set(rooms=value)
        eq([[r.id, r.size, r.door] for r in h.rooms],
           [[i + 1, g.get('size', 20), g.get('door', 'oak')]
            for i, g in enumerate(given)], 'linked objects')

    def cases():
        for via in ('init', 'set'):
            for pos in ('kid', 'kids', 'by'):
                for combo in product(*([None, *range(len(g))]
                                       for _, g in KID.values())):
                    yield [via, pos, combo], \
                        lambda a=(via, pos, combo, 0): run(*a)
            opts = [{}, {'size': 1}, {'size': 0}, {'door': 'x'},
                    {'size': 2, 'door': ''}]
            for n in range(4):
                for given in product(opts, repeat=n):
                    yield [via, given], lambda a=(via, given): rooms(*a)
    return cases


SORTS = {
    'int': (int, types.int, [0, 1, -1, 2 ** 70]),
    'float': (float, types.float, [0.0, 1.5, -2.0]),
    'bool': (bool, types.bool, [False, True]),
    'str': (str, types.str, ['', 'a', '0', 'null', ' ']),
    'date': (date, types.date, [date(2001, 2, 3), date.min]),
    'datetime': (datetime, types.datetime,
                 [datetime(2001, 2, 3, tzinfo=timezone.utc)]),
    'list': (list[int], types.listof(int), [[], [0], [1, 2]]),
    'dict': (dict[str, int], types.dictof(int), [{}, {'a': 0}, {'B_c': 1}]),
    'lists': (list[list[int]], types.listof(types.listof(int)),
              [[], [[]], [[1], [2]]]),
    'any': (Any, types.any, [0, '', False, [], {}, 'x']),
}
KINDS = ['plain', 'optional', 'chain', 'made', 'field', 'factory',
         'required', 'first']
WAYS = ['new', 'nested', 'nested-list', 'nested-set', 'sub']
MADE = {}


def plain_copy(v):
    return [plain_copy(x) for x in v] if isinstance(v, list) else \
        {k: plain_copy(x) for k, x in v.items()} if isinstance(v, dict) else v


def default_class(sort, kind, i):
    if (sort, kind, i) in MADE:
        return MADE[sort, kind, i]
    hint, t, vals = SORTS[sort]
    v = vals[i]
    hint = Optional[hint] if kind == 'optional' else \
        hint if kind in ('plain', 'field', 'factory') else Any
    ns = {'__module__': __name__, '__annotations__': {
        'a': Any, 'x': hint, 'z': Any}, 'a': types.int, 'z': types.str,
        'x': {'plain': lambda: v, 'optional': lambda: v,
              'chain': lambda: t.default(v),
              'made': lambda: t.default(lambda: plain_copy(v)),
              'field': lambda: field(default=v),
              'factory': lambda: field(
                  default_factory=lambda: plain_copy(v)),
              'required': lambda: t.default(v).required,
              'first': lambda: getattr(types.default(v), sort)
              }[kind]()}
    g = f'verif-c31-{sort}-{kind}-{i}'
    cls = jsonclass(class_graph=g)(type('D', (), ns))
    sub = jsonclass(class_graph=g)(type('S', (cls,), {
        '__module__': __name__, '__annotations__': {'w': Any},
        'w': types.int}))
    top = jsonclass(class_graph=g)(type('Top', (), {
        '__module__': __name__,
        '__annotations__': {'d': Any, 'ds': Any},
        'd': types.objof('D'), 'ds': types.listof('D')}))
    MADE[sort, kind, i] = cls, sub, top
    return MADE[sort, kind, i]


def matrix():
    """Every kind of default with every sort of value, falsy ones too."""
    def run(sort, kind, i, way, given):
        cls, sub, top = default_class(sort, kind, i)
        vals = SORTS[sort][2]

        def make():
            kw = {'a': 1, 'z': 'q'}
            if given is not None:
                kw['x'] = plain_copy(vals[given])
            return {'new': lambda: cls(**kw), 'sub': lambda: sub(w=2, **kw),
                    'nested': lambda: top(d=kw).d,
                    'nested-list': lambda: top(ds=[{}, kw]).ds[1],
                    'nested-set': lambda: top(d={'a': 5}).set(d=kw).d}[way]()
        want = vals[i if given is None else given]
        for n in range(2):
            o = make()
            got = plain_copy(o.x)
            eq(got, want, f'object {n + 1}')
            eq(type(got) is bool, type(want) is bool, 'type')
            eq([o.a, o.z], [1, 'q'], 'other fields')
            if isinstance(o.x, list):
                o.x and isinstance(o.x[0], list) and o.x[0].append(7)
                o.x.append(5)
            elif isinstance(o.x, dict):
                o.x['new'] = 5
            else:
                o.x = None

    def cases():
        for sort, (_, _, vals) in SORTS.items():
            for kind, (i, v) in product(KINDS, enumerate(vals)):
                if isinstance(v, (list, dict)) and kind in (
                        'plain', 'optional', 'field'):
                    continue            # refused by dataclasses
                if kind == 'first' and sort in ('list', 'dict', 'lists'):
                    continue
                for way, given in product(WAYS, [None, *range(len(vals))]):
                    yield [sort, kind, i, way, given], \
                        lambda a=(sort, kind, i, way, given): run(*a)
    return cases


@jsonclass(class_graph=G)
class Stamped:
    name: Any = types.str
    created: Any = types.datetime.tscreated.required
    updated: Any = types.datetime.tsupdated.required


def stamps():
    old = datetime(2001, 2, 3, tzinfo=timezone.utc)

    def run(given, ops):
        def now():
            return datetime.now(timezone.utc)

        def between(v, a, b, what):
            expect(isinstance(v, datetime) and v.utcoffset() == timedelta(0)
                   and a <= v <= b, f'{what}: {v} is not in {a}..{b}')
        a = now()
        o = Stamped(**{k: old for k in given})
        b = now()
        lo = {}
        for k in ('created', 'updated'):
            if k in given:
                eq(getattr(o, k), old, k)
            else:
                between(getattr(o, k), a, b, k)
        created, updated = o.created, o.updated
        new, dirty = True, False
        for op in ops:
            if op == 'save':
                a = now()
                o.save()
                b = now()
                if new or dirty:
                    between(o.updated, a, b, 'updated when saved')
                else:
                    eq(o.updated, updated, 'updated of an unchanged object')
                o._mark_unmodified()
                new, dirty, updated = False, False, o.updated
            elif op == 'change':
                o.name = (o.name or '') + 'x'
                dirty = True
            else:
                o.set(name=(o.name or '') + 'y')
                dirty = True
            eq([o.created, o.updated], [created, updated], 'times')

    def cases():
        for given in ((), ('created',), ('updated',), ('created', 'updated')):
            for n in range(5):
                for ops in product(['save', 'change', 'set'], repeat=n):
                    yield [given, ops], lambda a=(given, ops): run(*a)
    return cases


def scenarios(tier):
    t = tier == 'thorough'
    values = [None, 0, 1, 'null']
    return [*enums(1, 'singles', singles()), *enums(2, 'pairs', pairs()),
            *enums(6, 'subsets', subsets(
                ['plain', 'chain', 'made', 'some_list', 'locked']
                + (['nonnull_list', 'early', 'factory'] if t else []),
                values)),
            *enums(2, 'subsets2', subsets(
                ['stepped', 'once', 'some_dict', 'none', 'falsy'], values)),
            *enums(1, 'nested', nested()), *enums(1, 'stamps', stamps()),
            *enums(2, 'matrix', matrix())]
