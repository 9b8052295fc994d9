"""C33: loading related objects asks for the stored keys and changes nothing
else."""
from __future__ import annotations
from itertools import product
from typing import Any
from jsonclasses import jsonclass, types
from jsonclasses.excs import ValidationException
from mc.core import enums, eq, expect

ASKED: list = []
DB: dict = {}
LOADED: dict = {}  # one object per stored row, as a session keeps


class Query:
    def __init__(self, run):
        self.run = run

    def exec(self):
        return self.run()

    @property
    def optional(self):
        return self


def stored(cls):
    """Gives a class the query methods of a storage layer; records queries."""
    def load(row):
        if (cls, pk(row)) in LOADED:
            return LOADED[cls, pk(row)]
        o = LOADED[cls, pk(row)] = cls()
        for k, v in row.items():
            setattr(o, k, list(v) if isinstance(v, list) else v)
        o._mark_unmodified()
        return o

    def rows(test):
        return [load(r) for r in DB[cls.__name__] if test(r)]

    def pk(row):
        return row[cls.cdef.primary_field.name]

    def match(row, kw):
        for k, v in kw.items():
            have = row[k] if isinstance(row[k], list) else [row[k]]
            if not set(have) & set(v if isinstance(v, list) else [v]):
                return False
        return True

    def ask(*what):
        ASKED.append((cls.__name__, *what))

    def by_id(c, key):
        ask('id', key)
        return Query(lambda: next(iter(rows(lambda r: pk(r) == key)), None))

    def by_ids(c, keys):
        ask('ids', list(keys))
        return Query(lambda: sorted(rows(lambda r: pk(r) in keys),
                                    key=lambda o: list(keys).index(o._id)))

    def find(c, **kw):
        ask('find', kw)
        return Query(lambda: rows(lambda r: match(r, kw)))

    def one(c, **kw):
        ask('one', kw)
        return Query(lambda: next(iter(rows(lambda r: match(r, kw))), None))
    for n, f in (('id', by_id), ('ids', by_ids), ('find', find),
                 ('one', one)):
        setattr(cls, n, classmethod(f))
    return cls


def key_of(field):
    return 'key_of_' + field.name


FAMILIES: dict = {}


def family(style, reset):
    """style: how reference keys are named and what the primary is called."""
    if (style, reset) in FAMILIES:
        return FAMILIES[style, reset]
    kw = {'class_graph': f'verif-c33-{style}-{reset}',
          'reset_all_fields': reset}

    def make(name, **fields):
        conf = {**kw, 'ref_name_strategy': key_of} if custom(
            style, name == 'User') else kw
        ns = {'__module__': __name__, '__annotations__': dict.fromkeys(
            ['pk', 'name', *fields], Any), 'pk': types.int.primary,
            'name': types.str, **fields}
        return stored(jsonclass(**conf)(type(name, (), ns)))
    user = make('User', posts=types.listof('Post').linkedby('author'),
                profile=types.objof('Profile').linkedby('user'),
                best=types.objof('Book').linkto,
                shelf=types.listof('Book').linkto,
                teams=types.listof('Team').linkedthru('members'),
                lists=types.listof('Reader').linkedby('follows'),
                total=types.int, memo=types.str.temp)
    post = make('Post', author=types.objof('User').linkto)
    make('Profile', user=types.objof('User').linkto)
    make('Book')
    make('Reader', follows=types.listof('User').linkto)
    make('Team', members=types.listof('User').linkedthru('teams'))
    FAMILIES[style, reset] = {c: user.cdef.jconf.cgraph.fetch(c).cls
                              for c in ('User', 'Post', 'Profile', 'Book',
                                        'Reader', 'Team')}
    return FAMILIES[style, reset]


def custom(style, user):
    return style == 'custom' or style == 'mixed' and not user or \
        style == 'turned' and user


def key_name(style, field, many=False):
    if custom(style, field in ('best', 'shelf')):
        return 'key_of_' + field
    one = {'follows': 'follow', 'members': 'member'}.get(field, field)
    return one + ('_ids' if many else '_id')


def snap(o, keys):
    return {k: (list(v) if isinstance(v, list) else v)
            for k in keys for v in [getattr(o, k)]}


def include(style, reset, fname, content, state, again):
    ns = family(style, reset)
    best, shelf = key_name(style, 'best'), key_name(style, 'shelf', True)
    author = key_name(style, 'author')
    owner, follows = key_name(style, 'user'), key_name(style, 'follows', True)
    mine, other, none = content
    DB.clear()
    LOADED.clear()
    DB.update({
        'Post': [{'pk': i, author: k} for i, k in
                 enumerate([5] * mine + [6] * other + [None] * none)],
        'Profile': [{'pk': 50 + i, owner: k} for i, k in
                    enumerate([6] * other + [None] * none + [5] * mine)],
        'Book': [{'pk': i, 'name': f'b{i}'} for i in range(1, 4)],
        'Reader': [{'pk': i, follows: k} for i, k in enumerate(
            [[5]] * mine + [[6]] * other + [[]] * none + [[6, 5]] * mine)],
        'User': [], 'Team': []})
    user = ns['User']
    keys = {'best': [None, 1, 3, 9][mine + other],
            'shelf': [[], [2], [3, 1], [1, 9]][mine + none]}
    o = user(pk=4 if state == 'pk' else 5, name='n', total=1)
    if keys['best'] is not None:
        setattr(o, best, keys['best'])
    if keys['shelf']:
        setattr(o, shelf, list(keys['shelf']))
    changed = set()
    if state != 'new':
        o._mark_unmodified()
    if state in ('name', 'two'):
        o.name = 'changed'
        changed.add('name')
    if state in ('key', 'two'):
        setattr(o, best, 2)
        keys['best'] = 2
        changed.add('best')
    if state == 'temp':
        o.memo = 'm'
        changed.add('memo')
    if state == 'pk':
        o.pk = 5
        changed.add('pk')
    want_keys = {best: keys['best'], shelf: keys['shelf']}
    before = {**snap(o, ('pk', 'name', 'total')), **want_keys}
    prev = {k: v for k, v in o.previous_values.items()}
    ask, want = {
        'posts': (('Post', 'find', {author: [5]}), list(range(mine))),
        'profile': (('Profile', 'one', {owner: 5}),
                    50 + other + none if mine else None),
        'best': (('Book', 'id', keys['best']),
                 keys['best'] if keys['best'] in (1, 2, 3) else None),
        'shelf': (('Book', 'ids', keys['shelf']),
                  [k for k in keys['shelf'] if k < 9]),
        'lists': (('Reader', 'find', {follows: [5]}),
                  [*range(mine), *range(mine + other + none,
                                        2 * mine + other + none)]),
    }[fname]
    for n in range(1 + again):
        if n:
            # a second load after the linked objects were let go
            setattr(o, fname, None)
            if fname in ('best', 'shelf'):
                setattr(o, best if fname == 'best' else shelf, keys[fname])
            if state != 'new':
                o._mark_unmodified()
            changed, prev = set(), {}
        del ASKED[:]
        expect(o.include(fname) is o, 'include returns the object')
        eq(ASKED, [ask], 'queries')
        got = getattr(o, fname)
        eq([x.pk for x in got or []] if isinstance(want, list) else
           got and got.pk, want, 'loaded objects')
        back = {'posts': 'author', 'profile': 'user',
                'lists': 'follows'}.get(fname)
        for x in (got or []) if isinstance(want, list) else \
                [got] if got is not None else []:
            if back:
                b = getattr(x, back)
                expect(any(i is o for i in (b if isinstance(b, list)
                                            else [b])), 'linked back')
        eq(set(o.modified_fields), changed, 'modified fields')
        eq(o.is_modified, bool(changed), 'is modified')
        eq(o.is_new, state == 'new', 'is new')
        now = {**snap(o, ('pk', 'name', 'total')), best: getattr(o, best),
               shelf: list(getattr(o, shelf) or [])}
        after = dict(before)
        # of a list, keys without a stored object are dropped by loading it
        if fname == 'shelf':
            after[shelf] = want
        eq(now, after, 'values')
        eq(dict(o.previous_values), prev, 'previous values')
        for f in ('posts', 'profile', 'best', 'shelf', 'lists', 'teams'):
            if f != fname:
                expect(getattr(o, f) in (None, []), f'{f} is loaded too')
            expect(not o.unlinked_objects.get(f) or n, f'{f} unlinked')
    if reset and state in ('clean', 'name', 'pk', 'temp'):
        held = list(got) if isinstance(got, list) else got
        o.reset()
        eq((o.pk, o.name, o.total, o.memo), (
            o.pk if again else 4 if state == 'pk' else 5,
            'changed' if again and state == 'name' else 'n', 1,
            'm' if again and state == 'temp' else None), 'values when reset')
        now = getattr(o, fname)
        expect(all(x is y for x, y in zip(now, held)) and
               len(now) == len(held) if isinstance(held, list)
               else now is held, 'loaded objects are kept by a reset')


def joined(style, reset, count, state):
    """Many to many through a join table asks by the key of the other end."""
    ns = family(style, reset)
    members = key_name(style, 'members', True)
    DB.clear()
    DB.update({c: [] for c in ns})
    o = ns['User'](pk=4 if state == 'pk' else 5)
    if state != 'new':
        o._mark_unmodified()
    if state == 'pk':
        o.pk = 5
    if state == 'name':
        o.name = 'z'
    rows = [ns['Team'](pk=i) for i in range(count)]
    for r in rows:
        r._mark_unmodified()
    del ASKED[:]
    keep = ns['Team'].__dict__['find']
    ns['Team'].find = classmethod(
        lambda c, **kw: ASKED.append(kw) or Query(lambda: list(rows)))
    try:
        o.include('teams')
    finally:
        ns['Team'].find = keep
    eq(ASKED, [{members: [5]}], 'queries')
    eq([t.pk for t in o.teams], list(range(count)), 'teams')
    expect(all(t.members == [o] or t.members[0] is o for t in o.teams),
           'linked back')
    eq(set(o.modified_fields), {state} & {'name', 'pk'}, 'modified fields')
    eq(dict(o.previous_values), {'pk': 4} if state == 'pk' else
       {'name': None} if state == 'name' and reset else {}, 'previous values')
    eq(o.is_modified, state in ('name', 'pk'), 'is modified')


def includes():
    def cases():
        for style, reset in product(('plain', 'custom', 'mixed', 'turned'),
                                    (False, True)):
            for fname in ('posts', 'profile', 'best', 'shelf', 'lists'):
                for content in product(range(3), range(2), range(2)):
                    for state in ('new', 'clean', 'name', 'key', 'two',
                                  'temp', 'pk'):
                        for again in (0, 1):
                            a = style, reset, fname, content, state, again
                            yield list(a), lambda a=a: include(*a)
            for count, state in product(range(4), ('new', 'clean', 'name',
                                               'pk')):
                a = style, reset, count, state
                yield ['teams', *a], lambda a=a: joined(*a)
    return cases


# ------------------------------------------------------------------ complete

CALLS: list = []


@jsonclass(class_graph='verif-c33-complete')
class Part:
    pk: int = types.int.primary
    a: Any = types.int
    b: Any = types.str
    xs: Any = types.listof(int)
    t: Any = types.int.temp
    u: Any = types.listof(int).temp


@jsonclass(class_graph='verif-c33-complete', reset_all_fields=True)
class Kept(Part):
    pass


def fetch(self):
    CALLS.append(self.pk)
    self.a = 10
    self.b = 'fetched'
    self.xs = [7, 8]


Part._orm_complete = fetch


def complete(partial, new, changes, cls):
    o = cls(pk=3, a=1)
    o._is_partial = partial
    if not new:
        o._mark_unmodified()
    want = {'a': 1, 'b': None, 'xs': None}
    for c in changes:
        if c == 'xs':
            o.xs = [1]
            o.xs.append(2)
            want['xs'] = [1, 2]
        else:
            v = {'a': 5, 'b': 'own'}[c]
            setattr(o, c, v)
            want[c] = v
    mods = set(o.modified_fields)
    prev = dict(o.previous_values)
    eq(set(prev), mods if cls is Kept else set(), 'previous values')
    del CALLS[:]
    expect(o.complete() is o, 'complete returns the object')
    eq(CALLS, [3] if partial else [], 'fetches')
    if partial:
        want = {'a': 10, 'b': 'fetched', 'xs': [7, 8]}
    eq({k: getattr(o, k) for k in want}, want, 'values')
    eq(set(o.modified_fields), mods, 'modified fields')
    eq(o.is_modified, bool(mods), 'is modified')
    eq(o.is_new, new, 'is new')
    eq(dict(o.previous_values), prev, 'previous values')
    o.xs = [4]
    expect(new or 'xs' in o.modified_fields, 'later changes are reported')


def temps(state, vals):
    """Temporary values are cleared, everything else stays."""
    o = Part(pk=3, a=1, b='x', xs=[1], **vals)
    if state != 'new':
        o._mark_unmodified()
    o._clear_temp_fields()
    eq([o.pk, o.a, o.b, o.xs, o.t, o.u], [3, 1, 'x', [1], None, None],
       'values')
    eq(o.persisted_modified_fields, (), 'persisted modified fields')


def completes():
    def cases():
        for partial, new in product((True, False), repeat=2):
            for r in range(4):
                for changes in product('a b xs'.split(), repeat=r):
                    for cls in (Part, Kept):
                        a = partial, new, changes, cls
                        yield [*a[:3], cls.__name__], \
                            lambda a=a: complete(*a)
        for state in ('new', 'clean'):
            for t, u in product((None, 0, 4), (None, [], [3])):
                yield ['temp', state, t, u], lambda a=(
                    state, {'t': t, 'u': u}): temps(*a)
    return cases


# ------------------------------------------------- chains that load on demand

@stored
@jsonclass(class_graph='verif-c33-chain')
class Boss:
    pk: int = types.int.primary
    name: Any = types.str
    staff: Any = types.listof('Emp').linkedby('boss')


@stored
@jsonclass(class_graph='verif-c33-chain')
class Emp:
    pk: int = types.int.primary
    name: Any = types.str
    boss: Any = types.objof('Boss').linkto
    boss_name: Any = types.str.getter(
        types.this.fobj('boss').fval('name'))
    spare: Any = types.objof('Boss').linkto


def chain(key, loaded, state, reads):
    DB.clear()
    LOADED.clear()
    DB.update({'Boss': [{'pk': 1, 'name': 'one'}, {'pk': 2, 'name': 'two'}],
               'Emp': []})
    o = Emp(pk=9, name='e')
    if key is not None:
        o.boss_id = key
    if loaded and key is not None:
        o.boss = Boss(pk=key, name='in memory')
    if state != 'new':
        o._mark_unmodified()
    if state == 'name':
        o.name = 'f'
    mods = set(o.modified_fields)
    del ASKED[:]
    want = None if key is None else 'in memory' if loaded else \
        {1: 'one', 2: 'two'}[key]
    for _ in range(reads):
        eq(o.boss_name, want, 'the name of the boss')
    asked = [a for a in ASKED if a[2] is not None]
    eq(asked, [] if loaded or key is None else [('Boss', 'id', key)],
       'queries')
    eq(set(o.modified_fields), mods, 'modified fields')
    eq(o.boss_id, key, 'key')
    expect(o.spare is None and o.name == ('f' if state == 'name' else 'e'),
           'other fields')


def chains():
    def cases():
        for key, loaded, state, reads in product(
                (1, 2), (False, True), ('new', 'clean', 'name'), (1, 2, 3)):
            a = key, loaded, state, reads
            yield list(a), lambda a=a: chain(*a)
    return cases


# --------------------------------------------------- fetching by a field value

@stored
@jsonclass(class_graph='verif-c33-cross')
class Session:
    pk: int = types.int.primary
    phone: Any = types.str
    mail: Any = types.str
    code: Any = types.str


def same_code(*args):
    return types.str.validate(types.crossfetch('Session', *args).fval(
        'code').eq(types.this.fval('code')))


@jsonclass(class_graph='verif-c33-cross')
class ByPhone:
    phone: Any = types.str
    mail: Any = types.str
    code: Any = same_code('phone')


@jsonclass(class_graph='verif-c33-cross')
class ByMail:
    phone: Any = types.str
    mail: Any = types.str
    code: Any = same_code('phone', 'mail')


@jsonclass(class_graph='verif-c33-cross')
class Outer:
    phone: Any = types.str
    code: Any = types.str
    one: Any = types.objof('ByPhone')
    many: Any = types.listof('ByMail')


def cross(kind, phone, code, rows, where, all_fields):
    DB.clear()
    LOADED.clear()
    key = 'phone' if kind is ByPhone else 'mail'
    DB['Session'] = [{'pk': i, 'phone': None, 'mail': None, key: k, 'code': c}
                     for i, (k, c) in enumerate(rows)]
    o = kind(phone=phone, mail='other', code=code)
    root, path = o, 'code'
    if where == 'nested':
        root = Outer(phone='q', code='z')
        if kind is ByPhone:
            root.one, path = o, 'one.code'
        else:
            root.many, path = [o], 'many.0.code'
    elif where == 'saved':
        o._mark_unmodified()
        o.code = 'was'
        o.code = code
    found = next((c for k, c in rows if k == phone), None)
    ok = found == code
    del ASKED[:]
    try:
        root.validate(all_fields=all_fields)
        got = []
    except ValidationException as e:
        got = list(e.keypath_messages)
    eq(got, [] if ok else [path], f'{code} for {found}')
    eq(ASKED, [('Session', 'one', {key: phone})], 'queries')
    eq((o.phone, o.mail, o.code), (phone, 'other', code), 'values')


def crosses():
    def cases():
        row = [*product(('p', 'q', 'other'), ('1', '2'))]
        for r in range(3):
            for rows in product(row, repeat=r):
                for a in product((ByPhone, ByMail), 'pq', '12', (rows,),
                                 ('root', 'nested', 'saved'), (False, True)):
                    yield [a[0].__name__, *map(str, a[1:])], \
                        lambda a=a: cross(*a)
    return cases


def scenarios(tier):
    return [*enums(4, 'include', includes()),
            *enums(1, 'complete', completes()), *enums(1, 'chain', chains()),
            *enums(1, 'cross', crosses())]
