"""C10: unknown keys are rejected exactly when the input is strict."""
from __future__ import annotations
from itertools import count, product
from typing import Annotated, Any
from jsonclasses import jsonclass, types
from jsonclasses.excs import ValidationException
from mc.core import Enum, enums, canon, eq, expect

COUNT = count()
LEGAL = ['id', 'first_name', 'firstName', 'plain', 'to_one', 'toOne',
         'to_one_id', 'toOneId', 'to_many', 'toMany', 'to_many_ids',
         'toManyIds', 'by_one', 'byOne', 'by_many', 'byMany', 'thru_many',
         'thruMany', 'ann_one', 'annOne', 'ann_one_id', 'annOneId',
         'ro_val', 'roVal', 'wo_val', 'in_val', 'tmp_val', 'tmpVal', 'calc']
UNKNOWN = ['nope', '', ' ', 'Plain', 'PLAIN', 'plain ', 'first-name',
           'FirstName', 'first_Name', 'firstname', 'to_one_ids', 'to_manys',
           'toOneID', 'to_one__id', 'by_one_id', 'byOneId', 'by_many_ids',
           'byManyIds', 'thru_many_ids', 'thruManyIds', '_id', '_is_new',
           '_operator', '_graph', 'is_new', 'cdef', 'set', 'save', '__class__',
           '__dict__', 'to_manyids', 'id_', 'ID', '0', 'plainId', 'plain_id',
           'ann_id', 'annOneIds', 'self']


def declare(strict_t, strict_o):
    g = f'verif-c10-{next(COUNT)}'

    def deco(strict):
        if strict is None:
            return jsonclass(class_graph=g)
        return jsonclass(class_graph=g, strict_input=strict)

    @deco(strict_t)
    class T:
        id: str = types.str.primary
        first_name: str = types.str
        plain: Any = types.any
        to_one: O1 = types.objof('O1').linkto
        to_many: list[O2] = types.listof('O2').linkto
        by_one: O3 = types.objof('O3').linkedby('t')
        by_many: list[O4] = types.listof('O4').linkedby('t')
        thru_many: list[O5] = types.listof('O5').linkedthru('ts')
        ann_one: Annotated[O6, linkto]
        ro_val: str = types.str.readonly
        wo_val: str = types.str.writeonly
        in_val: str = types.str.internal
        tmp_val: str = types.str.temp
        calc: str = types.str.getter(lambda o: 'c').setter(
            lambda v, o: None)
        emb: E = types.objof('E')
        emb_strict: E = types.objof('E').strict
        emb_list: list[E] = types.listof('E')
        emb_slist: list[E] = types.listof(types.objof('E').strict)
        emb_dict: dict[str, E] = types.dictof('E')

    @deco(strict_o)
    class E:
        name_a: str
        emb: E = types.objof('E')

    @deco(strict_o)
    class O1:
        id: str = types.str.primary

    @deco(strict_o)
    class O2:
        id: str = types.str.primary

    @deco(strict_o)
    class O3:
        id: str = types.str.primary
        t: T = types.objof('T').linkto

    @deco(strict_o)
    class O4:
        id: str = types.str.primary
        t: T = types.objof('T').linkto

    @deco(strict_o)
    class O5:
        id: str = types.str.primary
        ts: list[T] = types.listof('T').linkedthru('thru_many')

    @deco(strict_o)
    class O6:
        id: str = types.str.primary
    return T


SETTINGS = [None, True, False]
CACHE = {}


def fixed(a, b):
    if (a, b) not in CACHE:
        CACHE[(a, b)] = declare(a, b)
    return CACHE[(a, b)]


def value_for(key):
    k = key.lower().replace('_', '')
    if k in ('tomany', 'bymany', 'thrumany'):
        return [{'id': '1'}]
    if k == 'tomanyids':
        return ['1', '2']
    if k in ('toone', 'byone', 'annone'):
        return {'id': '1'}
    return 'v'


def snake(path):
    return path.replace('firstName', 'first_name')


def rejects(fn, paths):
    try:
        fn()
    except ValidationException as e:
        got = list(e.keypath_messages)
        expect(len(got) == 1 and got[0] in paths,
               f'reported {got}, expected one of {paths}')
        return
    raise AssertionError(f'accepted, expected {paths} to be rejected')


def root_cases():
    for st in SETTINGS:
        strict = st is not False
        for key in UNKNOWN:
            for entry in ('build', 'set', 'fresh-build'):
                for extra in ({}, {'plain': 'x'}, {'firstName': 'f',
                                                   'other': 1}):
                    def go(st=st, key=key, entry=entry, extra=extra,
                           strict=strict):
                        T = declare(st, None) if entry[0] == 'f' \
                            else fixed(st, None)
                        bad = [key] + (['other'] if 'other' in extra else [])
                        for order in (0, 1):
                            inp = {key: 'v', **extra} if order else \
                                {**extra, key: 'v'}
                            if entry == 'set':
                                o = T(id='i')
                                before = canon(o)

                                def fn():
                                    expect(o.set(**inp) is o, 'set result')
                            else:
                                def fn():
                                    fn.o = T(**inp)
                            if strict:
                                rejects(fn, bad)
                                if entry == 'set':
                                    eq(canon(o), before, 'refused set')
                                continue
                            fn()
                            if entry != 'set':
                                o = fn.o
                            clean = {k: v for k, v in extra.items()
                                     if k != 'other'}
                            ref = T(id='i') if entry == 'set' else T()
                            if entry == 'set':
                                ref.set(**clean)
                            else:
                                ref = T(**clean)
                            eq(canon(o), canon(ref), f'{inp} ignored')
                    yield [st, key, entry, sorted(extra)], go
        for key in LEGAL:
            for entry in ('build', 'set', 'fresh-build', 'fresh-set'):
                def go(st=st, key=key, entry=entry):
                    T = declare(st, True) if entry[0] == 'f' \
                        else fixed(st, True)
                    if entry.endswith('build'):
                        o = T(**{key: value_for(key)})
                    else:
                        o = T()
                        o.set(**{key: value_for(key)})
                    if key in ('to_one_id', 'toOneId'):
                        eq(o.to_one_id, 'v', key)
                    if key in ('ann_one_id', 'annOneId'):
                        eq(o.ann_one_id, 'v', key)
                    if key in ('to_many_ids', 'toManyIds'):
                        eq(list(o.to_many_ids), ['1', '2'], key)
                    if key in ('first_name', 'firstName'):
                        eq(o.first_name, 'v', key)
                yield ['legal', st, key, entry], go


POS = {'emb': ('emb', lambda d: {'emb': d}, lambda o: o.emb),
       'emb_strict': ('embStrict', lambda d: {'emb_strict': d},
                      lambda o: o.emb_strict),
       'emb_list': ('embList.1', lambda d: {'emb_list': [{'name_a': 'k'}, d]},
                    lambda o: o.emb_list[1]),
       'emb_slist': ('embSlist.0', lambda d: {'emb_slist': [d]},
                     lambda o: o.emb_slist[0]),
       'emb_dict': ('embDict.k', lambda d: {'emb_dict': {'k': d}},
                    lambda o: o.emb_dict['k']),
       'emb.emb': ('emb.emb', lambda d: {'emb': {'emb': d}},
                   lambda o: o.emb.emb),
       'emb_list.emb': ('embList.0.emb', lambda d: {'emb_list': [{'emb': d}]},
                        lambda o: o.emb_list[0].emb),
       'to_one': ('toOne', lambda d: {'to_one': {'id': '1', **d}},
                  lambda o: o.to_one),
       'to_many': ('toMany.0', lambda d: {'to_many': [{'id': '1', **d}]},
                   lambda o: o.to_many[0]),
       'by_one': ('byOne', lambda d: {'by_one': {'id': '1', **d}},
                  lambda o: o.by_one),
       'by_many': ('byMany.0', lambda d: {'by_many': [{'id': '1', **d}]},
                   lambda o: o.by_many[0]),
       'by_many.t': ('byMany.0.t',
                     lambda d: {'by_many': [{'id': '1', 't': {'id': 'n', **d}}
                                            ]},
                     lambda o: o.by_many[0].t)}


def nested_cases():
    for st, so in product(SETTINGS, repeat=2):
        for pos, (path, wrap, fetch) in POS.items():
            strict = (st if pos == 'by_many.t' else so) is not False \
                or pos in ('emb_strict', 'emb_slist')
            for key in ('nope', 'Nope', 'emb_id', '_is_new', '', 'plain2',
                        'nameA2', 'id2'):
                for entry in ('build', 'set'):
                    def go(st=st, so=so, pos=pos, path=path, wrap=wrap,
                           fetch=fetch, strict=strict, key=key, entry=entry):
                        T = fixed(st, so)
                        inp = wrap({key: 'v'})
                        if entry == 'build':
                            def fn():
                                fn.o = T(id='r', **inp)
                        else:
                            def fn():
                                fn.o = T(id='r').set(**inp)
                        if strict:
                            full = f'{path}.{key}' if key else path
                            low = full.replace('embStrict', 'emb_strict')
                            low = low.replace('embList', 'emb_list')
                            low = low.replace('embSlist', 'emb_slist')
                            low = low.replace('embDict', 'emb_dict')
                            for c in ('toOne', 'toMany', 'byOne', 'byMany'):
                                low = low.replace(c, c[:2] + '_'
                                                  + c[2:].lower())
                            rejects(fn, [full, low])
                        else:
                            fn()
                            ref = T(id='r', **wrap({})) if entry == 'build' \
                                else T(id='r').set(**wrap({}))
                            eq(canon(fn.o), canon(ref), f'{inp} ignored')
                            expect(fetch(fn.o) is not None, pos)
                    yield [st, so, pos, key, entry], go
            def ok(st=st, so=so, pos=pos, wrap=wrap, fetch=fetch):
                T = fixed(st, so)
                if pos.startswith('emb'):
                    for n in ('name_a', 'nameA'):
                        o = T(**wrap({n: 'v'}))
                        eq(fetch(o).name_a, 'v', f'{pos}.{n}')
                else:
                    o = T(id='r', **wrap({}))
                    expect(fetch(o) is not None, pos)
            yield [st, so, pos, 'legal'], ok


AGAIN = {
    # (input builder, strict class is the other one, legal keys of it)
    'list-item': lambda d: {'to_many': [{'id': '1'}, {'id': '1', **d}]},
    'list-first': lambda d: {'to_many': [{'id': '1', **d}, {'id': '1'}]},
    'by-item': lambda d: {'by_many': [{'id': '1'}, {'id': '2'},
                                      {'id': '1', **d}]},
    'thru-item': lambda d: {'thru_many': [{'id': '1'}, {'id': '1', **d}]},
    'root-again': lambda d: {'by_one': {'id': '1', 't': {'id': 'r', **d}}},
    'root-again-many': lambda d: {'by_many': [
        {'id': '1', 't': {'id': 'r'}}, {'id': '2', 't': {'id': 'r', **d}}]},
    'thru-root': lambda d: {'thru_many': [
        {'id': '1', 'ts': [{'id': 'r', **d}]}]},
    'other-root': lambda d: {'thru_many': [
        {'id': '1', 'ts': [{'id': 'q', 'plain': 1}, {'id': 'r'}]},
        {'id': '2', 'ts': [{'id': 'q', **d}]}]},
}


def again_cases():
    """Objects that occur several times in one input."""
    for st, so in product(SETTINGS, repeat=2):
        for name, wrap in AGAIN.items():
            strict = (st if 'root' in name else so) is not False
            for key in ('nope', 'plain2', '_is_new', ''):
                for entry in ('build', 'set'):
                    def go(st=st, so=so, wrap=wrap, strict=strict, key=key,
                           entry=entry):
                        T = fixed(st, so)

                        def run(d):
                            inp = wrap(d)
                            if entry == 'build':
                                return T(id='r', **inp)
                            return T(id='r').set(**inp, id='r')
                        run({})
                        if strict:
                            try:
                                run({key: 'v'})
                            except ValidationException as e:
                                got = list(e.keypath_messages)
                                expect(len(got) == 1 and got[0].split(
                                    '.')[-1] == (key or got[0].split('.')[-1]),
                                    f'reported {got}')
                                return
                            raise AssertionError(
                                f'accepted {wrap({key: "v"})}')
                        eq(canon(run({key: 'v'})), canon(run({})), 'ignored')
                    yield [st, so, name, key, entry], go


def update_cases():
    """The trusted update always refuses unknown names, changing nothing."""
    for st in SETTINGS:
        for key in UNKNOWN + ['firstName', 'toOneId']:
            def go(st=st, key=key):
                o = fixed(st, None)(id='r')
                before = canon(o)
                try:
                    o.update(**{'plain': 'x', key: 'v'})
                except ValueError:
                    eq(canon(o), before, 'refused update')
                    return
                raise AssertionError(f'update accepted {key!r}')
            yield [st, key], go
        for key in ('id', 'first_name', 'plain', 'to_one_id', 'to_many_ids',
                    'ann_one_id', 'ro_val', 'in_val', 'tmp_val'):
            def go(st=st, key=key):
                v = ['1'] if key == 'to_many_ids' else 'v'
                for T in (fixed(st, None), declare(st, None)):
                    o = T().update(**{key: v})
                    got = getattr(o, key)
                    eq(list(got) if isinstance(got, list) else got, v, key)
            yield ['legal', st, key], go


def scenarios(tier):
    return [*enums(4, 'root', root_cases), *enums(2, 'nested', nested_cases),
            Enum('update', update_cases), *enums(2, 'again', again_cases)]
