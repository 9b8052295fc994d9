"""C26: picking and omitting select exactly the requested output."""
from __future__ import annotations
from itertools import chain, combinations, product
from typing import Any
from jsonclasses import jsonclass, types
from jsonclasses.keypath import identical_key
from mc.core import enums, eq, expect

G = 'verif-c26'


@jsonclass(class_graph=G)
class Card:
    id: int = types.int.primary
    first_name: Any = types.str
    secret: Any = types.str.writeonly
    tags: Any = types.listof(str)
    total: Any = types.int.getter(lambda c: c.id * 2)
    scratch: Any = types.str.temp
    owner: Any = types.objof('Person').linkto
    empty: Any = types.str


@jsonclass(class_graph=G)
class Person:
    id: int = types.int.primary
    nick: Any = types.str
    cards: Any = types.listof('Card').linkedby('owner')


@jsonclass(class_graph=G, output_null=True,
           input_key_strategy=identical_key,
           output_key_strategy=identical_key)
class Nully:
    id: int = types.int.primary
    first_name: Any = types.str
    ref: Any = types.objof('Person').linkto
    refs: Any = types.listof('Person').linkto


@jsonclass(class_graph=G)
class Deck:
    name: Any = types.str
    top: Any = types.objof('Plain')
    rest: Any = types.listof('Plain')
    by: Any = types.dictof('Plain')


@jsonclass(class_graph=G)
class Plain:
    a: Any = types.int
    b: Any = types.int
    c: Any = types.int


def subsets(names, upto=None):
    upto = len(names) if upto is None else upto
    return [*chain(*(combinations(names, n) for n in range(upto + 1)))]


def selected(program, names):
    """The model: the last pick minus what was omitted after it."""
    cur = set(names)
    for kind, arg in program:
        cur = set(arg) if kind == 'pick' else cur - set(arg)
    return cur


def apply(o, program):
    for kind, arg in program:
        arg = list(arg)
        keep = list(arg)
        getattr(o, kind)(arg)
        eq(arg, keep, 'the given list')
        arg.append('id')            # the caller's list is the caller's
        del arg[:]


CARD = ['id', 'first_name', 'secret', 'tags', 'total', 'scratch', 'owner',
        'empty']


def card(new):
    c = Card(id=3, first_name='n', secret='s', tags=['x', 'y'], scratch='t',
             owner=Person(id=9, nick='p'))
    if not new:
        c._mark_unmodified()
    return c


def card_json(sel, write=False, keyless=False):
    full = [('id', {'id': 3}), ('first_name', {'firstName': 'n'}),
            ('tags', {'tags': ['x', 'y']}), ('total', {'total': 6}),
            ('owner', {'ownerId': 9, 'owner': {'id': 9, 'nick': 'p'}})]
    if write:
        full.append(('secret', {'secret': 's'}))
    out = {}
    for f, part in full:
        if f in sel:
            out.update(part)
    return out


def fields(o):
    return {f.name: id(v) if hasattr(v, 'tojson') else repr(v)
            for f in o.__class__.cdef.fields
            for v in [getattr(o, f.name)]}


def flat(programs):
    def run(program, new):
        o, other = card(new), card(new)
        before = fields(o), o.is_modified, sorted(o.modified_fields), o.is_new
        known = [f.name for f in Card.cdef.fields]
        apply(o, program)
        sel = selected(program, CARD)
        eq(o.tojson(), card_json(sel), 'output')
        eq(o.tojson(), card_json(sel), 'output again')
        eq(o.tojson(ignore_writeonly=True), card_json(sel, True),
           'output with write-only fields')
        want = card_json(sel)
        for f, j in (('first_name', 'firstName'), ('empty', 'empty')):
            if f in sel:
                want.setdefault(j, None)
        eq({k: v for k, v in o.tojson(output_null=True).items()
            if k != 'owner'},
           {k: v for k, v in want.items() if k != 'owner'}, 'with nulls')
        eq((fields(o), o.is_modified, sorted(o.modified_fields), o.is_new),
           before, 'the object itself')
        eq([f.name for f in Card.cdef.fields], known, 'the class')
        full = card_json(set(CARD))
        eq(other.tojson(), full, 'another object')
        eq(card(True).tojson(), full, 'a later object')
        o.set(firstName='q')
        eq(o.first_name, 'q', 'input is not restricted')
        eq(o.tojson().get('firstName'), 'q' if 'first_name' in sel else None,
           'output follows the value')
        expect(o.is_valid, 'validation is not restricted')

    def cases():
        for program in programs():
            for new in (True, False):
                yield [program, new], lambda p=program, n=new: run(p, n)
    return cases


def single():
    for kind in ('pick', 'omit'):
        for s in subsets(CARD):
            yield [(kind, s)]


def sequences(length, names):
    def gen():
        subs = subsets(names)
        for n in range(length + 1):
            for kinds in product(('pick', 'omit'), repeat=n):
                for args in product(subs, repeat=n):
                    yield [*zip(kinds, args)]
    return gen


def nully():
    names = ['id', 'first_name', 'ref', 'refs']

    def run(program, filled, again):
        ps = [Person(id=i) for i in (7, 8)]
        o = Nully(id=1)
        if filled:
            o.first_name, o.ref, o.refs = 'n', ps[0], list(ps)
        apply(o, program)
        sel = selected(program, names)
        full = {'id': {'id': 1}, 'first_name': {'first_name': None},
                'ref': {'ref_id': None, 'ref': None},
                'refs': {'ref_ids': [], 'refs': []}}
        if filled:
            js = [{'id': 7}, {'id': 8}]
            full |= {'first_name': {'first_name': 'n'},
                     'ref': {'ref_id': 7, 'ref': js[0]},
                     'refs': {'ref_ids': [7, 8], 'refs': js}}
        got = o.tojson()
        eq(sorted(got), sorted(k for f in sel for k in full[f]), 'keys')
        for f in sel:
            for k, v in full[f].items():
                if not filled and k in ('refs', 'ref_ids'):
                    expect(got[k] in (None, []), f'{k} is {got[k]!r}')
                else:
                    eq(strip(got[k]), v, k)

    def strip(v):
        if isinstance(v, list):
            return [strip(i) for i in v]
        return {k: x for k, x in v.items() if x is not None} \
            if isinstance(v, dict) else v

    def cases():
        for p in sequences(2, names)():
            for filled in (True, False):
                yield [p, filled], lambda p=p, f=filled: run(p, f, False)
    return cases


def nested(upto):
    """Every object of a tree selects its own fields."""
    where = ['deck', 'top', 'rest0', 'rest1', 'by']
    inner = subsets(['a', 'b', 'c'])
    outer = subsets(['name', 'top', 'rest', 'by'])

    def plain(i, sel):
        return {k: v + i for k, v in zip('abc', (1, 2, 3)) if k in sel}

    def run(program):
        d = Deck(name='d', top={'a': 1, 'b': 2, 'c': 3},
                 rest=[{'a': 2, 'b': 3, 'c': 4}, {'a': 3, 'b': 4, 'c': 5}],
                 by={'k': {'a': 4, 'b': 5, 'c': 6}})
        objs = {'deck': d, 'top': d.top, 'rest0': d.rest[0],
                'rest1': d.rest[1], 'by': d.by['k']}
        sel = {}
        for w in where:
            mine = [(k, a) for x, k, a in program if x == w]
            apply(objs[w], mine)
            sel[w] = selected(mine, ['name', 'top', 'rest', 'by']
                              if w == 'deck' else 'abc')
        want = {'name': 'd', 'top': plain(0, sel['top']),
                'rest': [plain(1, sel['rest0']), plain(2, sel['rest1'])],
                'by': {'k': plain(3, sel['by'])}}
        eq(d.tojson(), {k: v for k, v in want.items() if k in sel['deck']},
           'output')

    def cases():
        singles = [(w, k, a) for w in where for k in ('pick', 'omit')
                   for a in (outer if w == 'deck' else inner)]
        for n in range(upto + 1):
            for p in product(singles, repeat=n):
                yield [*p], lambda p=p: run(p)
    return cases


def linked():
    """Selections hold wherever the object is output, both directions."""
    def run(sp, sc, back):
        p = Person(id=1, nick='p')
        cs = [Card(id=i, first_name='n') for i in (2, 3)]
        p.cards = list(cs)
        if sp is not None:
            p.pick(sp)
        if sc is not None:
            cs[0].pick(sc)
        ps = {'id', 'nick', 'cards'} if sp is None else set(sp)
        one = {'id', 'first_name', 'tags', 'total', 'owner'} \
            if sc is None else set(sc)
        if not back:
            want = {k: v for k, v in {'id': 1, 'nick': 'p'}.items()
                    if k in ps}
            if 'cards' in ps:
                want['cards'] = [cjson(2, one), cjson(3, {
                    'id', 'first_name', 'total', 'owner'})]
            eq(p.tojson(), want, 'forward')
        else:
            want = cjson(2, one)
            if 'owner' in one:
                want['owner'] = {k: v for k, v in {
                    'id': 1, 'nick': 'p'}.items() if k in ps}
            got = cs[0].tojson()
            got.get('owner', {}).pop('cards', None)
            eq(got, want, 'backward')

    def cjson(i, sel):
        out = {}
        if 'id' in sel:
            out['id'] = i
        if 'first_name' in sel:
            out['firstName'] = 'n'
        if 'total' in sel:
            out['total'] = i * 2
        if 'owner' in sel:
            out['ownerId'] = 1
        return out

    def cases():
        for sp in [None, *subsets(['id', 'nick', 'cards'])]:
            for sc in [None, *subsets(['id', 'first_name', 'total', 'owner'])]:
                for back in (False, True):
                    yield [sp, sc, back], \
                        lambda a=sp, b=sc, c=back: run(a, b, c)
    return cases


def scenarios(tier):
    t = tier == 'thorough'
    names = ['id', 'first_name', 'secret', 'owner']
    return [*enums(1, 'subsets', flat(single)),
            *enums(8, 'sequences', flat(sequences(2, names))),
            *enums(8, 'long', flat(sequences(4 if t else 3, ['id', 'total']))),
            *enums(2, 'nulls', nully()),
            *enums(4, 'nested', nested(3 if t else 2)),
            *enums(1, 'linked', linked())]
