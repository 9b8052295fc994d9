"""C19: class resolution is independent of definition order and isolated."""
from __future__ import annotations
from itertools import combinations, count, permutations, product
from jsonclasses import jsonclass, jsonenum
from jsonclasses.excs import (
    JSONClassNotFoundException, JSONClassRedefinitionException,
    JSONClassTypedDictNotFoundException,
    JSONClassTypedDictRedefinitionException, UnresolvedTypeNameException,
    ValidationException)
from mc.core import enums, eq, expect
from checks.c19defs import FAMILIES, again, cross_X, iso_I

COUNT = count()
UNKNOWN = (JSONClassNotFoundException, JSONClassTypedDictNotFoundException,
           UnresolvedTypeNameException)


class World:
    """Declarations of one case; graphs never repeat between cases."""

    def __init__(self, family):
        self.family = FAMILIES[family]
        self.name = f'verif-c19-{next(COUNT)}'
        self.ns = {}

    def graph(self, v=0):
        return f'{self.name}-{v}'

    def define(self, ent, v=0):
        fac = {'X': cross_X, 'I': iso_I}.get(ent) or self.family[ent]
        self.ns[ent, v] = fac(self.graph(v), v, self.ns)

    def op(self, name, v=0):
        return OPS[name](lambda n: self.ns[n, v], v)


NV = [(5, 'X'), ('five', 'Z')]


def op_mkA(c, v):
    n, e = NV[v]
    B, E = c('B'), c('E')
    a = c('A')(b={'n': n, 'e': e}, bs=[{'n': n}, {'e': 'Y'}],
               bd={'k': {'n': n}}, e=e, es=['Y', e], u={'n': n},
               ul=[{'e': e}, 's'], me={'b': {'n': n}, 'e': e})
    for o in [a.b, a.bs[0], a.bs[1], a.bd['k'], a.u, a.ul[0], a.me.b]:
        expect(type(o) is B, lambda: f'{o!r} is not an object of B')
    for o in [a.b.e, a.bs[1].e, a.e, *a.es, a.me.e, a.ul[0].e]:
        expect(type(o) is E, lambda: f'{o!r} is not a value of E')
    expect(type(a.me) is c('A'), 'me is not an A')
    a.validate()
    eq(a.tojson(), {'b': {'n': n, 'e': e}, 'bs': [{'n': n}, {'e': 'Y'}],
                    'bd': {'k': {'n': n}}, 'e': e, 'es': ['Y', e],
                    'u': {'n': n}, 'ul': [{'e': e}, 's'],
                    'me': {'b': {'n': n}, 'e': e}}, 'output of A')


def op_mkB(c, v):
    n, e = NV[v]
    b = c('B')(n=n, e='Y')
    b.validate()
    b.set(e=e)
    expect(b.e is c('E')[e], 'wrong enum')
    eq(b.tojson(), {'n': n, 'e': e}, 'output of B')


def op_bad(c, v):
    n, e = NV[1 - v]
    for kw in ({'e': e}, {'b': {'e': e}}, {'bs': [{'zz': 1}]},
               {'me': {'e': 'nope'}}, {'es': ['Y', e]}):
        try:
            c('A')(**kw)
        except ValidationException:
            continue
        expect(False, f'A accepted {kw}')
    for kw in ({'b': {'n': n}}, {'me': {'b': {'n': n}}},
               {'bd': {'k': {'n': n}}}, {'u': {'n': n}}, {'u': 5},
               {'ul': [5]}, {'b': 'text'}):
        a = c('A')(**kw)
        try:
            a.validate()
        except ValidationException:
            continue
        expect(False, f'validation of A accepted {kw}: {a!r}')


def op_mkP(c, v):
    p = c('P')(id=1, cs=[{'id': 2}, {'id': 3}])
    expect(all(type(o) is c('C') and o.p is p for o in p.cs),
           'the objects of P are not linked back')
    eq(p.tojson(), {'id': 1, 'cs': [{'id': 2, 'pId': 1}, {'id': 3, 'pId': 1}]},
       'output of P')


def op_mkC(c, v):
    x = c('C')(id=2, p={'id': 1})
    expect(type(x.p) is c('P') and len(x.p.cs) == 1 and x.p.cs[0] is x,
           'the object of C is not linked back')
    eq(x.tojson(), {'id': 2, 'pId': 1, 'p': {'id': 1}}, 'output of C')


def op_key(c, v):
    x = c('C')(id=2, p_id=4)
    eq(x.tojson(), {'id': 2, 'pId': 4}, 'output of a key')
    x = c('C')(id=2, pId=4)
    eq(x.p_id, 4, 'reference key')


def op_def(c, v):
    eq([f.fdef.ftype.name for f in c('C').cdef.fields], ['INT', 'INSTANCE'],
       'field types of C')
    eq([f.fdef.ftype.name for f in c('A').cdef.fields],
       ['INSTANCE', 'LIST', 'DICT', 'ENUM', 'LIST', 'UNION', 'LIST',
        'INSTANCE'], 'field types of A')
    f = c('C').cdef.field_named('p')
    expect(f.foreign_class is c('P'), 'foreign class of C.p')
    eq(f.foreign_field.name, 'cs', 'foreign field of C.p')
    eq(sorted(c('C').cdef.reference_names), ['p_id'], 'keys of C')
    f = c('P').cdef.field_named('cs')
    expect(f.foreign_class is c('C'), 'foreign class of P.cs')
    eq(f.foreign_field.name, 'p', 'foreign field of P.cs')


def op_X(c, v):
    """Objects of the other graph inside."""
    n, e = NV[1 - v]
    x = c('X')(b={'n': n, 'e': e}, e=e, bs=[{'n': n}], u={'n': n})
    x.validate()
    eq(x.tojson(), {'b': {'n': n, 'e': e}, 'e': e, 'bs': [{'n': n}],
                    'u': {'n': n}}, 'output of X')


def op_I(c, v):
    o = c('B')(n=NV[v][0])
    c('I')(b=o).validate()
    try:
        c('I')(b=c('I')(b=o)).validate()
    except ValidationException:
        return
    expect(False, 'isobjof accepted an object of another class')


OPS = {k[3:]: f for k, f in list(globals().items()) if k.startswith('op_')}
MAIN = ['mkA', 'mkB', 'bad', 'mkP', 'mkC', 'key', 'def']


def orders(thorough):
    def cases():
        for fam in ('ann', 'chain'):
            for d in permutations('ABEPC'):
                for first in (permutations(MAIN, 2) if thorough else
                              [(o,) for o in MAIN]):
                    o = list(first) + [x for x in MAIN if x not in first]
                    yield [fam, d, o], lambda fam=fam, d=d, o=o: run(fam, d, o)
            for d in ['ABEPC', 'CPEBA'] if not thorough else \
                    ['ABEPC', 'CPEBA', 'ECBPA', 'PACEB']:
                for o in permutations(MAIN, len(MAIN) if thorough else 3):
                    o = list(o) + [x for x in MAIN if x not in o]
                    yield [fam, d, o], lambda fam=fam, d=d, o=o: run(fam, d, o)
    return cases


def run(fam, defs, ops):
    w = World(fam)
    for ent in defs:
        w.define(ent)
    for o in ops:
        w.op(o)
    return len(defs) + len(ops)


def early(thorough):
    """Attempts to use classes while others are still undefined."""
    names = ['mkA', 'mkB', 'bad']

    def cases():
        for fam in ('ann', 'chain', 'shared'):
            for d in permutations('ABE'):
                for n in range(1, 4 if thorough else 3):
                    for ops in product(names, repeat=n):
                        for pos in product(range(1, 3), repeat=n):
                            if list(pos) != sorted(pos):
                                continue
                            yield ([fam, d, ops, pos],
                                   lambda fam=fam, d=d, ops=ops, pos=pos:
                                   run_early(fam, d, ops, pos))
    return cases


NEEDS = {'mkA': 'ABE', 'mkB': 'BE', 'bad': 'ABE'}


def run_early(fam, d, ops, pos):
    w = World(fam)
    for i, ent in enumerate(d):
        for o, p in zip(ops, pos):
            if p != i:
                continue
            try:
                w.op(o)
                expect(set(NEEDS[o]) <= set(d[:i]),
                       f'{o} works although something is not defined')
            except UNKNOWN:
                expect(not set(NEEDS[o]) <= set(d[:i]), f'{o} fails')
            except KeyError:
                # the class itself isn't defined yet: nothing was used
                expect(not set(NEEDS[o]) <= set(d[:i]), f'{o} fails')
        w.define(ent)
    for o in ('mkA', 'mkB', 'bad'):
        w.op(o)


def two(thorough):
    ents = [(e, v) for v in (0, 1) for e in 'ABE']
    uses = [[0, 1], [1, 0]] + ([[0, 1, 0], [1, 0, 1]] if thorough else [])

    def cases():
        for fam in ('ann', 'chain', 'shared'):
            for d in permutations(ents):
                for use in uses:
                    yield ([fam, d, use], lambda fam=fam, d=d, use=use:
                           run_two(fam, d, use))
    return cases


def run_two(fam, d, use):
    w = World(fam)
    for ent, v in d:
        w.define(ent, v)
    for v in (0, 1):
        w.define('X', v)
        w.define('I', v)
    for v in use:
        for o in ('mkA', 'mkB', 'bad', 'X', 'I'):
            w.op(o, v)
    return len(d) + 5 * len(use)


def half(thorough):
    """A graph where something stays undefined next to a complete one."""
    def cases():
        for fam in ('ann', 'chain', 'shared'):
            for missing in 'BE':
                for full_first in (True, False):
                    for use_first in (True, False):
                        yield ([fam, missing, full_first, use_first],
                               lambda a=(fam, missing, full_first, use_first):
                               run_half(*a))
    return cases


def run_half(fam, missing, full_first, use_first):
    w = World(fam)
    todo = [(e, 1) for e in 'ABE']
    part = [(e, 0) for e in 'ABE' if e != missing]
    for e, v in (todo + part if full_first else part + todo):
        w.define(e, v)
    if use_first:
        w.op('mkA', 1)
    for _ in range(2):
        for o, kw in [('A', {'b': {'n': 5, 'e': 'X'}}), ('A', {'e': 'X'}),
                      ('A', {'u': {'e': 'X'}}), ('B', {'e': 'X'})]:
            if (o, 0) not in w.ns or (missing == 'B' and o == 'A'
                                      and list(kw) == ['e']):
                continue
            try:
                w.ns[o, 0](**kw).validate()
            except UNKNOWN:
                continue
            except ValidationException:
                if 'u' in kw:       # no alternative of the union works
                    continue
                raise
            expect(False, f'{missing} is undefined but {o}({kw}) works')
    for o in ('mkA', 'mkB', 'bad'):
        w.op(o, 1)
    w.define(missing, 0)
    for o in ('mkA', 'mkB', 'bad'):
        w.op(o, 0)
        w.op(o, 1)


def again_cases(thorough):
    def cases():
        for fam in ('ann', 'chain'):
            for d in permutations('ABE'):
                for n in range(1, 3):
                    for at in combinations([(p, t) for p in range(1, 4)
                                            for t in 'ABE'], n):
                        if any(t not in d[:p] for p, t in at):
                            continue
                        for used in (False, True):
                            yield ([fam, d, at, used],
                                   lambda a=(fam, d, at, used): run_again(*a))
    return cases


def run_again(fam, d, at, used):
    w = World(fam)
    g = w.graph()
    for i in range(4):
        for p, t in at:
            if p != i:
                continue
            if used and i == 3:
                w.op('mkA')
            kind = 'enum' if t == 'E' else 'class'
            second = w.family[t]
            first = w.ns[t, 0]
            try:
                second(g, 1, w.ns)
            except (JSONClassRedefinitionException,
                    JSONClassTypedDictRedefinitionException):
                pass
            else:
                expect(False, f'the second {kind} {t} is not refused')
            from jsonclasses.cgraph import CGraph
            now = CGraph(g).fetch_enum(t) if t == 'E' else \
                CGraph(g).fetch(t).cls
            expect(now is first, f'{t} is replaced')
            # the same name in another graph is fine
            second(f'{g}-other-{p}-{t}', 1, w.ns)
        if i < 3:
            w.define(d[i])
    for o in ('mkA', 'mkB', 'bad'):
        w.op(o)


def lookup_cases():
    """Looking up classes and enums of two graphs by name and by class."""
    from enum import Enum
    kinds = ('class', 'enum')
    for mine, theirs in product(
            [c for r in range(4) for c in product(product(kinds, 'AB'),
                                                  repeat=r)
             if len(set(c)) == len(c)], repeat=2):
        if len(mine) + len(theirs) > 4:
            continue

        def go(mine=mine, theirs=theirs):
            w = World('base') if 'base' in FAMILIES else World(
                next(iter(FAMILIES)))
            made = [{}, {}]
            anchor = []
            for v, items in enumerate((mine, theirs)):
                g = w.graph(v)
                anchor.append(jsonclass(class_graph=g)(
                    type('Anchor', (), {'__module__': __name__})))
                for kind, name in items:
                    if kind == 'class':
                        c = jsonclass(class_graph=g)(type(
                            name, (), {'__module__': __name__}))
                    else:
                        c = jsonenum(class_graph=g)(Enum(name, 'X Y'))
                    made[v][kind, name] = c
            for v in (0, 1):
                cg = anchor[v].cdef.jconf.cgraph
                eq(cg.name, w.graph(v), 'graph name')
                expect(cg.has('Anchor') and cg.has(anchor[v]) and
                       cg.fetch(anchor[v]).cls is anchor[v], 'anchor')
                for kind, name in product(kinds, ('A', 'B', 'C')):
                    have = made[v].get((kind, name))
                    has, fetch = (cg.has, cg.fetch) if kind == 'class' else \
                        (cg.has_enum, cg.fetch_enum)
                    for key in [name] + ([have] if have else []):
                        eq(has(key), have is not None, f'has {kind} {key}')
                        if have is None:
                            try:
                                fetch(key)
                            except UNKNOWN:
                                continue
                            raise AssertionError(f'{kind} {key} found')
                        got = fetch(key)
                        expect((got.cls if kind == 'class' else got) is have,
                               f'{kind} {key} is another one')
        yield [mine, theirs], go


def scenarios(tier):
    t = tier == 'thorough'
    return [*enums(8, 'orders', orders(t)), *enums(4, 'early', early(t)),
            *enums(6, 'two', two(t)), *enums(2, 'half', half(t)),
            *enums(3, 'again', again_cases(t)),
            *enums(1, 'lookup', lookup_cases)]
