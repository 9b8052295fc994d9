"""C02: previous values and reset restore the last unmodified state."""
from __future__ import annotations
import datetime
from typing import Any
from mc.core import Bfs, Enum, canon, enums, expect, same_shape
from mc.containers import (apply_dict, apply_list, at, handles, materialise,
                           mutations, plain, poke, reachable, size)
from checks.c01 import DD, LL, fits
from jsonclasses import jsonclass, types
from jsonclasses.excs import (JSONClassResetError,
                              JSONClassResetNotEnabledError)


@jsonclass(class_graph='vc02', reset_all_fields=True)
class Doc:
    id: int = types.int.primary
    n: int = types.int
    s: str = types.str
    l: list = types.listof(types.int)
    d: dict = types.dictof(types.int)
    ll: list = types.listof(types.listof(types.int))
    dl: dict = types.dictof(types.listof(types.int))
    ld: list = types.listof(types.dictof(types.int))
    a: Any = types.any
    u: Any = types.union([types.int, types.listof(types.int)])
    tmp: str = types.str.temp
    tl: list = types.listof(types.int).temp
    ro: str = types.str.readonly
    day: datetime.date = types.date


@jsonclass(class_graph='vc02')
class Cmp:
    """No reset for the class; only compared fields keep previous values."""
    id: int = types.int.primary
    c: int = types.int.compare(lambda old, new: True)
    cl: list = types.listof(types.int).compare(lambda old, new: True)
    cd: dict = types.dictof(types.listof(types.int)).compare(
        lambda old, new: True)
    n: int = types.int
    l: list = types.listof(types.int)


VALUES = {
    'n': (1, 2, None), 's': ('B', None), 'l': (LL(9), LL(), None),
    'd': (DD(z=9), None), 'll': (LL(LL(9)), LL()), 'dl': (DD(k=LL(9)),),
    'ld': (LL(DD(x=9)), None), 'a': (DD(k=LL(9)), LL(LL(1)), 5),
    'u': (3, LL(4), None), 'tmp': ('y', None), 'tl': (LL(9), None),
    'ro': ('r2', None), 'id': (8, 9),
    'c': (1, 2, None), 'cl': (LL(9), None), 'cd': (DD(k=LL(9)), None),
}
_LIST_OPS = [('append', (3,)), ('pop', ()), ('clear', ()), ('reverse', ()),
             ('setitem', (0, 9)), ('delslice', ((0, 1),)), ('imul', (2,)),
             ('imul', (0,)), ('setslice', ((0, 1), LL(6, 7))),
             ('sort', (True,)), ('insert', (0, 8)), ('extend', (LL(4),)),
             ('iadd', (LL(4),)), ('remove', (1,)), ('delitem', (0,))]
_DICT_OPS = [('setitem', ('a', 2)), ('delitem', ('a',)), ('update', (DD(a=5),)),
             ('ior', (DD(c=5),)), ('pop', ('a', None)), ('popitem', ()),
             ('clear', ()), ('setdefault', ('z', 1)),
             ('update_gen', ((('q', 1),),)), ('update_kw', (DD(a=4),))]
INPLACE = (
    [(f, (), n, a) for f in ('l', 'tl', 'u', 'cl') for n, a in _LIST_OPS]
    + [('d', (), n, a) for n, a in _DICT_OPS]
    + [('ll', (0,), n, a) for n, a in _LIST_OPS]
    + [('ll', (), 'append', (LL(5),)), ('ll', (-1,), 'append', (2,)),
       ('ll', (), 'setitem', (0, LL(8))), ('ll', (), 'pop', ())]
    + [('dl', ('k',), n, a) for n, a in _LIST_OPS]
    + [('dl', (), 'setitem', ('j', LL(3))), ('dl', ('j',), 'append', (2,)),
       ('dl', (), 'pop', ('k',)), ('dl', (), 'clear', ())]
    + [('cd', ('k',), n, a) for n, a in _LIST_OPS[:4]]
    + [('cd', (), 'setitem', ('j', LL(3))), ('cd', (), 'clear', ())]
    + [('ld', (0,), n, a) for n, a in _DICT_OPS]
    + [('ld', (), 'append', (DD(w=1),)), ('ld', (), 'clear', ())]
    + [('a', ('k',), n, a) for n, a in _LIST_OPS[:6]]
    + [('a', (), 'setitem', ('k', 1)), ('a', (), 'setitem', ('j', LL(1))),
       ('a', ('j',), 'append', (5,)), ('a', (0,), 'append', (2,)),
       ('a', (), 'append', (LL(7),))])


class World:
    pass


class Sys:
    def __init__(self, cls, focus, empty=False):
        self.cls, self.focus, self.empty = cls, focus, empty
        self.fields = [f for f in ('id n s l d ll dl ld a u tmp tl ro c cl cd'
                                   ).split()
                       if f in {x.name for x in cls.cdef.fields}]
        self.recorded = (set(self.fields) if cls is Doc
                         else {'id', 'c', 'cl', 'cd'})

    def snap(self, o):
        return {f: plain(getattr(o, f)) for f in self.fields}

    def build(self):
        w = World()
        if self.cls is Doc and self.empty:
            w.real = Doc(id=0, n=0, s='', l=[], d={}, ll=[], dl={}, ld=[],
                         a=[], u=0, tmp='', tl=[])
            w.real.update(ro='')
        elif self.cls is Doc:
            w.real = Doc(id=7, n=1, s='A', l=[1, 2], d={'a': 1}, ll=[[1, 2]],
                         dl={'k': [1]}, ld=[{'a': 1}], a={'k': [1]},
                         u=[4, 1], tmp='x', tl=[1])
            w.real.update(ro='r')
        elif self.empty:
            w.real = Cmp(id=0, c=0, cl=[], cd={}, n=0, l=[])
        else:
            w.real = Cmp(id=7, c=1, cl=[1, 2], cd={'k': [1]}, n=1, l=[1])
        w.real._mark_unmodified()
        w.base = self.snap(w.real)
        return w

    def ops(self, w):
        out = []
        for f in self.focus:
            for v in VALUES.get(f, ()):
                out.append(('=', f, v))
                out.append(('update', f, v))
                if f != 'ro':
                    out.append(('set', f, v))
        for f, path, name, args in INPLACE:
            if f in self.focus and reachable(getattr(w.real, f), path) and \
                    fits(at(getattr(w.real, f), path), name.split('_')[0],
                         args):
                out.append(('in', f, (path, name, args)))
        out += [('mark', None, None), ('other', None, None)]
        if self.cls is Doc:
            out.append(('reset', None, None))
        return out

    def step(self, w, op):
        kind, f, arg = op
        o = w.real
        old = [h for g in self.fields for h in handles(getattr(o, g))]
        if kind == '=':
            setattr(o, f, materialise(arg))
        elif kind == 'update':
            o.update(**{f: materialise(arg)})
        elif kind == 'set':
            o.set(**{f: materialise(arg)})
        elif kind == 'in':
            path, name, args = arg
            tgt = at(getattr(o, f), path)
            try:
                (apply_list if isinstance(tgt, list) else apply_dict)(
                    tgt, name, args)
            except (IndexError, KeyError, ValueError):
                pass
        elif kind == 'mark':
            o._mark_unmodified()
            w.base = self.snap(o)
        elif kind == 'other':
            o.n = 77
        elif kind == 'reset':
            o.reset()
            now = self.snap(o)
            for g in self.fields:
                expect(now[g] == w.base[g] and same_shape(now[g], w.base[g]),
                       f'after reset {g} is {now[g]!r}, expected '
                       f'{w.base[g]!r}')
            expect(not o.is_modified and not o.modified_fields,
                   f'after reset modified_fields={o.modified_fields}')
            expect(not o.previous_values,
                   f'after reset previous_values={o.previous_values}')
        if size(self.snap(o)) > 40:
            w.dead = True
        self.judge(w)
        # containers taken out of the object don't concern it anymore
        poke(old, [h for g in self.fields for h in handles(getattr(o, g))])
        self.judge(w)

    def judge(self, w):
        o = w.real
        now = self.snap(o)
        prev = {k: plain(v) for k, v in o.previous_values.items()}
        expect(o._previous_id == w.base['id'], 'previous primary key')
        for f in self.fields:
            if f in self.recorded:
                if now[f] != w.base[f]:
                    expect(f in prev, f'{f} changed from {w.base[f]!r} to '
                           f'{now[f]!r} but no previous value is known')
                if f in prev:
                    expect(prev[f] == w.base[f]
                           and same_shape(prev[f], w.base[f]),
                           f'previous value of {f} is {prev[f]!r}, it was '
                           f'{w.base[f]!r}')
            else:
                expect(f not in prev, f'previous value of {f} recorded')

    def key(self, w):
        return canon(w.real), repr(w.base)


def error_cases():
    def new_reset():
        o = Doc(id=1)
        try:
            o.reset()
        except JSONClassResetError:
            return 'new'
        expect(False, 'reset of a new object did not raise')

    def disabled(mutate):
        def go():
            o = Cmp(id=1, c=1, cl=[1], n=1)
            o._mark_unmodified()
            mutate(o)
            before = (o.c, list(o.cl), o.n, set(o.modified_fields))
            try:
                o.reset()
            except JSONClassResetNotEnabledError:
                expect(before == (o.c, list(o.cl), o.n,
                                  set(o.modified_fields)),
                       'a refused reset changed the object')
                return 'disabled'
            expect(False, 'reset without reset_all_fields did not raise')
        return go
    yield 'new', new_reset
    yield 'disabled', disabled(lambda o: None)
    yield 'disabled-changed', disabled(lambda o: setattr(o, 'c', 5))
    yield 'disabled-inplace', disabled(lambda o: o.cl.append(2))

    def compared(old, new):
        """The comparer sees the value at the last unmodified point."""
        def go():
            seen = []

            def cmp(a, b):
                seen.append((a, b))
                return True
            o = Cmp(id=1, c=old, n=1)
            o._mark_unmodified()
            o.c = 500
            o.c = new
            expect(o.previous_values['c'] == old, 'wrong previous value')
            o.validate()
            return repr(o.previous_values)
        return go
    for old in (1, 2):
        for new in (3, 4):
            yield f'compare-{old}-{new}', compared(old, new)


def mutator_cases(deep):
    def cases():
        for start, path, name, args in mutations(deep):
            def go(start=start, path=path, name=name, args=args):
                o = Doc(id=1, n=1, a=materialise(start))
                o._mark_unmodified()
                base = plain(o.a)
                old = list(handles(o.a))
                tgt = at(o.a, path)
                try:
                    (apply_list if isinstance(tgt, list) else apply_dict)(
                        tgt, name, args)
                except (IndexError, KeyError, ValueError, TypeError):
                    pass
                poke(old, list(handles(o.a)))
                prev = o.previous_values
                expect(set(prev) <= {'a'}, f'previous values of {set(prev)}')
                if plain(o.a) != base:
                    expect('a' in prev, 'no previous value')
                if 'a' in prev:
                    expect(prev['a'] == base and same_shape(prev['a'], base),
                           lambda: f'previous value {prev["a"]!r}, it was '
                           f'{base!r}')
                after = plain(o.a)
                o.reset()
                expect(o.a == base and same_shape(plain(o.a), base),
                       lambda: f'reset restored {o.a!r}, expected {base!r}')
                expect(not o.is_modified and not o.modified_fields
                       and not o.previous_values, 'modified after reset')
                return repr((base, after))
            yield [repr(start), repr(path), name, repr(args)], go
    return cases


def scenarios(tier):
    deep = tier == 'thorough'
    out = [Enum('errors', error_cases)]
    out += enums(8 if deep else 3, 'every-mutator', mutator_cases(deep))
    for focus in (('l', 'n'), ('d', 's'), ('ll',), ('dl',), ('ld',), ('a',),
                  ('u', 'tmp'), ('tl', 'ro'), ('id', 'n', 's', 'ro')):
        out.append(Bfs('reset-' + '-'.join(focus), Sys(Doc, focus),
                       4 if deep else 3))
        out.append(Bfs('reset-empty-' + '-'.join(focus),
                       Sys(Doc, focus, True), 3 if deep else 2))
    for focus in (('c', 'n'), ('cl', 'l'), ('cd',), ('id', 'c')):
        out.append(Bfs('compare-' + '-'.join(focus), Sys(Cmp, focus),
                       4 if deep else 3))
        out.append(Bfs('compare-empty-' + '-'.join(focus),
                       Sys(Cmp, focus, True), 3 if deep else 2))
    return out
