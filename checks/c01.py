"""C01: change tracking is complete and never reports untouched fields."""
from __future__ import annotations
import datetime
from typing import Any, Optional
from itertools import combinations, product
from mc.core import Bfs, canon, enums, eq, expect, sharded
from mc.containers import (apply_dict, apply_list, at, handles, materialise,
                           list_ops, mutations, plain, poke, reachable, size)
from mc.relkeys import KeySystem
from jsonclasses import jsonclass, jsonenum, types
from enum import Enum


@jsonenum(class_graph='vc01')
class Color(Enum):
    RED = 1
    BLUE = 2


@jsonclass(class_graph='vc01')
class Inner:
    v: int = types.int


@jsonclass(class_graph='vc01')
class Thing:
    id: int = types.int.primary
    n: int = types.int
    s: str = types.str.transform(lambda x: x.upper() if x else x)
    fl: float = types.float
    b: bool = types.bool
    day: datetime.date = types.date
    color: Color = types.enum('Color')
    l: list = types.listof(types.int)
    d: dict = types.dictof(types.int)
    ll: list = types.listof(types.listof(types.int))
    dl: dict = types.dictof(types.listof(types.int))
    a: Any = types.any
    u: Any = types.union([types.int, types.listof(types.int)])
    tmp: str = types.str.temp
    tl: list = types.listof(types.int).temp
    ro: str = types.str.readonly
    inner: Optional[Inner] = types.objof('Inner')
    quiet: list = types.listof(types.int)
    calc: int = types.int.getter(lambda o: 1).setter(
        lambda v, o: setattr(o, 'n', v))


class ThingX(Thing):
    pass


FIELDS = [f for f in ('id n s fl b day color l d ll dl a u tmp tl ro inner '
                      'quiet').split()]
TEMP = {'tmp', 'tl'}
D1, D2 = datetime.date(2020, 1, 1), datetime.date(2020, 1, 2)
INNERS = {'i1': lambda: Inner(v=1), 'i2': lambda: Inner(v=2)}
LL = lambda *x: ('L', x)                     # noqa: E731
DD = lambda **x: ('D', tuple(x.items()))     # noqa: E731

VALUES = {
    'n': (1, 2, None), 's': ('A', 'B', None), 'fl': (1.5, None),
    'b': (True, False, None), 'day': ('d1', 'd2', None),
    'color': ('RED', 'BLUE'), 'l': (LL(1), LL(), None, LL(1, 2)),
    'd': (DD(a=1), DD(), None), 'll': (LL(LL(1)), None),
    'dl': (DD(k=LL(1)), None), 'a': (DD(k=LL(1)), LL(LL(1)), 5),
    'u': (3, LL(4), None), 'tmp': ('x', None), 'tl': (LL(1), None),
    'ro': ('r', None), 'inner': ('i1', 'i2', None), 'id': (7, 8),
}
INPLACE = [
    ('l', (), 'append', (3,)), ('l', (), 'pop', ()), ('l', (), 'clear', ()),
    ('l', (), 'reverse', ()), ('l', (), 'setitem', (0, 9)),
    ('l', (), 'delslice', ((0, 1),)), ('l', (), 'imul', (2,)),
    ('l', (), 'setslice', ((0, 0), LL(6))), ('l', (), 'sort', (True,)),
    ('l', (), 'insert', (0, 8)), ('l', (), 'extend', (LL(4),)),
    ('l', (), 'iadd', (LL(4),)), ('l', (), 'remove', (1,)),
    ('d', (), 'setitem', ('b', 2)), ('d', (), 'delitem', ('a',)),
    ('d', (), 'update', (DD(a=5),)), ('d', (), 'ior', (DD(c=5),)),
    ('d', (), 'pop', ('a', None)), ('d', (), 'popitem', ()),
    ('d', (), 'clear', ()), ('d', (), 'setdefault', ('z', 1)),
    ('ll', (0,), 'append', (2,)), ('ll', (), 'append', (LL(5),)),
    ('ll', (-1,), 'append', (2,)), ('ll', (0,), 'reverse', ()),
    ('dl', ('k',), 'append', (2,)), ('dl', (), 'setitem', ('j', LL(3))),
    ('dl', ('j',), 'clear', ()), ('dl', ('j',), 'append', (1,)),
    ('a', ('k',), 'append', (2,)), ('a', (), 'setitem', ('k', 1)),
    ('a', (0,), 'append', (2,)), ('a', (), 'append', (LL(7),)),
    ('u', (), 'append', (2,)), ('u', (), 'clear', ()),
    ('tl', (), 'append', (2,)), ('tl', (), 'clear', ()),
]


class World:
    pass


def val(v):
    if isinstance(v, str) and v in INNERS:
        return INNERS[v]()
    if v in ('d1', 'd2'):
        return {'d1': D1, 'd2': D2}[v]
    if v in ('RED', 'BLUE'):
        return Color[v]
    return materialise(v)


def snap(o):
    out = {}
    for f in FIELDS:
        v = getattr(o, f)
        out[f] = ('obj', id(v)) if isinstance(v, Inner) else plain(v)
    return out


LISTY = set('append pop clear reverse setitem delslice imul setslice sort '
            'insert extend iadd remove'.split())
DICTY = set('setitem delitem update ior pop popitem clear setdefault'.split())


def fits(tgt, name, args):
    if isinstance(tgt, list):
        return name in LISTY and not (
            name in ('setitem', 'pop') and args and isinstance(args[0], str))
    if isinstance(tgt, dict):
        return name in DICTY and not (
            name == 'setitem' and isinstance(args[0], int))
    return False


class Sys:
    def __init__(self, new, focus=None):
        self.new, self.focus = new, focus

    def build(self):
        w = World()
        w.real = Thing(id=7, n=1, s='a', l=[1], d={'a': 1}, ll=[[1]],
                       dl={'k': [1]}, a={'k': [1]}, u=[4], tmp='x', tl=[1],
                       inner=Inner(v=1), quiet=[1], day=D1, color='RED')
        w.keep = [w.real.inner]
        if not self.new:
            w.real._mark_unmodified()
        w.base = snap(w.real)
        w.touched = set()
        return w

    def ops(self, w):
        out = []
        for f, vs in VALUES.items():
            if self.focus and f not in self.focus:
                continue
            for v in vs:
                out.append(('=', f, v))
                if f not in ('ro', 'inner') and (
                        self.focus or v is vs[0]):
                    out.append(('set', f, v))
                if self.focus:
                    out.append(('update', f, v))
        for f, path, name, args in INPLACE:
            if self.focus and f not in self.focus:
                continue
            if reachable(getattr(w.real, f), path) and \
                    fits(at(getattr(w.real, f), path), name, args):
                out.append(('in', f, (path, name, args)))
        out += [('set2', None, None), ('setro', None, None),
                ('calc', None, None), ('mark', None, None), ('noop', None, None)]
        return out

    def step(self, w, op):
        kind, f, arg = op
        o = w.real
        old = [h for g in FIELDS for h in handles(getattr(o, g))]
        if kind == '=':
            setattr(o, f, val(arg))
        elif kind == 'set':
            o.set(**{f: val(arg)})
        elif kind == 'update':
            o.update(**{f: val(arg)})
        elif kind == 'in':
            path, name, args = arg
            tgt = at(getattr(o, f), path)
            try:
                (apply_list if isinstance(tgt, list) else apply_dict)(
                    tgt, name, args)
            except Exception as e:
                expect(isinstance(e, (IndexError, KeyError, ValueError)),
                       lambda: f'{name} raised {e!r}')
        elif kind == 'set2':
            o.set(n=2, s='q')
            w.touched |= {'n', 's'}
        elif kind == 'setro':
            o.set(ro='ignored')
        elif kind == 'calc':
            o.calc = 41
            w.touched.add('n')
        elif kind == 'mark':
            o._mark_unmodified()
            w.base, w.touched = snap(o), set()
            self.new_now = False
        elif kind == 'noop':
            o.tojson()
            o.is_valid
            o.set()
            o.update()
        if f:
            w.touched.add(f)
        if isinstance(o.inner, Inner):
            w.keep.append(o.inner)
        if size(o.l) + size(o.d) + size(o.a if isinstance(
                o.a, (list, dict)) else []) > 9:
            w.dead = True
        self.judge(w, kind)
        # containers taken out of the object don't concern it anymore
        seen = o.modified_fields, o.is_modified, snap(o)
        poke(old, [h for g in FIELDS for h in handles(getattr(o, g))])
        expect(seen == (o.modified_fields, o.is_modified, snap(o)),
               lambda: 'changing a container taken out of the object is '
               f'reported: {seen[0]} -> {o.modified_fields}')

    def judge(self, w, kind):
        o = w.real
        mods = {m.split('.')[0] for m in o.modified_fields}
        pers = {m.split('.')[0] for m in o.persisted_modified_fields}
        if o.is_new:
            expect(not mods and not o.is_modified and not pers,
                   f'a new object reports {mods}')
            return
        now = snap(o)
        changed = {f for f in FIELDS if now[f] != w.base[f]}
        expect(changed <= mods, f'{sorted(changed - mods)} changed but '
               f'modified_fields is {sorted(mods)}')
        expect(mods <= w.touched, f'{sorted(mods - w.touched)} reported but '
               'never touched')
        expect(o.is_modified == bool(mods),
               f'is_modified={o.is_modified} with modified_fields={mods}')
        expect(pers == mods - TEMP,
               f'persisted_modified_fields={pers}, modified_fields={mods}')

    def key(self, w):
        return (canon(w.real), sorted(w.touched),
                [f for f in FIELDS if snap(w.real)[f] != w.base[f]],
                repr({k: v for k, v in w.base.items() if k != 'inner'}))


class RelTrack(KeySystem):
    """Objects whose stored key changed report the reference; uninvolved
    objects report nothing."""

    def step(self, w, op):
        x, f = op[1], op[2]
        if not self.new:
            for o in w.objs.values():
                o._mark_unmodified()
        part = {n: {p for (a, g) in w.M if a == n
                    for p in self.partners(w, a, g)} for n in w.objs}
        involved = {x} | part[x]
        for p in list(involved):
            involved |= part[p]
        w.keys_before = {(a, g): self.stored(w, a, g) for a, g in w.pending}
        self.apply(w, op)
        self.symmetric(w)
        self.mirrored(w)
        after = {p for (a, g) in w.M if a == x
                 for p in self.partners(w, a, g)}
        for p in after:
            involved |= {p} | part[p]
        for n, o in w.objs.items():
            mods = set(o.modified_fields)
            if self.new:
                expect(not mods and not o.is_modified,
                       f'new object {n} reports {mods}')
                continue
            for (a, g) in w.pending:
                if a == n and self.stored(w, a, g) != w.keys_before[a, g]:
                    expect(g in mods and o.is_modified,
                           f'the stored key of {n}.{g} changed but it '
                           f'reports {sorted(mods)}, is_modified='
                           f'{o.is_modified}')
            if n not in involved:
                expect(not mods and not o.is_modified,
                       f'uninvolved {n} reports {sorted(mods)}')
            expect('tag' not in mods and 'id' not in mods,
                   f'{n} reports {sorted(mods)}')
            o.persisted_modified_fields

    def advance(self, w, op):
        if not self.new:
            for o in w.objs.values():
                o._mark_unmodified()
        super().advance(w, op)


def mutator_cases(deep):
    """Every mutator on every kind of content, at every depth."""
    def cases():
        for start, path, name, args in mutations(deep):
            def go(start=start, path=path, name=name, args=args):
                o = Thing(id=1, n=1, a=materialise(start), quiet=[1])
                o._mark_unmodified()
                base = plain(o.a)
                old = list(handles(o.a))
                tgt = at(o.a, path)
                try:
                    (apply_list if isinstance(tgt, list) else apply_dict)(
                        tgt, name, args)
                except (IndexError, KeyError, ValueError, TypeError):
                    pass
                mods = {m.split('.')[0] for m in o.modified_fields}
                if plain(o.a) != base:
                    expect(mods == {'a'} and o.is_modified,
                           lambda: f'{name} changed {base!r} to {o.a!r} but '
                           f'modified_fields={mods}')
                expect(mods <= {'a'}, f'untouched fields reported: {mods}')
                expect({m.split('.')[0] for m in o.persisted_modified_fields}
                       == mods, 'persisted fields differ')
                expect(o.is_modified == bool(mods), 'is_modified disagrees')
                o._mark_unmodified()
                now = plain(o.a)
                poke(old, list(handles(o.a)))
                expect(not o.is_modified and not o.modified_fields
                       and plain(o.a) == now,
                       lambda: f'after {name} a removed container is tracked')
                for h in list(handles(o.a)):
                    o._mark_unmodified()
                    h.update(new=1) if isinstance(h, dict) else h.append(3)
                    expect({m.split('.')[0] for m in o.modified_fields}
                           == {'a'} and o.is_modified,
                           lambda: f'after {name} a container is not tracked')
                return repr((base, o.a))
            yield [repr(start), repr(path), name, repr(args)], go
    return cases


def keylist_cases(deep):
    """Every mutator on a list of stored keys, with any part of the objects
    loaded."""
    @jsonclass(class_graph='verif-c01-keys')
    class Shelf:
        id: int = types.int.primary
        n: Any = types.int
        books: Any = types.listof('Book').linkto
        films: Any = types.listof('Book').linkto

    @jsonclass(class_graph='verif-c01-keys')
    class Book:
        id: int = types.int.primary

    def cases():
        starts = [(), (3,), (3, 1), (1, 3, 2), (2, 2)]
        for start in starts:
            loads = [c for r in range(len(start) + 1)
                     for c in combinations(start, r)] \
                if len(set(start)) == len(start) else [()]
            for loaded, new, op, then in product(
                    loads, (False, True), list_ops((3, 7), (9,)),
                    (None, ('sort_plain', (True,)), ('append', (8,)))
                    if deep else (None,)):
                def go(start=start, loaded=loaded, new=new, op=op, then=then):
                    o = Shelf(id=1, n=1)
                    books = {k: Book(id=k) for k in loaded}
                    o.books = list(books.values())
                    o.book_ids = list(start)
                    o.film_ids = [5]
                    if not new:
                        o._mark_unmodified()
                    base = list(o.book_ids)
                    eq(base, list(start), 'stored keys')
                    model = list(start)
                    for name, args in (op, then) if then else (op,):
                        r = []
                        for t in (o.book_ids, model):
                            try:
                                r.append(apply_list(t, name, args))
                            except (IndexError, KeyError, ValueError,
                                    TypeError) as e:
                                r.append(type(e).__name__)
                        eq(r[0], r[1], f'result of {name}{args}')
                    if len(set(model)) == len(model) or not loaded:
                        eq(list(o.book_ids), model, f'keys after {op}')
                    have = [b.id for b in o.books or []]
                    eq(sorted(have), sorted(k for k in loaded if k in
                                            o.book_ids), 'loaded objects')
                    mods = set(o.modified_fields)
                    if new:
                        expect(not mods and not o.is_modified,
                               f'new object reports {mods}')
                        return repr(list(o.book_ids))
                    if list(o.book_ids) != base:
                        expect('books' in mods and o.is_modified,
                               lambda: f'{op} changed the keys {base} to '
                               f'{o.book_ids}, reported {mods}')
                    expect(mods <= {'books'}, f'reported {mods}')
                    eq(o.is_modified, bool(mods), 'is_modified')
                    eq(set(o.persisted_modified_fields), mods, 'persisted')
                    eq(list(o.film_ids), [5], 'other keys')
                    return repr(list(o.book_ids))
                yield [start, loaded, new, op, then], go
    return cases


@jsonclass(class_graph='verif-c01-paths')
class Tree:
    xs: Any = types.listof(types.any)
    d_d: Any = types.dictof(types.any)


def grown(depth):
    """A list and a dict with both kinds of containers at every place."""
    if depth == 0:
        return [1, 2], {'k': 1, 'j': 2}
    a, b = grown(depth - 1), grown(depth - 1)
    return [a[0], a[1], 5, b[0]], {'p_q': b[0], '0': b[1], 'v': 6}


def spots(v, path):
    yield path
    for k, x in v.items() if isinstance(v, dict) else enumerate(v):
        if isinstance(x, (list, dict)):
            yield from spots(x, (*path, k))


WAYS = {
    'init': lambda xs, d: Tree(xs=xs, d_d=d),
    'set': lambda xs, d: Tree().set(xs=xs, dD=d),
    'update': lambda xs, d: Tree().update(xs=xs, d_d=d),
    'one by one': lambda xs, d: one_by_one(xs, d, False),
    'at once': lambda xs, d: one_by_one(xs, d, True),
    'nested': lambda xs, d: later(xs, d),
}


def one_by_one(xs, d, bulk):
    o = Tree(xs=[], d_d={})
    if bulk:
        o.xs.extend(xs)
        o.d_d.update(d)
    else:
        for x in xs:
            o.xs.append(x)
        for k, x in d.items():
            o.d_d[k] = x
    return o


def later(xs, d):
    """The same values, the inner ones put into their place last."""
    o = Tree(xs=[0] * len(xs), d_d=dict.fromkeys(d))

    def fill(dest, src):
        for k, x in src.items() if isinstance(src, dict) else enumerate(src):
            if isinstance(x, list):
                dest[k] = [0] * len(x)
                fill(dest[k], x)
            elif isinstance(x, dict):
                dest[k] = dict.fromkeys(x)
                fill(dest[k], x)
            else:
                dest[k] = x
    fill(o.xs, xs)
    fill(o.d_d, d)
    return o


CHANGES = {
    'append': (list, lambda c: c.append(9)), 'pop': (list, lambda c: c.pop()),
    'item': (list, lambda c: c.__setitem__(0, 9)),
    'delete item': (list, lambda c: c.__delitem__(0)),
    'slice': (list, lambda c: c.__setitem__(slice(1, 2), [9, 9])),
    'reverse': (list, lambda c: c.reverse()),
    'clear': (list, lambda c: c.clear()),
    'key': (dict, lambda c: c.__setitem__('n', 9)),
    'delete key': (dict, lambda c: c.__delitem__(next(iter(c)))),
    'put': (dict, lambda c: c.update(n=9)),
    'popitem': (dict, lambda c: c.popitem()),
    'empty': (dict, lambda c: c.clear()),
}


def path_cases(depth):
    """A change in place is reported by the path of the list or dict that
    was changed."""
    def run(way, field, path, change):
        o = WAYS[way](*grown(depth))
        o._mark_unmodified()
        c = getattr(o, field)
        for k in path:
            c = c[k]
        CHANGES[change][1](c)
        want = '.'.join(map(str, [field, *path]))
        eq([o.modified_fields, o.persisted_modified_fields, o.is_modified],
           [(want,), (want,), True], 'reported')

    def cases():
        for way, change in product(WAYS, CHANGES):
            for field, top in zip(('xs', 'd_d'), grown(depth)):
                for path in spots(top, ()):
                    c = top
                    for k in path:
                        c = c[k]
                    if type(c) is CHANGES[change][0]:
                        yield [way, field, path, change], \
                            lambda a=(way, field, path, change): run(*a)
    return cases


def scenarios(tier):
    deep = tier == 'thorough'
    out = enums(8 if deep else 3, 'every-mutator', mutator_cases(deep))
    out += enums(2, 'paths', path_cases(3 if deep else 2))
    out += enums(2, 'key-lists', keylist_cases(deep))
    for new in (False, True):
        for sc in sharded(4 if not new else 1,
                          f'all-fields/{"new" if new else "saved"}', Sys(new),
                          3 if deep else 1 if new else 2):
            sc.weight = 9
            out.append(sc)
    for focus in (('l', 'n'), ('d', 's'), ('a',), ('u', 'tl', 'tmp'),
                  ('ll', 'dl'), ('inner', 'day', 'color'), ('id', 'ro', 'b')):
        sc = Bfs('focus-' + '-'.join(focus), Sys(False, focus),
                 4 if deep else 3)
        sc.weight = 8
        out.append(sc)
    for kind in ('1-1', '1-n', 'n-n-local', 'tree', 'multi', 'n-n-thru',
                 'one-sided'):
        for new in (False, True):
            rich = kind not in ('1-1', 'multi') and (deep or not new)
            depth = 3 if kind == '1-1' else 2
            sc = Bfs(f'rel/{kind}/{"new" if new else "saved"}',
                     RelTrack(kind, new=new, ids=True, rich=rich),
                     depth + deep)
            sc.weight = 7
            out.append(sc)
    return out
