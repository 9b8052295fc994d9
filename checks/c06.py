"""C06: same primary key means same object within one graph."""
from __future__ import annotations
from itertools import product
from typing import Any
from jsonclasses import jsonclass, types
from jsonclasses.excs import JSONClassGraphMergeConflictException
from mc.core import Bfs, enums, eq, expect
from mc.rel import KINDS, RelSystem, Item, Owner

G = 'verif-c06'


@jsonclass(class_graph=G)
class Node:
    id: int = types.int.primary
    v0: Any = types.int
    v1: Any = types.int
    v2: Any = types.int
    v3: Any = types.int
    v4: Any = types.int
    left: Any = types.objof('Node').linkto
    right: Any = types.objof('Node').linkto
    kids: Any = types.listof('Node').linkto
    other: Any = types.objof('Other').linkto
    emb: Any = types.objof('Node')
    embs: Any = types.dictof('Node')
    v5: Any = types.int
    v6: Any = types.int


@jsonclass(class_graph=G)
class Other:
    node_key: int = types.int.primary
    v0: Any = types.int
    v1: Any = types.int
    v2: Any = types.int
    v3: Any = types.int
    v4: Any = types.int
    v5: Any = types.int
    next_one: Any = types.objof('Other').linkto
    node: Any = types.objof('Node').linkto


# position -> (holder position, how the object is put into and read from it)
NODE_POS = {'left': ('root', 'left'), 'right': ('root', 'right'),
            'kid0': ('root', 'kids', 0), 'kid1': ('root', 'kids', 1),
            'emb': ('root', 'emb'), 'dict': ('root', 'embs', 'k'),
            'left.left': ('left', 'left'), 'kid0.right': ('kid0', 'right'),
            'emb.left': ('emb', 'left'), 'right.emb': ('right', 'emb')}


def place(data, where, value):
    if len(where) == 2:
        data[where[1]] = value
    elif isinstance(where[2], int):
        data.setdefault(where[1], []).append(value)
    else:
        data.setdefault(where[1], {})[where[2]] = value


def fetch(o, where, index):
    v = getattr(o, where[1])
    if len(where) == 2:
        return v
    return v[index if isinstance(where[2], int) else where[2]]


def nodes(positions, keys, via):
    """Every placement of keys at the positions of one nested input."""
    def run(combo):
        data = {'v0': 100}
        inputs = {'root': data}
        at = {'root': 0}
        index = {}
        want = {0: {'v0': 100}}
        n = 0
        for i, (p, k) in enumerate(zip(positions, combo)):
            if k is None:
                continue
            holder = NODE_POS[p][0]
            if holder not in inputs:
                return
            f = f'v{i + 1}'
            d = {f: i}
            if k != 'new':
                d['id'] = k
                ident = k
            else:
                n += 1
                ident = f'new{n}'
            place(inputs[holder], NODE_POS[p], d)
            if NODE_POS[p][1] == 'kids':
                index[p] = len(inputs[holder]['kids']) - 1
            inputs[p], at[p] = d, ident
            want.setdefault(ident, {})[f] = i
        # a link of one object stated twice is not covered
        slots = set()
        for p in at:
            if p == 'root':
                continue
            holder, *slot = NODE_POS[p]
            s = at[holder], slot[0], slot[1] if len(slot) > 1 else None
            if s in slots:
                return
            slots.add(s)
        kid = [at[p] for p in at if p in ('kid0', 'kid1')]
        if len(set(kid)) < len(kid):
            return
        if via == 'init':
            root = Node(**data, id=0)
        elif via == 'init-first':
            root = Node(**{'id': 0, **data})
        elif via == 'set':
            root = Node(id=0)
            root.set(**data)
        else:
            root = Node(id=0)
            root._mark_unmodified()
            root.set(id=0, **data)
        got = {'root': root}
        for p in at:
            if p != 'root':
                got[p] = fetch(got[NODE_POS[p][0]], NODE_POS[p],
                               index.get(p))
        for p, o in got.items():
            expect(isinstance(o, Node), f'{p} is {o!r}')
            for q, x in got.items():
                eq(o is x, at[p] == at[q],
                   f'{p} (key {at[p]}) and {q} (key {at[q]}) are one object')
            w = want[at[p]]
            eq(o.id, at[p] if isinstance(at[p], int) else None, f'key of {p}')
            for j in range(7):
                eq(getattr(o, f'v{j}'), w.get(f'v{j}'), f'{p}.v{j}')

    def cases():
        for combo in product(keys, repeat=len(positions)):
            yield list(combo), lambda c=combo: run(c)
    return cases


def classes(spell):
    """Keys only unify within a class; the key has a two word name."""
    def run(combo, via):
        a, b, c, d, e = combo
        key = {'camel': 'nodeKey', 'snake': 'node_key'}[spell]
        data = {}
        if a is not None:
            data['left'] = {'id': a, 'v1': 1}
        if b is not None:
            data['other'] = {key: b, 'v2': 2}
            if c is not None:
                data['other']['nextOne'] = {key: c, 'v3': 3}
                if e is not None:
                    data['other']['nextOne']['node'] = {'id': e, 'v5': 5}
            if d is not None:
                data['other']['node'] = {'id': d, 'v4': 4}
        if b == c and None not in (d, e):
            return
        root = Node(id=0, **data) if via == 'init' else \
            Node(id=0).set(**data)
        objs, want = [(root, ('N', 0))], {('N', 0): {}}

        def see(o, ident, **v):
            objs.append((o, ident))
            want.setdefault(ident, {}).update(v)
        if a is not None:
            see(root.left, ('N', a), v1=1)
        if b is not None:
            see(root.other, ('O', b), v2=2)
            if c is not None:
                see(root.other.next_one, ('O', c), v3=3)
                if e is not None:
                    see(root.other.next_one.node, ('N', e), v5=5)
            if d is not None:
                see(root.other.node, ('N', d), v4=4)
        for o, i in objs:
            eq([type(o).__name__[0], o._id], list(i), 'class and key')
            for x, j in objs:
                eq(o is x, i == j, f'{i} and {j} are one object')
            for k in range(6):
                eq(getattr(o, f'v{k}'), want[i].get(f'v{k}'), f'{i}.v{k}')

    def cases():
        for combo in product([None, 0, 1, 2], repeat=5):
            for via in ('init', 'set'):
                yield [list(combo), via], lambda c=combo, v=via: run(c, v)
    return cases


@jsonclass(class_graph=G)
class Base:
    id: int = types.int.primary
    v: Any = types.dictof(types.int).nonnull
    w: Any = types.str


@jsonclass(class_graph=G)
class Left(Base):
    x: Any = types.str
    peer: Any = types.objof('Right').linkto


@jsonclass(class_graph=G)
class Right(Base):
    x: Any = types.str
    peer: Any = types.objof('Left').linkto


@jsonclass(class_graph=G)
class Deep(Left):
    y: Any = types.str


@jsonclass(class_graph=G)
class Alien:
    id: int = types.int.primary
    x: Any = types.str
    w: Any = types.str


@jsonclass(class_graph=G)
class Holder(Base):
    base: Any = types.objof('Base').linkto
    left: Any = types.objof('Left').linkto
    right: Any = types.objof('Right')
    deep: Any = types.objof('Deep').linkto
    alien: Any = types.objof('Alien')
    lefts: Any = types.listof('Left')
    rights: Any = types.dictof('Right')


KIN = {'base': Base, 'left': Left, 'right': Right, 'deep': Deep,
       'alien': Alien, 'lefts': Left, 'rights': Right, 'peer': Right}


def kin():
    """Relatives of one base with equal keys are different objects."""
    def run(combo, via):
        data, want = {}, {('Holder', 1): {'w': None}}
        at = []
        for f, k in zip(KIN, combo):
            if k is None or f == 'peer' and 'left' not in data:
                continue
            t = KIN[f].__name__
            # occurrences of one object each give it another field
            v = {'id': k, 'w' if f in ('lefts', 'rights') else
                 'x' if f not in ('base', 'peer') else
                 'w' if f == 'base' else 'x': f}
            if f == 'peer':
                v = {'id': k, 'v': {'peer': 1}}
                data['left']['peer'] = v
            else:
                data[f] = [v] if f == 'lefts' else \
                    {'a': v} if f == 'rights' else v
            at.append((f, (t, k)))
            want.setdefault((t, k), {}).update(v)
        top = Holder(id=1, **data) if via == 'init' else \
            Holder(id=1).set(**data)
        objs = [(top, ('Holder', 1))]
        for f, ident in at:
            o = top.left.peer if f == 'peer' else getattr(top, f)
            o = o[0] if f == 'lefts' else o['a'] if f == 'rights' else o
            objs.append((o, ident))
        for o, i in objs:
            eq((type(o).__name__, o.id), i, 'class and key')
            for x, j in objs:
                eq(o is x, i == j, f'{i} and {j} are one object')
            for k in ('w', 'x', 'y', 'v'):
                if hasattr(type(o), k) or k in [
                        f.name for f in type(o).cdef.fields]:
                    eq(getattr(o, k), want[i].get(
                        k, {} if k == 'v' else None), f'{i}.{k}')

    def cases():
        for combo in product([None, 1, 2], repeat=len(KIN)):
            for via in ('init', 'set'):
                yield [combo, via], lambda a=(combo, via): run(*a)
    return cases


@jsonclass(class_graph=G)
class Actor:
    id: int = types.int.primary
    name: Any = types.str
    age: Any = types.int
    movies: Any = types.listof('Movie').linkedthru('actors')
    boss: Any = types.objof('Actor').linkto
    staff: Any = types.listof('Actor').linkedby('boss')


@jsonclass(class_graph=G)
class Movie:
    id: int = types.int.primary
    title: Any = types.str
    actors: Any = types.listof('Actor').linkedthru('movies')


@jsonclass(class_graph=G + '-twins')
class Twin:
    id: int = types.int.primary
    v: Any = types.dictof(types.int).nonnull
    w: Any = types.str
    peer: Any = types.objof('Twin').linkto


Far = Twin


@jsonclass(class_graph=G)
class Twin:                                             # noqa: F811
    id: int = types.int.primary
    v: Any = types.dictof(types.int).nonnull
    w: Any = types.str
    own: Any = types.objof('Twin').linkto
    far: Any = types.objof(Far).linkto
    emb: Any = types.objof(Far)
    many: Any = types.listof(types.objof(Far)).linkto


def twins():
    """Classes of the same name in different class graphs."""
    def given(combo, via):
        a, b, c, d, e, f = combo
        data = {'own': {'id': a, 'w': 'own', 'far': {'id': b, 'w': 'own.far'}},
                'far': {'id': c, 'w': 'far', 'peer': {'id': d, 'w': 'peer'}},
                'emb': {'id': e, 'w': 'emb'},
                'many': [{'id': f, 'w': 'many'}]}
        if a == 0 and b != c:
            return              # the root is given two different objects
        if via == 'init':
            root = Twin(id=0, w='root', **data)
        else:
            root = Twin(id=0, w='root').set(id=0, **data)
        got = [(root, Twin, 0), (root.own, Twin, a), (root.own.far, Far, b),
               (root.far, Far, c), (root.far.peer, Far, d),
               (root.emb, Far, e), (root.many[0], Far, f)]
        for o, cls, key in got:
            eq([type(o) is cls, o.id], [True, key], 'class and key')
            for x, cls2, key2 in got:
                eq(o is x, cls is cls2 and key == key2,
                   'same class and key is one object')

    def cases():
        for combo in product([0, 1, 2], repeat=6):
            for via in ('init', 'set'):
                yield [list(combo), via], lambda c=combo, v=via: given(c, v)
    return cases


@jsonclass(class_graph='verif-c06-alt', strict_input=True)
class Alpha:
    id: int = types.int.primary
    x: Any = types.int
    d: Any = types.int.default(3)
    nums: Any = types.listof(int).default(lambda: [1])


@jsonclass(class_graph='verif-c06-alt', strict_input=True)
class Beta:
    id: int = types.int.primary
    y: Any = types.int
    d: Any = types.int.default(4)
    a: Any = types.objof('Alpha')


@jsonclass(class_graph='verif-c06-alt')
class AltRoot:
    id: int = types.int.primary
    a0: Any = types.objof('Alpha')
    u: Any = types.union([types.objof('Alpha'), types.objof('Beta')])
    us: Any = types.listof(types.union(
        [types.objof('Beta'), types.objof('Alpha')]))
    b: Any = types.objof('Beta')
    a1: Any = types.objof('Alpha')


def alternatives():
    """Fields which take objects of several classes: what was tried and given
    up leaves no object behind."""
    def value(cls, key):
        if cls == 'A':
            return {'id': key, 'x': key * 10}
        out = {'id': key, 'y': key * 10}
        if cls == 'BA':
            out['a'] = {'id': key, 'x': key * 10}
        return out

    def run(combo, via):
        places = ['a0', 'u', 'us0', 'us1', 'b', 'a1']
        data: dict = {'us': []}
        for place, what in zip(places, combo):
            if what and place[:2] == 'us':
                data['us'].append(value(*what))
            elif what:
                data[place] = value(*what)
        if via == 'init':
            root = AltRoot(id=9, **data)
        else:
            root = AltRoot(id=9).set(**data)
        seen: dict = {}
        us = list(root.us)
        for place, what in zip(places, combo):
            if not what:
                continue
            cls, key = what
            o = us.pop(0) if place[:2] == 'us' else getattr(root, place)
            got = [(o, Alpha if cls == 'A' else Beta)]
            if cls == 'BA':
                got.append((o.a, Alpha))
            for x, k in got:
                expect(type(x) is k, f'{place}: {x!r} is not a {k.__name__}')
                eq([x.id, x.x if k is Alpha else x.y, x.d],
                   [key, key * 10, 3 if k is Alpha else 4],
                   f'{place}: values')
                if k is Alpha:
                    eq(list(x.nums), [1], f'{place}: default list')
                expect(seen.setdefault((k, key), x) is x,
                       f'{place}: same class and key is one object')
        eq(us, [], 'items')

    def cases():
        alpha = [None, ('A', 1), ('A', 2)]
        beta = [None, ('B', 1), ('BA', 1), ('BA', 2)]
        both = alpha + beta[1:]
        for combo in product(alpha, both, both, alpha, beta, alpha):
            for via in ('init', 'set'):
                yield [list(combo), via], lambda c=combo, v=via: run(c, v)
    return cases


def movies(thorough):
    """Many to many input: the same actors below several movies."""
    def run(casts, via, ages):
        data = {'movies': [], 'name': 'r'}
        named, aged = {0: 'r'}, {}
        for m, cast in enumerate(casts):
            lst = []
            for i, a in enumerate(cast):
                d = {'id': a}
                if m == ages:
                    d['age'] = a + 40
                    aged[a] = a + 40
                elif a != 0:
                    d['name'] = f'n{a}'
                    named[a] = f'n{a}'
                lst.append(d)
            md = {'id': m + 1, 'title': f't{m}'}
            if cast:
                md['actors'] = lst
            data['movies'].append(md)
        root = Actor(id=0, **data) if via == 'init' else \
            Actor(id=0).set(**data)
        actors, found = {0: root}, {}
        for m in root.movies:
            found[m.id] = m
            for a in m.actors:
                expect(actors.setdefault(a.id, a) is a,
                       f'actor {a.id} is one object')
        eq(sorted(found), list(range(1, len(casts) + 1)), 'movies')
        for m, cast in enumerate(casts):
            mo = found[m + 1]
            eq(sorted(a.id for a in mo.actors), sorted({*cast, 0}),
               f'cast of movie {m + 1}')
            eq(mo.title, f't{m}', 'title')
        for a, o in actors.items():
            expect(sorted(m.id for m in o.movies) ==
                   sorted(m + 1 for m, c in enumerate(casts)
                          if a in c or a == 0), f'movies of actor {a}')
            eq([o.name, o.age], [named.get(a), aged.get(a)], f'actor {a}')
        one = root._graph
        for o in [*actors.values(), *found.values()]:
            eq(ids(o._graph), ids(one), 'graph members')
        eq(ids(one), {id(o) for o in [*actors.values(), *found.values()]},
           'the graph')

    def cases():
        casts = [(), (0,), (1,), (2,), (0, 1), (1, 0), (1, 2), (2, 1),
                 (0, 1, 2), (2, 1, 0)]
        for n in range(3 + thorough):
            for cs in product(casts, repeat=n):
                for via in ('init', 'set'):
                    for ages in (None, 0, 1):
                        yield [cs, via, ages], \
                            lambda a=(cs, via, ages): run(*a)
    return cases


def staffs():
    """One to many input naming the holder again from below."""
    def run(staff, backs, via):
        data = {'name': 'r', 'staff': []}
        for i, (s, b) in enumerate(zip(staff, backs)):
            d = {'id': s, 'name': f'n{s}'}
            if b:
                d['boss'] = {'id': 0, 'age': 70}
            data['staff'].append(d)
        root = Actor(id=0, **data) if via == 'init' else \
            Actor(id=0).set(**data)
        eq([s.id for s in root.staff], list(staff), 'staff')
        for s in root.staff:
            expect(s.boss is root and s.boss_id == 0, 'boss')
            eq([s.name, s.age], [f'n{s.id}', None], 'staff values')
        eq([root.id, root.name, root.age],
           [0, 'r', 70 if any(backs) else None], 'root')

    def cases():
        for n in range(4):
            for staff in product((1, 2, 3), repeat=n):
                if len(set(staff)) < n:
                    continue
                for backs in product((False, True), repeat=n):
                    for via in ('init', 'set'):
                        yield [staff, backs, via], \
                            lambda a=(staff, backs, via): run(*a)
    return cases


def ids(graph):
    members = list(graph)
    got = {id(o) for o in members}
    expect(len(got) == len(members), 'an object is listed twice')
    for o in members:
        expect(graph.has(o) and graph.get(o) is o, 'members find themselves')
    return got


class GraphSystem(RelSystem):
    """After any link history every member of a component sees exactly the
    objects that were ever linked into it."""

    def build(self):
        w = super().build()
        w.comp = {n: {n} for n in w.objs}
        self.grow(w)
        return w

    def grow(self, w):
        for (x, f), ys in w.M.items():
            if self.fdesc(w, x, f)[3] is None:
                continue
            for y in ys:
                if w.comp[x] is not w.comp[y]:
                    w.comp[x] |= w.comp[y]
                    for n in w.comp[y] | w.comp[x]:
                        w.comp[n] = w.comp[x]

    def advance(self, w, op):
        super().advance(w, op)
        self.grow(w)

    def judge(self, w, op):
        self.symmetric(w)
        self.grow(w)
        names = {id(o): n for n, o in w.objs.items()}
        for n, o in w.objs.items():
            got = {names[i] for i in ids(o._graph)}
            expect(got == w.comp[n],
                   f'{n} sees {sorted(got)}, expected {sorted(w.comp[n])}')

    def key(self, w):
        return super().key(w), sorted((n, tuple(sorted(c)))
                                      for n, c in w.comp.items())


def conflicts(depth):
    """Different objects with the same key never get into one graph."""
    pairs = list(product(('O1', 'O1b', 'O2'), ('I1', 'I2', 'I2b', 'I1s')))

    def world():
        return {'O1': Owner(id=1), 'O1b': Owner(id=1), 'O2': Owner(id=2),
                'I1': Item(id=1), 'I2': Item(id=2), 'I2b': Item(id=2),
                'I1s': Item(id='1')}

    def run(hist, saved):
        objs = world()
        if saved:
            for o in objs.values():
                o._mark_unmodified()
        comp = {n: {n} for n in objs}
        for k, (o, i, side) in enumerate(hist):
            join = comp[o] | comp[i]
            clash = len({(n[0], n[1]) for n in join}) < len(join)
            try:
                if side == 'item':
                    objs[i].owner = objs[o]
                elif side == 'append':
                    if objs[o].items is None:
                        objs[o].items = []
                    if not any(x is objs[i] for x in objs[o].items):
                        objs[o].items.append(objs[i])
                else:
                    objs[o].items = [objs[i]]
            except JSONClassGraphMergeConflictException:
                expect(clash, f'linking {o} and {i} was refused')
                return
            expect(not clash, f'linking {o} and {i} must be refused')
            for n in join:
                comp[n] = join
        names = {id(o): n for n, o in objs.items()}
        for n, o in objs.items():
            eq({names[i] for i in ids(o._graph)}, comp[n], f'graph of {n}')

    def cases():
        steps = [(o, i, s) for o, i in pairs
                 for s in ('item', 'append', 'assign')]
        for n in range(1, depth + 1):
            for hist in product(steps, repeat=n):
                for saved in (True,) if n == depth else (True, False):
                    yield [hist, saved], lambda a=(hist, saved): run(*a)
    return cases


def rekeyed():
    """A changed key moves the object inside its graph."""
    def run(old, new, link, when):
        o, i = Owner(id=old), Item(id=5)
        if when == 'before':
            o.id = new
        if link == 'item':
            i.owner = o
        elif link == 'assign':
            o.items = [i]
        if when == 'after':
            o.id = new
        both = {id(o), id(i)} if link else {id(o)}
        eq(ids(o._graph), both, 'graph of the owner')
        eq(ids(i._graph), both if link else {id(i)}, 'graph of the item')
        # the old key is free, the new one is taken
        for k, clash in ((old, old == new), (new, True)):
            other, j = Owner(id=k), Item(id=5 if not link else 6)
            try:
                j.owner = other
                other.items.append(i)
            except JSONClassGraphMergeConflictException:
                expect(clash or not link, f'key {k} is free')
                return
            expect(not (clash and link), f'key {k} is taken')

    def cases():
        for old, new in product((1, 2, 3), repeat=2):
            for link in (None, 'item', 'assign'):
                for when in ('before', 'after'):
                    yield [old, new, link, when], \
                        lambda a=(old, new, link, when): run(*a)
    return cases


LIKE = ['a', 'A', 'ab', 'aB', 'a ', ' a', 'a-b', 'a_b', 'a.b', '', '0', '00',
        '1', '1.0', '01', '-1', '\u00e9', 'e\u0301', '\uff41', 'null', 'None']


@jsonclass(class_graph=G + '-like')
class LikeBox:
    id: Any = types.str.primary
    items: Any = types.listof('LikeItem').linkedby('box').nonnull


@jsonclass(class_graph=G + '-like')
class LikeItem:
    id: Any = types.str.primary
    box: Any = types.objof('LikeBox').linkto
    x: Any = types.int
    y: Any = types.int


def alike():
    """Keys which look alike are different keys."""
    def run(a, b, via):
        if via == 'input':
            box = LikeBox(id='b', items=[{'id': a, 'x': 1}, {'id': b, 'y': 2}])
            p, q = box.items[0], box.items[-1]
            eq(p is q, a == b, 'one object')
            eq([(i.id, i.x, i.y) for i in box.items],
               [(a, 1, 2)] * 2 if a == b else [(a, 1, None), (b, None, 2)],
               'items')
            return
        box, p, q = LikeBox(id='b'), LikeItem(id=a, x=1), LikeItem(id=b, y=2)
        try:
            if via == 'list':
                box.items = [p, q]
            elif via == 'append':
                box.items.append(p)
                box.items.append(q)
            else:
                p.box = box
                q.box = box
            done = True
        except JSONClassGraphMergeConflictException:
            done = False
        eq(done, a != b, f'linking objects {a!r} and {b!r}')
        if done:
            for o in (box, p, q):
                eq(sorted((type(m).__name__, m._id) for m in o._graph),
                   sorted([('LikeBox', 'b'), ('LikeItem', a), ('LikeItem', b)]),
                   'members')
                for m in (box, p, q):
                    expect(o._graph.get(m) is m, f'{m._id!r} in the graph')

    def cases():
        for a, b in product(LIKE, repeat=2):
            for via in ('input', 'list', 'append', 'far'):
                yield [a, b, via], lambda v=(a, b, via): run(*v)
    return cases


def scenarios(tier):
    t = tier == 'thorough'
    keys = [None, 0, 1, 2, 'new']
    out = []
    for via in ('init', 'init-first', 'set', 'set-saved'):
        out += enums(8 if t else 3, f'flat-{via}', nodes(
            ['left', 'right', 'kid0', 'kid1', 'emb'], keys, via))
        out += enums(8 if t else 3, f'deep-{via}', nodes(
            ['left', 'right', 'kid0', 'left.left', 'kid0.right']
            + (['right.emb'] if t else []), keys, via))
        out += enums(8 if t else 2, f'embedded-{via}', nodes(
            ['emb', 'dict', 'emb.left', 'right', 'right.emb']
            + (['kid1'] if t else []),
            [None, 0, 1, 'new'], via))
    for spell in ('camel', 'snake'):
        out += enums(1, f'classes-{spell}', classes(spell))
    out += enums(3, 'kin', kin())
    out += enums(2, 'twins', twins())
    out += enums(2, 'alternatives', alternatives())
    out += enums(4 if t else 2, 'many-to-many', movies(t))
    out += enums(1, 'one-to-many', staffs())
    out += enums(12 if t else 4, 'conflicts', conflicts(3 if t else 2))
    out += enums(1, 'rekeyed', rekeyed())
    out += enums(2, 'alike', alike())
    for kind in KINDS:
        if kind == 'one-sided':
            continue
        for pre in (None, 'pairs'):
            sc = Bfs(f'graph/{kind}/{pre}', GraphSystem(
                kind, False, True, t, pre=pre),
                2 if kind == 'multi' or pre else 3)
            sc.weight = 8
            out.append(sc)
    return out
