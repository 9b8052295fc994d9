"""C22: cyclic object graphs are handled completely and terminate."""
from __future__ import annotations
from itertools import product
from typing import Any
from jsonclasses import jsonclass, types
from jsonclasses.excs import ValidationException
from mc.core import enums, eq, expect

G = 'verif-c22'
SEEN, SAVED = [], []


def look(val, ctx):
    SEEN.append(val)
    return 'refused' if val == 'bad' else None


def saving(val):
    SAVED.append(val)
    return val


def tag():
    return types.str.validate(look).setonsave(saving)


@jsonclass(class_graph=G)
class N:
    id: int = types.int.primary
    tag: str = tag()
    nxt: Any = types.objof('N').linkto
    prevs: Any = types.listof('N').linkedby('nxt')


@jsonclass(class_graph=G)
class M:
    id: int = types.int.primary
    tag: str = tag()
    ys: Any = types.listof('M').linkto.nonnull
    xs: Any = types.listof('M').linkedby('ys').nonnull


@jsonclass(class_graph=G)
class T:
    id: int = types.int.primary
    tag: str = tag()
    us: Any = types.listof('T').linkedthru('ws').nonnull
    ws: Any = types.listof('T').linkedthru('us').nonnull


@jsonclass(class_graph=G)
class A:
    id: int = types.int.primary
    tag: str = tag()
    bs: Any = types.listof('B').linkedby('a')
    cs: Any = types.listof('C').linkedby('a').nonnull


@jsonclass(class_graph=G)
class B:
    id: int = types.int.primary
    tag: str = tag()
    a: Any = types.objof('A').linkto
    c: Any = types.objof('C').linkto


@jsonclass(class_graph=G)
class C:
    id: int = types.int.primary
    tag: str = tag()
    a: Any = types.objof('A').linkto
    b: Any = types.objof('B').linkedby('c')


@jsonclass(class_graph=G)
class H:
    """References held by embedded objects and in embedded containers."""
    id: int = types.int.primary
    tag: str = tag()
    e: Any = types.objof('E')
    es: Any = types.listof('E')
    ed: Any = types.dictof(types.objof('E'))


@jsonclass(class_graph=G)
class E:
    id: int = types.int.primary
    tag: str = tag()
    h: Any = types.objof('H').linkto


# (class, field) -> (local key name or None, many, foreign field name)
FIELDS = {
    'N': {'nxt': ('nxtId', False, 'prevs'), 'prevs': (None, True, 'nxt')},
    'M': {'ys': ('yIds', True, 'xs'), 'xs': (None, True, 'ys')},
    'T': {'us': (None, True, 'ws'), 'ws': (None, True, 'us')},
    'A': {'bs': (None, True, 'a'), 'cs': (None, True, 'a')},
    'B': {'a': ('aId', False, 'bs'), 'c': ('cId', False, 'b')},
    'C': {'a': ('aId', False, 'cs'), 'b': (None, False, 'c')},
    'E': {'h': ('hId', False, None)},
    'H': {'e': (0, False, None), 'es': (0, True, None), 'ed': (0, True, None)},
}
TO = {'A.bs': 'B', 'A.cs': 'C', 'B.a': 'A', 'B.c': 'C', 'C.a': 'A',
      'C.b': 'B'}
CLS = {'N': N, 'M': M, 'T': T, 'A': A, 'B': B, 'C': C, 'H': H, 'E': E}


class World:
    """nodes: {id: class name}; links: [(id, field, [ids])] in link order."""

    def __init__(self, nodes, links, bad=None, keys='own'):
        self.cls = nodes
        self.pk = {i: i if keys == 'own' else None if keys == 'none' else
                   7 for i in nodes}
        self.rel = {(i, f): [] for i in nodes for f in FIELDS[nodes[i]]}
        self.obj = {i: CLS[c](id=self.pk[i], tag='bad' if i == bad else f't{i}')
                    for i, c in nodes.items()}
        for i, f, js in links:
            key, many, back = FIELDS[nodes[i]][f]
            value = [self.obj[j] for j in js]
            if f == 'ed':
                setattr(self.obj[i], f,
                        {f'k{j}': self.obj[j] for j in js})
            elif many:
                getattr(self.obj[i], f) is None and \
                    setattr(self.obj[i], f, [])
                for v in value:
                    getattr(self.obj[i], f).append(v)
            elif value:
                setattr(self.obj[i], f, value[0])
            self.rel[i, f] += js
            if back:
                for j in js:
                    self.rel[j, back].append(i)

    def reach(self, start):
        todo, got = [start], set()
        while todo:
            i = todo.pop()
            if i in got:
                continue
            got.add(i)
            for (k, f), js in self.rel.items():
                if k == i:
                    todo += js
        return got

    def out(self, i, rr, chain=(), via=None):
        c = self.cls[i]
        r = {} if self.pk[i] is None else {'id': self.pk[i]}
        r['tag'] = self.obj[i].tag
        stop = c in chain
        for f, (key, many, back) in FIELDS[c].items():
            js = self.rel[i, f]
            if key and (js or many):
                ks = [self.pk[j] for j in js]
                r[key] = ks if many else ks[0]
                if r[key] is None:
                    del r[key]
            if key != 0 and (stop or (not rr and back and
                                       via == (TO.get(f'{c}.{f}', c), back))):
                continue
            kids = [self.out(j, rr, chain + (c,), (c, f)) for j in js]
            if f == 'ed':
                if js:
                    r[f] = {f'k{j}': k for j, k in zip(js, kids)}
            elif many:
                if js or getattr(self.obj[i], f) is not None:
                    r[f] = kids
            elif js:
                r[f] = kids[0]
        return r


def once(log, w, ids, what):
    want = sorted(w.obj[i].tag for i in ids)
    eq(sorted(log), want, what)


def check(nodes, links, start, keys='own'):
    w = World(nodes, links, keys=keys)
    ids = w.reach(start)
    o = w.obj[start]
    SEEN.clear(), SAVED.clear()
    o.validate()
    once(SEEN, w, ids, 'validated')
    SEEN.clear()
    o.validate(all_fields=True)
    once(SEEN, w, ids, 'validated with all fields')
    expect(o.is_valid, 'is_valid')
    for rr in (False, True):
        got = o.tojson(reverse_relationship=rr)
        eq(got, w.out(start, rr), f'output (reverse_relationship={rr})')
    eq(o.tojson(), w.out(start, False), 'output')
    SEEN.clear()
    o._set_on_save()
    once(SAVED, w, ids, 'processed for save')
    expect(not SEEN, 'saving validates')
    o.save()
    return len(ids)


def check_bad(nodes, links, start, bad, keys='own'):
    """One invalid object: reported iff it's reachable, under one key."""
    w = World(nodes, links, bad, keys)
    reached = bad in w.reach(start)
    SEEN.clear(), SAVED.clear()
    for kw in ({}, {'all_fields': True}):
        try:
            w.obj[start].validate(**kw)
            msgs = None
        except ValidationException as e:
            msgs = e.keypath_messages
        if not reached:
            expect(msgs is None, lambda: f'unreachable object: {msgs}')
        else:
            expect(msgs is not None, 'an invalid object is not reported')
            eq(list(msgs.values()), ['refused'], 'messages')
            key = list(msgs)[0]
            x = w.obj[start]
            for part in key.split('.')[:-1]:
                x = x[int(part)] if isinstance(x, list) else \
                    x[part] if isinstance(x, dict) else getattr(x, part)
            expect(x is w.obj[bad], f'{key} leads to another object')
    SAVED.clear()
    try:
        w.obj[start].save()
        saved = True
    except ValidationException:
        saved = False
    eq(saved, not reached, 'saved')
    if not saved:
        expect(not SAVED, 'save steps ran although validation failed')


def check_changed(nodes, links, start, changed):
    """Persisted objects: only the changed ones get save steps."""
    w = World(nodes, links)
    for o in w.obj.values():
        o._mark_unmodified()
    for i in changed:
        w.obj[i].tag = f'changed{i}'
    ids = w.reach(start)
    SEEN.clear(), SAVED.clear()
    w.obj[start].validate()
    once(SEEN, w, ids & set(changed), 'validated')
    w.obj[start]._set_on_save()
    once(SAVED, w, ids & set(changed), 'processed for save')


def shapes(thorough):
    for n in (1, 2, 3) + ((4,) if thorough else ()):
        for f in product([None, *range(1, n + 1)], repeat=n):
            yield ({i: 'N' for i in range(1, n + 1)},
                   [(i + 1, 'nxt', [j]) for i, j in enumerate(f) if j])
    for cls, fld in (('M', 'ys'), ('T', 'us')):
        for n in (2, 3):
            pairs = list(product(range(1, n + 1), repeat=2))
            for bits in product([0, 1], repeat=len(pairs)):
                if n == 3 and not thorough and sum(bits) not in (2, 3, 4):
                    continue
                yield ({i: cls for i in range(1, n + 1)},
                       [(a, fld, [b]) for (a, b), s in zip(pairs, bits) if s])
    nodes = {1: 'A', 2: 'A', 3: 'B', 4: 'B', 5: 'C', 6: 'C'}
    for ba, bc, ca in product(product([0, 1, 2], repeat=2),
                              [(0, 0), (5, 0), (0, 5), (5, 6), (6, 5)],
                              product([0, 1, 2], repeat=2)):
        yield nodes, [(i, f, [j]) for i, f, j in [
            (3, 'a', ba[0]), (4, 'a', ba[1]), (3, 'c', bc[0]),
            (4, 'c', bc[1]), (5, 'a', ca[0]), (6, 'a', ca[1])] if j]
    nodes = {1: 'H', 2: 'H', 3: 'E', 4: 'E', 5: 'E'}
    for how in ('e', 'es', 'ed'):
        for h in product([0, 1, 2], repeat=3):
            own = {'e': [(1, 'e', [3]), (2, 'e', [4])],
                   'es': [(1, 'es', [3, 4]), (2, 'es', [5])],
                   'ed': [(1, 'ed', [3]), (2, 'ed', [4, 5])]}[how]
            yield nodes, own + [(i, 'h', [j]) for i, j in zip((3, 4, 5), h)
                                if j]


def skip(nodes, links):
    # a reference from an object to itself through both sides of T is one link
    return any(nodes[i] == 'T' and js == [i] for i, f, js in links) or \
        ('T' in nodes.values() and any(
            (b[0], 'us', [a]) in links and a != b[0] for a, f, b in links))


def keysets(nodes):
    """Own keys, no keys yet and, where equal keys may meet, equal keys."""
    if 'M' in nodes.values():           # a list of keys demands keys
        return ('own',)
    return ('own', 'none', 'same') if 'H' in nodes.values() else \
        ('own', 'none')


def main(thorough):
    def cases():
        for nodes, links in shapes(thorough):
            if skip(nodes, links):
                continue
            for start, keys in product(nodes, keysets(nodes)):
                yield ([nodes, links, start, keys],
                       lambda a=(nodes, links, start, keys): check(*a))
    return cases


def bad(thorough):
    def cases():
        for nodes, links in shapes(thorough):
            if skip(nodes, links):
                continue
            ids = list(nodes)
            for start in ids if thorough else ids[:1]:
                for b, keys in product(ids, keysets(nodes)):
                    yield ([nodes, links, start, b, keys],
                           lambda a=(nodes, links, start, b, keys):
                           check_bad(*a))
    return cases


def changed(thorough):
    def cases():
        for nodes, links in shapes(False):
            if skip(nodes, links) or 'H' in nodes.values():
                continue                # embedded changes aren't propagated
            ids = list(nodes)
            for start in ids if thorough else ids[-1:]:
                for b in [[i] for i in ids] + [[], ids]:
                    yield ([nodes, links, start, b],
                           lambda a=(nodes, links, start, b):
                           check_changed(*a))
    return cases


COUNT = [0]


def chain(kinds, names, twin):
    """Classes K0 to K3, each one linked to the next one. names has the name
    of each link and of its reverse. With twin, K0 and K2 have the same name
    and live in different class graphs, and the links have no reverse."""
    COUNT[0] += 1
    graph = f'{G}-chain-{COUNT[0]}'
    fields = [{} for _ in range(4)]     # name -> (to, local, many, back)
    for i, kind in enumerate(kinds):
        f, b = names[i]
        local, many = kind in ('one', 'lists'), kind in ('many', 'lists')
        if f in fields[i] or b in fields[i + 1]:
            return None
        fields[i][f] = (i + 1, local, many, None if twin else b)
        if not twin:
            fields[i + 1][b] = (i, not local, kind in ('one', 'lists'), f)
    cls = [None] * 4
    for i in (3, 2, 1, 0):
        body = {'__annotations__': {'id': Any}, 'id': types.int.primary}
        for name, (to, local, many, back) in fields[i].items():
            if twin:
                t = types.listof(types.objof(cls[to])) if many else \
                    types.objof(cls[to])
                t = t.linkto
            else:
                t = types.listof(f'K{to}') if many else types.objof(f'K{to}')
                t = t.linkto if local else t.linkedby(back)
            body['__annotations__'][name] = Any
            body[name] = t
        name = 'K0' if twin and i == 2 else f'K{i}'
        g = graph + ('-far' if twin and i >= 2 else '')
        cls[i] = jsonclass(class_graph=g)(type(name, (), body))
    return cls, fields


def chain_case(kinds, names, twin, start, rr):
    made = chain(kinds, names, twin)
    if made is None:
        return
    cls, fields = made
    objs = [c(id=i) for i, c in enumerate(cls)]
    for i in range(3):
        f = names[i][0]
        many = fields[i][f][2]
        setattr(objs[i], f, [objs[i + 1]] if many else objs[i + 1])

    def out(i, seen, via, item):
        r = {'id': i}
        for f, (to, local, many, back) in fields[i].items():
            if local or twin:
                if many:
                    r[f[:-1] + 'Ids' if f[-1] == 's' else f + 'Ids'] = [to]
                else:
                    r[f + 'Id'] = to
            # the way back isn't followed; for an item of a list, it's told
            # by the name of the list
            if not rr and back and (via == (to, back) or item == back):
                continue
            if i in seen:
                continue
            kid = out(to, seen | {i}, (i, f), f if many else None)
            r[f] = [kid] if many else kid
        return r
    eq(objs[start].tojson(reverse_relationship=rr),
       out(start, frozenset(), None, None), 'output')
    SEEN.clear()
    objs[start].validate()
    objs[start].save()


def chains(thorough):
    def cases():
        pairs = [('p', 'r'), ('q', 'p'), ('p', 'q'), ('q', 'r')]
        kinds = ['one', 'many'] + (['back', 'lists'] if thorough else [])
        for ks in product(kinds, repeat=3):
            for ns in product(pairs, repeat=3):
                for start, rr in product((0, 3), (False, True)):
                    yield ([ks, ns, start, rr], lambda a=(ks, ns, False,
                                                          start, rr):
                           chain_case(*a))
            for ns in product((('p', ''), ('q', '')), repeat=3):
                for start, rr in product(range(4), (False, True)):
                    yield ([ks, ns, 'twin', start, rr],
                           lambda a=(ks, ns, True, start, rr): chain_case(*a))
    return cases


def scenarios(tier):
    t = tier == 'thorough'
    return [*enums(8, 'main', main(t)), *enums(8, 'bad', bad(t)),
            *enums(4, 'changed', changed(t)),
            *enums(8 if t else 4, 'chains', chains(t))]
