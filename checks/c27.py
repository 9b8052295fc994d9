"""C27: key path writes change exactly the addressed value."""
from __future__ import annotations
from copy import deepcopy
from itertools import product
from typing import Any
from jsonclasses import jsonclass, types
from mc.core import enums, eq, expect

G = 'verif-c27'


@jsonclass(class_graph=G)
class Leaf:
    n: Any = types.int
    s: Any = types.str
    nums: Any = types.listof(int)
    m: Any = types.dictof(types.listof(int))
    leaf: Any = types.objof('Leaf')


@jsonclass(class_graph=G)
class Root:
    id: int = types.int.primary
    name: Any = types.str
    nums: Any = types.listof(int)
    grid: Any = types.listof(types.listof(int))
    m: Any = types.dictof(int)
    mm: Any = types.dictof(types.dictof(int))
    lm: Any = types.listof(types.dictof(types.listof(int)))
    ml: Any = types.dictof(types.listof(types.dictof(int)))
    leaf: Any = types.objof('Leaf')
    leaves: Any = types.listof('Leaf')
    by: Any = types.dictof('Leaf')
    deep: Any = types.listof(types.dictof('Leaf'))
    nothing: Any = types.listof(int)
    none: Any = types.dictof(int)
    gone: Any = types.objof('Leaf')
    friend: Any = types.objof('Friend').linkto
    friends: Any = types.listof('Friend').linkto


@jsonclass(class_graph=G)
class Friend:
    id: int = types.int.primary
    n: Any = types.int
    nums: Any = types.listof(int)
    leaf: Any = types.objof('Leaf')


def leaf(n, inner=True):
    d = {'n': n, 's': 'x', 'nums': [n, n + 1], 'm': {'k': [n], 'z': []}}
    if inner:
        d['leaf'] = leaf(n + 10, False)
    return d


DATA = {
    'name': 'r', 'nums': [1, 2, 3], 'grid': [[1, 2], [3], []],
    'm': {'a': 1, 'b': 2, '0': 3}, 'mm': {'a': {'a': 1, 'b': 2}, 'b': {}},
    'lm': [{'a': [1, 2], 'b': [3]}, {'a': [4]}],
    'ml': {'a': [{'x': 1}, {'x': 2, 'y': 3}], 'b': []},
    'leaf': leaf(1), 'leaves': [leaf(3), leaf(5)],
    'by': {'p': leaf(7), 'q': leaf(9)}, 'deep': [{'k': leaf(2)}],
}


def root(new):
    r = Root(id=1, **deepcopy(DATA))
    r.friend = Friend(id=2, n=5, nums=[1, 2], leaf=leaf(4))
    r.friends = [Friend(id=3, n=6, nums=[3]), Friend(id=4, nums=[4, 5])]
    if not new:
        for o, _ in objects(r):
            o._mark_unmodified()
    return r


def snap(v):
    """Plain data of everything reachable, without using the library."""
    if isinstance(v, (Root, Leaf, Friend)):
        return {f.name: snap(getattr(v, f.name))
                for f in v.__class__.cdef.fields
                if getattr(v, f.name) is not None}
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    if isinstance(v, list):
        return [snap(x) for x in v]
    return v


def objects(v, path=()):
    if isinstance(v, (Root, Leaf, Friend)):
        yield v, path
        for f in v.__class__.cdef.fields:
            yield from objects(getattr(v, f.name), path + (f.name,))
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from objects(x, path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from objects(x, path + (i,))


def kind_of(path):
    """What the declaration says at a path: obj, list, dict or scalar."""
    t = {'nums': ('list', 'scalar'), 'grid': ('list', 'list', 'scalar'),
         'm': ('dict', 'scalar'), 'mm': ('dict', 'dict', 'scalar'),
         'lm': ('list', 'dict', 'list', 'scalar'),
         'ml': ('dict', 'list', 'dict', 'scalar'), 'leaf': ('obj',),
         'leaves': ('list', 'obj'), 'by': ('dict', 'obj'),
         'deep': ('list', 'dict', 'obj'), 'nothing': ('list', 'scalar'),
         'none': ('dict', 'scalar'), 'gone': ('obj',), 'friend': ('obj',),
         'friends': ('list', 'obj')}
    leaf_t = {'nums': t['nums'], 'm': ('dict', 'list', 'scalar'),
              'leaf': ('obj',)}
    cur, table = ('obj',), t
    for p in path:
        if cur[0] == 'obj':
            cur = table.get(p, ('scalar',))
            table = leaf_t
        else:
            cur = cur[1:]
    return cur


def paths(v, maxlen, path=()):
    """Every existing position below ``v`` plus new dict keys, positions off
    the end of a list and positions below missing values."""
    t = kind_of(path)
    if t[0] == 'scalar' or len(path) == maxlen:
        return
    if t[0] == 'obj':
        if v is None:
            if path:
                yield path + ('n',), 'refuse'
                yield path + ('nums', 0), 'refuse'
            return
        names = [f.name for f in v.__class__.cdef.fields]
        for n in names:
            x = getattr(v, n)
            if kind_of(path + (n,))[0] == 'scalar':
                yield path + (n,), 'write'
            else:
                if path:
                    yield path + (n,), 'write'
                yield from paths(x, maxlen, path + (n,))
    elif v is None:
        yield path + (0,), 'refuse'
        yield path + ('k', 'l'), 'refuse'
    elif t[0] == 'list':
        for i in range(len(v)):
            yield path + (i,), 'write'
            yield from paths(v[i], maxlen, path + (i,))
        yield path + (len(v),), 'refuse'
        if t[1] != 'scalar':
            yield path + (len(v), 0), 'refuse'
    else:
        for k in v:
            yield path + (k,), 'write'
            yield from paths(v[k], maxlen, path + (k,))
        yield path + ('fresh',), 'write'
        if t[1] != 'scalar':
            yield path + ('fresh', 0), 'refuse'


def spell(path, style):
    """style: one character per separator, '.' or '['."""
    out = str(path[0])
    for p, s in zip(path[1:], style):
        out += f'.{p}' if s == '.' else f'[{p}]'
    return out


def new_value(path):
    t = kind_of(path)
    if path[-1] == 's' or path == ('name',):
        return 'w', 'w'
    if path[-1] == 'id':
        return 77, 77
    if t[0] == 'scalar':
        return 42, 42
    if t[0] == 'list':
        if t[1] == 'obj':
            return [], []
        v = {'scalar': [8, 9], 'list': [[8]], 'dict': [{'w': 8}]}[t[1]]
        if t[1] == 'dict' and t[2] == 'list':
            v = [{'w': [8]}]
        return v, deepcopy(v)
    if t[0] == 'dict':
        if t[1] == 'obj':
            return {}, {}
        v = {'scalar': {'w': 8}, 'dict': {'w': {'v': 8}},
             'list': {'w': [8]}}[t[1]]
        return v, deepcopy(v)
    return None


def value_at(path):
    if path[-1] == 'friend' or path[0] == 'friends':
        o = Friend(id=50, n=1)
        return o, {'id': 50, 'n': 1}
    o = Leaf(n=50, nums=[1, 2])
    return o, {'n': 50, 'nums': [1, 2]}


def put(data, path, value):
    for p in path[:-1]:
        data = data[p]
    data[path[-1]] = value


def owner_of(path):
    """Path of the object that owns the addressed value, and the field."""
    last = 0
    for i in range(len(path)):
        if kind_of(path[:i])[0] == 'obj':
            last = i
    return path[:last], path[last]


def write(path, effect, style, new, via):
    r = root(new)
    before = snap(r)
    state = {p: (o, o.is_modified, set(o.modified_fields))
             for o, p in objects(r)}
    value, plain = (1, 1) if effect == 'refuse' else \
        new_value(path) or value_at(path)
    if via == 'null':
        at = before
        for p in path:
            at = at.get(p) if isinstance(at, dict) else at[p]
        if at is None and kind_of(path[:-1])[0] == 'obj':
            eq(snap(r.set(**{spell(path, style): None})), before, 'no change')
            return
        value = plain = None
        via = 'set'
    key = spell(path, style)
    if effect == 'refuse':
        try:
            r.set(**{key: value})
        except Exception:
            pass
        else:
            raise AssertionError(f'{key} was not refused')
        eq(snap(r), before, 'a refused path changed')
        for p, (o, mod, mf) in state.items():
            eq([o.is_modified, set(o.modified_fields)], [mod, mf],
               f'modification of {p} by a refused path')
        return
    if via == 'set':
        expect(r.set(**{key: value}) is r, 'set returns the object')
    elif via == 'init':
        base = deepcopy(DATA)
        r = Root(id=1, **base, **{key: value})
        before = snap(Root(id=1, **deepcopy(DATA)))
    elif via == 'mixed':
        r.set(**{key: value, 'name': 'other'})
        before['name'] = 'other'
    want = deepcopy(before)
    put(want, path, plain)
    if plain is None and kind_of(path[:-1])[0] == 'obj':
        at = want                   # fields without a value are left out
        for p in path[:-1]:
            at = at[p]
        del at[path[-1]]
    if path == ('friend', 'id') or path[0] == 'friends' and \
            path[-1] == 'id':
        want = None                 # re-keying a linked object: identity only
    if want is not None:
        eq(snap(r), want, 'the object after the write')
    if via != 'set' or new:
        if new:
            expect(not r.is_modified, 'a new object is not modified')
        return
    op, field = owner_of(path)
    for p, (o, mod, mf) in state.items():
        got = set(o.modified_fields)
        if p == op:
            expect(o.is_modified and got and
                   {k.split('.')[0] for k in got} == {field},
                   f'{key} is tracked as {got} on {p}')
        elif path[0] != 'friends' and path != ('friend',):
            expect(not o.is_modified and not got,
                   f'{key} marked {p} as modified: {got}')


def single(maxlen, full):
    def cases():
        for path, effect in paths(root(True), maxlen):
            if len(path) < 2:
                continue
            styles = [*product('.[', repeat=len(path) - 1)]
            for k, style in enumerate(styles):
                for new in (False, True):
                    yield [list(map(str, path)), effect, ''.join(style), new,
                           'set'], \
                        lambda a=(path, effect, style, new, 'set'): write(*a)
                if effect == 'write' and 'friend' not in path[0] and \
                        path[-1] != 'id':
                    yield [list(map(str, path)), ''.join(style), 'null'], \
                        lambda a=(path, effect, style, False, 'null'): \
                        write(*a)
                if effect == 'write' and 'friend' not in path[0] and \
                        (full or k in (0, len(styles) - 1)):
                    for via in ('init', 'mixed'):
                        yield [list(map(str, path)), effect, ''.join(style),
                               False, via], \
                            lambda a=(path, effect, style, False, via): \
                            write(*a)
    return cases


PAIR = [('nums', 0), ('nums', 2), ('grid', 0, 1), ('grid', 1), ('m', 'a'),
        ('m', 'fresh'), ('mm', 'a', 'b'), ('lm', 0, 'a', 1), ('ml', 'a', 0),
        ('leaf', 'n'), ('leaf', 'nums', 1), ('leaf', 'leaf', 'n'),
        ('leaf', 'leaf', 'm', 'k', 0), ('leaves', 0, 'n'),
        ('leaves', 1, 'nums', 0), ('leaves', 1), ('by', 'p', 's'),
        ('by', 'q', 'leaf', 's'), ('deep', 0, 'k', 'n'),
        ('friend', 'nums', 0), ('friends', 1, 'n')]


def pairs(length):
    """Several paths in one call, and the same paths in several calls."""
    def run(ps, one):
        r = root(False)
        want = snap(r)
        kw = {}
        for i, p in enumerate(ps):
            v, plain = new_value(p) or value_at(p)
            if isinstance(v, int):
                v = plain = 100 + i
            put(want, p, plain)
            kw[spell(p, '.' * len(p))] = v
        if one:
            r.set(**kw)
        else:
            for k, v in kw.items():
                r.set(**{k: v})
        eq(snap(r), want, 'after all writes')

    def cases():
        for n in range(2, length + 1):
            for ps in product(PAIR, repeat=n):
                if len(set(ps)) < n:
                    continue
                for one in (True, False):
                    yield [[list(map(str, p)) for p in ps], one], \
                        lambda ps=ps, one=one: run(ps, one)
    return cases


def scenarios(tier):
    t = tier == 'thorough'
    return [*enums(12, 'paths', single(6 if t else 5, t)),
            *enums(4, 'pairs', pairs(3 if t else 2))]
