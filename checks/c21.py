"""C21: objects never share mutable state with inputs, outputs or peers."""
from __future__ import annotations
from copy import deepcopy
from itertools import count, product
from typing import Any
from jsonclasses import jsonclass, types
from mc.core import enums, eq, expect

G = 'verif-c21'


@jsonclass(class_graph=G)
class Emb:
    ls: Any = types.listof(str)
    dc: Any = types.dictof(types.listof(int))
    an: Any = types.any


@jsonclass(class_graph=G, reset_all_fields=True)
class Obj:
    id: int = types.int.primary
    ls: Any = types.listof(str)
    lls: Any = types.listof(types.listof(str))
    ldc: Any = types.listof(types.dictof(int))
    dc: Any = types.dictof(int)
    ddc: Any = types.dictof(types.dictof(int))
    dls: Any = types.dictof(types.listof(int))
    an: Any = types.any
    lan: Any = types.listof(types.any)
    dan: Any = types.dictof(types.any)
    uni: Any = types.union([types.listof(str), types.dictof(types.listof(str)),
                            types.str])
    emb: Any = types.objof('Emb')
    lemb: Any = types.listof('Emb')
    demb: Any = types.dictof(types.objof('Emb'))


@jsonclass(class_graph=G)
class Ref:
    id: int = types.int.primary
    ys: Any = types.listof('Ref').linkto.nonnull


DEEP = [{'a': [1, {'b': 2}]}, [3, [4]], 5]
VALUES = {
    'ls': [['a', 'b'], []],
    'lls': [[['a'], ['b', 'c']], [[]]],
    'ldc': [[{'a': 1}, {}]],
    'dc': [{'a': 1, 'b': 2}, {}],
    'ddc': [{'x': {'a': 1}, 'y': {}}],
    'dls': [{'x': [1], 'y': []}],
    'an': [DEEP, {'k': DEEP}, [], {}],
    'lan': [DEEP, [[]]],
    'dan': [{'k': DEEP, 'j': {'l': [1]}}],
    'uni': [['a'], {'x': ['a']}],
    'emb': [{'ls': ['a'], 'dc': {'x': [1]}, 'an': DEEP}],
    'lemb': [[{'ls': ['a']}, {'an': DEEP}]],
    'demb': [{'k': {'ls': ['a'], 'dc': {'x': [1]}}}],
}
PLAIN = [f for f in VALUES if 'emb' not in f]


def plain(x):
    """What a user sees, as plain data."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    if isinstance(x, (Emb, Obj, Ref)):
        return {k: plain(getattr(x, k)) for k in
                [f.name for f in type(x).cdef.fields]
                + (['y_ids'] if isinstance(x, Ref) else [])
                if not (isinstance(x, Ref) and k == 'ys')}
    return x


def see(o):
    return [plain(o), o.tojson()]


def nodes(x, path=()):
    """Paths of all containers of a value (through embedded objects)."""
    if isinstance(x, (Emb, Obj)):
        for f in type(x).cdef.fields:
            yield from nodes(getattr(x, f.name), path + (('.', f.name),))
    elif isinstance(x, dict):
        yield path
        for k in list(x):
            yield from nodes(x[k], path + (('[', k),))
    elif isinstance(x, list):
        yield path
        for i in range(len(x)):
            yield from nodes(x[i], path + (('[', i),))


def walk(x, path):
    for how, k in path:
        x = getattr(x, k) if how == '.' else x[k]
    return x


def changes(x):
    if isinstance(x, dict):
        return ['new', 'clear', 'del', 'over'] if x else ['new']
    return ['append', 'clear', 'del', 'over', 'insert'] if x else ['append']


def change(x, how):
    key = next(iter(x)) if x and isinstance(x, dict) else 0
    if how == 'new':
        x['zz'] = 'ZZ'
    elif how == 'append':
        x.append('ZZ')
    elif how == 'insert':
        x.insert(0, 'ZZ')
    elif how == 'clear':
        x.clear()
    elif how == 'del':
        del x[key]
    elif how == 'over':
        x[key] = 'ZZ'


def conv(f, v):
    """The value of an embedded field as objects (for direct assignment)."""
    v = deepcopy(v)
    if f == 'emb':
        return Emb(**v)
    if f == 'lemb':
        return [Emb(**x) for x in v]
    if f == 'demb':
        return {k: Emb(**x) for k, x in v.items()}
    return v


def peer(f, v):
    return Obj(id=9, **{f: deepcopy(v)})


def enter(way, f, v):
    """-> (object under test, source container, other objects)."""
    if way == 'ctor':
        return Obj(id=1, **{f: v}), v, []
    if way == 'set':
        return Obj(id=1).set(**{f: v}), v, []
    if way == 'reset':
        o = Obj(id=1, **{f: deepcopy(v)})
        o.set(**{f: v})
        return o, v, []
    if way == 'update':
        return Obj(id=1).update(**{f: v}), v, []
    if way == 'assign':
        o = Obj(id=1)
        setattr(o, f, v)
        return o, v, []
    if way == 'twice':
        return Obj(id=1, **{f: v}), v, [Obj(id=2, **{f: v})]
    if way == 'peer-ctor':
        p = peer(f, v)
        return Obj(id=1, **{f: getattr(p, f)}), getattr(p, f), [p]
    if way == 'peer-set':
        p = peer(f, v)
        return Obj(id=1).set(**{f: getattr(p, f)}), getattr(p, f), [p]
    if way == 'peer-assign':
        p = peer(f, v)
        o = Obj(id=1)
        setattr(o, f, getattr(p, f))
        return o, getattr(p, f), [p]
    if way == 'self':
        o = Obj(id=1, an=v) if f != 'an' else Obj(id=1, lan=[v])
        src = o.an if f != 'an' else o.lan[0]
        setattr(o, f, src)
        return o, src, None
    if way == 'json':
        p = peer(f, v)
        j = p.tojson()
        return Obj(id=1, **{f: j[f]}), j, [p]
    if way == 'out':
        o = peer(f, v)
        return o, o.tojson(), []
    if way == 'out2':
        o = peer(f, v)
        o._mark_unmodified()
        return o, o.tojson(output_null=True), []
    if way == 'out3':
        o = peer(f, v)
        o.pick([f])
        return o, o.tojson(), []


WAYS = ['ctor', 'set', 'reset', 'update', 'assign', 'twice', 'peer-ctor',
        'peer-set', 'peer-assign', 'json', 'out', 'out2', 'out3']


def direct(way):
    return way in ('update', 'assign', 'peer-assign')


def case(way, f, i, side, path, how):
    v = deepcopy(VALUES[f][i])
    o, src, others = enter(way, f, v)
    isolated(o, src, others, side, path, how)


def isolated(o, src, others, side, path, how):
    if side == 'src':
        shared = any(src is getattr(p, n.name, None) or
                     walk_has(p, src) for p in others
                     for n in type(p).cdef.fields)
        seen = [see(o)] + ([] if shared else [see(p) for p in others])
        change(walk(src, path), how)
        now = [see(o)] + ([] if shared else [see(p) for p in others])
        eq(now, seen, 'after changing the source')
    else:
        seen = [plain(src)] + [see(p) for p in others]
        change(walk(o, path), how)
        eq([plain(src)] + [see(p) for p in others], seen,
           'after changing the object')


def walk_has(p, src):
    return any(walk(p, q) is src for q in nodes(p))


def main(thorough):
    def cases():
        for way in WAYS:
            for f in (PLAIN if direct(way) else VALUES):
                if f in ('lemb', 'demb', 'emb') and way.startswith('peer'):
                    continue                # objects are shared on purpose
                for i in range(len(VALUES[f])):
                    o, src, _ = enter(way, f, deepcopy(VALUES[f][i]))
                    for side, root in (('src', src), ('obj', o)):
                        for path in list(nodes(root)):
                            for how in changes(walk(root, path)):
                                yield ([way, f, i, side, path, how],
                                       lambda a=(way, f, i, side, path, how):
                                       case(*a))
    return cases


INSERT = {
    'append': lambda c, x: c.append(x),
    'insert': lambda c, x: c.insert(0, x),
    'extend': lambda c, x: c.extend([x]),
    'iadd': lambda c, x: c.__iadd__([x]),
    'item': lambda c, x: c.__setitem__(0, x),
    'slice': lambda c, x: c.__setitem__(slice(0, 1), [x]),
}
DINSERT = {
    'item': lambda c, x: c.__setitem__('k', x),
    'update': lambda c, x: c.update({'k': x}),
    'updkw': lambda c, x: c.update(k=x),
    'setdefault': lambda c, x: c.setdefault('zz', x),
    'ior': lambda c, x: c.__ior__({'k': x}),
}
INNER = [['q'], {'q': 1}, [['q']], {'q': {'r': [1]}}]


def inner(thorough):
    """Containers put into containers the object already has."""
    targets = [('an', [[0]], ()), ('an', [[0]], (('[', 0),)),
               ('an', {'k': 0}, ()), ('an', {'m': {'k': 0}}, (('[', 'm'),)),
               ('lan', [[0]], ()), ('dan', {'k': 1}, ()),
               ('dan', {'x': [0]}, (('[', 'x'),))]

    def cases():
        for (f, v, at), x in product(targets, INNER):
            tgt = walk(v, at)
            for ins in (INSERT if isinstance(tgt, list) else DINSERT):
                for new in (True, False):
                    def make(f=f, v=v, at=at, x=x, ins=ins, new=new):
                        o = Obj(id=1, **{f: deepcopy(v)})
                        if not new:
                            o._mark_unmodified()
                        src = deepcopy(x)
                        c = walk(o, (('.', f),) + at)
                        (INSERT if isinstance(c, list)
                         else DINSERT)[ins](c, src)
                        return o, src
                    o, src = make()
                    for side, root in (('src', src), ('obj', o)):
                        for path in list(nodes(root)):
                            for how in changes(walk(root, path)):
                                yield ([f, v, at, x, ins, new, side, path,
                                        how],
                                       lambda m=make, s=side, p=path, h=how:
                                       isolated(*m(), [], s, p, h))
    return cases


COUNT = count()


def with_default(kind, v):
    d = deepcopy(v)
    t = types.any
    if kind == 'value':
        t = t.default(d)
    elif kind == 'call':
        t = t.default(lambda: d)
    elif kind == 'types':
        t = t.default(types.default(d))
    elif kind == 'list':
        t = types.listof(types.any).default(d)
    elif kind == 'dict':
        t = types.dictof(types.any).default(d)
    elif kind == 'transform':
        t = t.transform(lambda x: d)
    elif kind == 'getter':
        t = None

    if t is not None:
        @jsonclass(class_graph=f'{G}-{next(COUNT)}')
        class D:
            f: Any = t
    return D, d


def defaults(thorough):
    def cases():
        for kind in ('value', 'call', 'types', 'list', 'dict', 'transform'):
            for v in (DEEP, {'k': DEEP}, [], {}):
                if kind == 'list' and not isinstance(v, list):
                    continue
                if kind == 'dict' and not isinstance(v, dict):
                    continue
                arg = {'f': 1} if kind == 'transform' else {}
                for path in list(nodes(v)):
                    for how in changes(walk(v, path)):
                        for who in ('first', 'second', 'output'):
                            yield ([kind, v, path, how, who],
                                   lambda a=(kind, v, arg, path, how, who):
                                   default_case(*a))
    return cases


def default_case(kind, v, arg, path, how, who):
    D, d = with_default(kind, v)
    a, b = D(**arg), D(**arg)
    ja = a.tojson()
    target = {'first': a.f, 'second': b.f, 'output': ja['f']}[who]
    change(walk(target, path), how)
    want = deepcopy(v)
    eq(d, want, 'the default itself')
    for n, o in (('first', a), ('second', b), ('third', D(**arg))):
        if n != who:
            eq(plain(o.f), want, f'the {n} object')
            eq(o.tojson(), {'f': want}, f'output of the {n} object')
    if who != 'output':
        eq(ja, {'f': want}, 'earlier output')


def keys(thorough):
    """Lists of reference keys."""
    def build(way):
        src = [5, 6]
        if way == 'ctor':
            return Ref(id=1, y_ids=src), src
        if way == 'camel':
            return Ref(id=1, yIds=src), src
        if way == 'set':
            return Ref(id=1).set(y_ids=src), src
        if way == 'assign':
            o = Ref(id=1)
            o.y_ids = src
            return o, src
        if way == 'peer':
            p = Ref(id=2, y_ids=src)
            o = Ref(id=1)
            o.y_ids = p.y_ids
            return o, p.y_ids
        if way == 'out':
            o = Ref(id=1, y_ids=src)
            return o, o.tojson()['yIds']
        if way == 'objects':
            src = [Ref(id=5), Ref(id=6)]
            return Ref(id=1, ys=src), src
        if way == 'objects=':
            src = [Ref(id=5), Ref(id=6)]
            o = Ref(id=1)
            o.ys = src
            return o, src

    def run(way, side, how):
        o, src = build(way)
        seen = [see(o), list(o.ys), list(src)]
        if side == 'src':
            change(src, how)
            eq(see(o), seen[0], 'after changing the source')
            expect(len(o.ys) == len(seen[1]) and
                   all(x is y for x, y in zip(o.ys, seen[1])), 'objects')
        else:
            if way.startswith('objects'):
                o.ys.pop()
            else:
                change(o.y_ids, how)
            expect(len(src) == len(seen[2]) and
                   all(x is y for x, y in zip(src, seen[2])),
                   'the source changed')

    def cases():
        for way in ('ctor', 'camel', 'set', 'assign', 'peer', 'out',
                    'objects', 'objects='):
            for side in ('src', 'obj'):
                for how in ('append', 'clear', 'del', 'over', 'insert'):
                    yield [way, side, how], lambda a=(way, side, how): run(*a)
    return cases


def scenarios(tier):
    t = tier == 'thorough'
    return [*enums(6, 'main', main(t)), *enums(4, 'inner', inner(t)),
            *enums(2, 'default', defaults(t)), *enums(1, 'keys', keys(t))]
