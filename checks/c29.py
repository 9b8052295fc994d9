"""C29: save hooks run once, with the right value and owner."""
from __future__ import annotations
from datetime import date, datetime
from enum import Enum
from itertools import product
from typing import Any
from jsonclasses import jsonclass, types
from jsonclasses.excs import ValidationException
from mc.core import enums, eq, expect

LOG: list = []


class Color(Enum):
    RED = 1
    BLUE = 2


BUMP = {'x': lambda v: v + 100, 'xs': lambda v: [*v, [100]]}
CONST = {'x': lambda: 55, 'xs': lambda: [[55]]}


def log(*a):
    LOG.append(a)


def hook(kind, t, f):
    bump, const = BUMP[f], CONST[f]
    if kind == 'none':
        return t
    if kind == 'onsave0':
        return t.onsave(lambda: log())
    if kind == 'onsave1':
        return t.onsave(lambda v: log(v))
    if kind == 'onupdate0':
        return t.onupdate(lambda: log())
    if kind == 'onupdate1':
        return t.onupdate(lambda v: log(v))
    if kind == 'onupdate2':
        return t.onupdate(lambda p, v: log(p, v))
    if kind == 'onupdate3':
        return t.onupdate(lambda p, v, c: log(p, v, c.val, id(c.parent)))
    if kind == 'onwrite0':
        return t.onwrite(lambda: log())
    if kind == 'onwrite1':
        return t.onwrite(lambda v: log(v))
    if kind == 'onwrite2':
        return t.onwrite(lambda v, c: log(v, c.val, id(c.parent)))

    def set1(v):
        log(v)
        return bump(v)

    def set0():
        log()
        return const()
    if kind == 'setonsave0':
        return t.setonsave(set0)
    if kind == 'setonsave1':
        return t.setonsave(set1)
    if kind == 'setonsaveT':
        return t.setonsave(types.add(100) if f == 'x' else
                           types.append([100]))
    if kind == 'fsetonsave0':
        return t.fsetonsave(set0)
    if kind == 'fsetonsave1':
        return t.fsetonsave(set1)
    if kind == 'fsetonsaveT':
        return t.fsetonsave(types.add(100) if f == 'x' else
                            types.append([100]))
    raise AssertionError(kind)


KINDS = ['none', 'onsave0', 'onsave1', 'onupdate0', 'onupdate1', 'onupdate2',
         'onupdate3', 'onwrite0', 'onwrite1', 'onwrite2', 'setonsave0',
         'setonsave1', 'setonsaveT', 'fsetonsave0', 'fsetonsave1',
         'fsetonsaveT']
FAMILIES: dict = {}


def family(kind, f):
    if (kind, f) in FAMILIES:
        return FAMILIES[kind, f]
    g = f'verif-c29-{kind}-{f}'
    xt = hook(kind, types.int, 'x') if f == 'x' else types.int
    lt = types.listof(types.listof(int))
    lt = hook(kind, lt, 'xs') if f == 'xs' else lt
    ns = {'__annotations__': {'id': int, 'x': Any, 'y': Any, 'xs': Any,
                              't': Any, 'holder': Any, 'holders': Any},
          '__module__': __name__, 'id': types.int.primary,
          'x': xt, 'y': types.int, 'xs': lt, 't': types.int.temp,
          'holder': types.objof('Root').linkedby('ref'),
          'holders': types.listof('Root').linkedby('refs')}
    item = jsonclass(class_graph=g)(type('Item', (), ns))
    ns = {'__annotations__': dict.fromkeys(
        ['id', 'emb', 'embs', 'x', 'y', 'xs', 't', 'embd', 'embn', 'ref',
         'refs', 'uni', 'unis'],
        Any), '__module__': __name__, 'id': types.int.primary,
        'emb': types.objof('Item'), 'embs': types.listof('Item'),
        'x': xt, 'y': types.int, 'xs': lt, 'embd': types.dictof('Item'),
        't': types.int.temp,
        'embn': types.listof(types.dictof('Item')),
        'ref': types.objof('Item').linkto,
        'refs': types.listof('Item').linkto,
        'uni': types.union([types.str, types.objof('Item')]),
        'unis': types.listof(types.union([types.objof('Root'),
                                          types.objof('Item')]))}
    root = jsonclass(class_graph=g)(type('Root', (), ns))
    root._database_write = item._database_write = \
        lambda self: WRITTEN.append(self)
    FAMILIES[kind, f] = item, root
    return item, root


WRITTEN: list = []
STATES = ['new', 'clean', 'x', 'y', 't', 'xs', 'xs-inner', 'xs-append']
POSITIONS = ['emb', 'embs', 'embd', 'embn', 'ref', 'refs']
UNIONS = ['uni', 'unis']


def put(r, pos, o):
    if pos in ('emb', 'ref', 'uni'):
        setattr(r, pos, o)
    elif pos in ('embs', 'refs', 'unis'):
        setattr(r, pos, [o])
    elif pos == 'embd':
        r.embd = {'k': o}
    else:
        r.embn = [{'k': o}]


def dirty(o, state):
    """Brings a clean object into a state; returns (changed, prev)."""
    if state == 'x':
        o.x += 1
        return {'x': 1}
    if state == 'y':
        o.y += 1
        return {'y': 1}
    if state == 't':
        o.t = 1
        return {'t': 1}
    prev = [list(i) for i in o.xs]
    if state == 'xs':
        o.xs = [[9]]
    elif state == 'xs-inner':
        o.xs[0].append(7)
    elif state == 'xs-append':
        o.xs.append([8])
    else:
        return {}
    return {'xs': prev}


def plain(o):
    return {'x': o.x, 'y': o.y, 'xs': [list(i) for i in o.xs]}


def expected(kind, f, o, state, changed, vals):
    """Log entries and new value the hook of field f must produce."""
    new = state == 'new'
    runs = new or bool(changed)
    v, written = vals[f], new or f in changed
    if kind == 'none':
        return [], v
    if kind.startswith('onsave'):
        return ([(v,) if kind[-1] == '1' else ()] if runs else []), v
    if kind.startswith('onupdate'):
        if new or f not in changed:
            return [], v
        p = changed[f]
        return [{'0': (), '1': (v,), '2': (p, v),
                 '3': (p, v, v, id(o))}[kind[-1]]], v
    if kind.startswith('onwrite'):
        if not written:
            return [], v
        return [{'0': (), '1': (v,), '2': (v, v, id(o))}[kind[-1]]], v
    if not runs and not kind.startswith('f'):
        return [], v
    if kind.endswith('0'):
        return [()], CONST[f]()
    if kind.endswith('1'):
        return [(v,)], BUMP[f](v)
    return [], BUMP[f](v)


def check_save(root, objs, kind, f, where):
    """objs: [(object, state, changed)]; saves root and judges all."""
    vals = {id(o): plain(o) for o, _, _ in objs}
    want_log, want = [], {}
    for o, state, changed in objs:
        lg, v = expected(kind, f, o, state, changed, vals[id(o)])
        want_log += lg
        want[id(o)] = {**vals[id(o)], f: v}
    del LOG[:], WRITTEN[:]
    expect(root.save() is root, f'{where}: save returns the object')
    got = [tuple([list(j) for j in i] if isinstance(i, list) else i
                 for i in e) for e in LOG]
    eq(sorted(map(repr, got)), sorted(map(repr, want_log)),
       f'{where}: hook calls')
    for o, state, _ in objs:
        eq(plain(o), want[id(o)], f'{where}: values of {state} object')
    expect(any(w is root for w in WRITTEN), f'{where}: the object is written')


def pair(kind, f, pos, rs, os):
    item, rootc = family(kind, f)
    o = item(id=1, x=10, y=2, xs=[[1], []])
    r = rootc(id=1, x=20, y=3, xs=[[2], []])
    put(r, pos, o)
    if rs != 'new':
        r._mark_unmodified()
    if os != 'new':
        o._mark_unmodified()
    ro, oo = (20 if 'x' == rs else None), (10 if 'x' == os else None)
    rc = dirty(r, rs) if rs not in ('new', 'clean') else {}
    oc = dirty(o, os) if os not in ('new', 'clean') else {}
    if 'x' in rc:
        rc['x'] = ro
    if 'x' in oc:
        oc['x'] = oo
    check_save(r, [(r, rs, rc), (o, os, oc)], kind, f, 'first save')
    if pos in ('emb', 'ref', 'uni'):
        expect(getattr(r, pos) is o, 'the same object stays in place')
    r._mark_unmodified()
    o._mark_unmodified()
    check_save(r, [(r, 'clean', {}), (o, 'clean', {})], kind, f,
               'second save')
    r._mark_unmodified()
    o._mark_unmodified()
    o.x += 1
    check_save(r, [(r, 'clean', {}), (o, 'x', {'x': o.x - 1})], kind, f,
               'third save')


def pairs(kinds, fields):
    def cases():
        for kind, f in product(kinds, fields):
            for pos, rs, os in product(POSITIONS + UNIONS,
                                       STATES, STATES):
                yield [kind, f, pos, rs, os], \
                    lambda a=(kind, f, pos, rs, os): pair(*a)
    return cases


def several(thorough):
    """Several objects below one root, one of them in two places."""
    def run(kind, f, places, states, shared):
        item, rootc = family(kind, f)
        r = rootc(id=1, x=20, y=3, xs=[[2], []])
        os = [item(id=k + 2, x=10 + k, y=2, xs=[[1], []])
              for k in range(len(states) - 1)]
        for pos, o in zip(places, os):
            put(r, pos, o)
        if shared:
            put(r, shared, os[0])
        objs = []
        for k, (o, s) in enumerate(zip([r, *os], states)):
            if s != 'new':
                o._mark_unmodified()
        for k, (o, s) in enumerate(zip([r, *os], states)):
            old = o.x
            ch = dirty(o, s) if s not in ('new', 'clean') else {}
            if 'x' in ch:
                ch['x'] = old
            objs.append((o, s, ch))
        check_save(r, objs, kind, f, 'save')

    def cases():
        for kind in KINDS if thorough else ['onsave1', 'onupdate2',
                                            'onwrite2', 'setonsave1',
                                            'fsetonsave1']:
            for places in product(POSITIONS + UNIONS, repeat=2):
                if len(set(places)) < 2:
                    continue
                if not thorough and set(UNIONS) & set(places) and not \
                        set(places) & {'emb', 'ref', 'embs'}:
                    continue
                for states in product(['new', 'clean', 'x', 'y'], repeat=3):
                    for shared in [None, *POSITIONS]:
                        if shared in places:
                            continue
                        yield [kind, places, states, shared], \
                            lambda a=(kind, 'x', places, states, shared): \
                            run(*a)
    return cases


def lists():
    """Every item of a list is processed, whatever its state."""
    def run(kind, pos, rs, states):
        item, rootc = family(kind, 'x')
        r = rootc(id=1, x=20, y=3, xs=[[2], []])
        os = [item(id=k + 2, x=10 + k, y=2, xs=[[1], []])
              for k in range(len(states))]
        if pos == 'embd':
            r.embd = {f'k{i}': o for i, o in enumerate(os)}
        elif pos == 'embn':
            r.embn = [{'k': o} for o in os]
        else:
            setattr(r, pos, list(os))
        objs = []
        for o, s in zip([r, *os], [rs, *states]):
            if s != 'new':
                o._mark_unmodified()
        for o, s in zip([r, *os], [rs, *states]):
            old = o.x
            ch = dirty(o, s) if s not in ('new', 'clean') else {}
            if 'x' in ch:
                ch['x'] = old
            objs.append((o, s, ch))
        check_save(r, objs, kind, 'x', 'save')
        if pos in ('embs', 'refs'):
            expect(all(a is b for a, b in zip(getattr(r, pos), os)),
                   'the list keeps its objects')
            eq(len(getattr(r, pos)), len(os), 'length')

    def cases():
        for kind in ['onsave1', 'onupdate2', 'onwrite1', 'setonsave1',
                     'fsetonsave1']:
            for pos in ('embs', 'refs', 'embd', 'embn'):
                for rs in ('new', 'clean', 'x', 'y'):
                    for n in range(4):
                        for states in product(['new', 'clean', 'x'],
                                              repeat=n):
                            yield [kind, pos, rs, states], \
                                lambda a=(kind, pos, rs, states): run(*a)
    return cases


STEPS = ['onsave', 'plus', 'times', 'force', 'max', 'required', 'null']
CHAINS: dict = {}


def chain_class(word):
    if word not in CHAINS:
        t = types.int
        for i, s in enumerate(word):
            if s == 'onsave':
                t = t.onsave((lambda i: lambda v: log(i, v))(i))
            elif s == 'plus':
                t = t.setonsave(lambda v: None if v is None else v + 3)
            elif s == 'times':
                t = t.setonsave(types.mul(2))
            elif s == 'force':
                t = t.fsetonsave(lambda v: None if v is None else v + 10)
            elif s == 'max':
                t = t.max(30)
            elif s == 'required':
                t = t.required
            else:
                t = t.setonsave(lambda: None)
        ns = {'__annotations__': {'x': Any, 'y': Any}, '__module__': __name__,
              'x': t, 'y': types.int}
        cls = jsonclass(class_graph='verif-c29-' + '-'.join(word))(
            type('Chain', (), ns))
        cls._database_write = lambda self: WRITTEN.append(self)
        CHAINS[word] = cls
    return CHAINS[word]


def chains(length):
    def run(word, x, state):
        cls = chain_class(word)
        o = cls(x=x, y=1)
        if state != 'new':
            o._mark_unmodified()
        if state == 'y':
            o.y = 2
        first = next((i for i, s in enumerate(word)
                      if s in ('plus', 'times', 'force', 'null')), len(word))
        fail, calls, v = False, [], x
        runs = state != 'clean' or 'force' in word
        if state == 'new':
            fail = any(s == 'required' and x is None or
                       s == 'max' and x is not None and x > 30
                       for s in word[:first])
        if runs and not fail:
            for i, s in enumerate(word):
                if s == 'onsave':
                    calls.append((i, v))
                elif s in ('plus', 'force', 'times', 'null'):
                    v = None if s == 'null' or v is None else \
                        {'plus': v + 3, 'force': v + 10, 'times': v * 2}[s]
                elif i > first:
                    if s == 'required' and v is None or \
                            s == 'max' and v is not None and v > 30:
                        fail = True
                        break
        del LOG[:], WRITTEN[:]
        try:
            o.save()
        except ValidationException:
            expect(fail, f'saving {x} failed')
            eq(len(WRITTEN), 0, 'written although a check failed')
        else:
            expect(not fail, f'saving {x} must fail')
            eq([w is o for w in WRITTEN], [True], 'written')
            eq(o.x, v, 'value after saving')
        eq(LOG, calls, 'hook calls')
        eq(o.y, 2 if state == 'y' else 1, 'the other field')

    def cases():
        for n in range(length + 1):
            for word in product(STEPS, repeat=n):
                if 'times' in word and 'null' in word:
                    continue
                for x in (1, 9, 40, None):
                    if 'times' in word and x is None:
                        continue
                    for state in ('new', 'clean', 'y'):
                        yield [word, x, state], \
                            lambda a=(word, x, state): run(*a)
    return cases


SORTS = {
    'int': (types.int, [None, 0, 1, -5]), 'str': (types.str, [None, '', 'a']),
    'bool': (types.bool, [None, False, True]),
    'float': (types.float, [None, 0.0, 1.5]),
    'list': (types.listof(int), [None, [], [0], [1, 2]]),
    'dict': (types.dictof(int), [None, {}, {'a': 0}, {'b': 1}]),
    'any': (types.any, [None, 0, '', False, [], 'a']),
    'union': (types.union([int, str, types.listof(int)]),
              [None, 0, '', 'a', [1]]),
    'listunion': (types.listof(types.union([str, types.dictof(int)])),
                  [None, [''], ['a', {'k': 0}]]),
    'enum': (types.enum(Color), [None, Color.RED, Color.BLUE]),
    'date': (types.date, [None, date(2020, 2, 29)]),
    'datetime': (types.datetime, [None, datetime(2020, 1, 1, 5)]),
    'nested': (types.dictof(types.listof(bool)), [{}, {'k': [False, True]}])}
VALUE_CLASSES: dict = {}


def value_class(kind, sort):
    if (kind, sort) not in VALUE_CLASSES:
        t = SORTS[sort][0]

        def keep(v):
            log(v)
            return v
        t = {'none': lambda: t, 'onsave1': lambda: t.onsave(lambda v: log(v)),
             'onupdate2': lambda: t.onupdate(lambda p, v: log(p, v)),
             'onupdate1': lambda: t.onupdate(lambda v: log(v)),
             'onwrite1': lambda: t.onwrite(lambda v: log(v)),
             'setonsave1': lambda: t.setonsave(keep),
             'fsetonsave1': lambda: t.fsetonsave(keep)}[kind]()
        ns = {'__annotations__': {'x': Any, 'y': Any}, '__module__': __name__,
              'x': t, 'y': types.int}
        VALUE_CLASSES[kind, sort] = jsonclass(
            class_graph=f'verif-c29-v-{kind}-{sort}')(type('V', (), ns))
    return VALUE_CLASSES[kind, sort]


def copy(v):
    return list(v) if isinstance(v, list) else \
        dict(v) if isinstance(v, dict) else v


HOLDERS: dict = {}
IN_PLACE = {
    'append': ('xs', lambda v: v.append(3)), 'pop': ('xs', lambda v: v[:1] and v.pop(0)),
    'sort': ('xs', lambda v: v.sort(reverse=True)),
    'put': ('xs', lambda v: v.__setitem__(slice(0, 1), [9])),
    'deep': ('xss', lambda v: v[0].append(3)),
    'new-list': ('xss', lambda v: v.append([])),
    'key': ('d', lambda v: v.__setitem__('k', 9)),
    'drop': ('d', lambda v: v.clear()),
    'more': ('d', lambda v: v.update(z=1)),
    'any': ('a', lambda v: v['l'].append(1)),
}


def place_class(reset):
    if reset not in HOLDERS:
        def chain(name, t):
            return t.onupdate(lambda p, v: log(name, 'u', bare(p), bare(
                v))).onwrite(lambda v: log(name, 'w', bare(v))).compare(
                lambda p, v: log(name, 'c', bare(p), bare(v)))
        ns = {'xs': chain('xs', types.listof(int)),
              'xss': chain('xss', types.listof(types.listof(int))),
              'd': chain('d', types.dictof(int)), 'a': chain('a', types.any)}
        HOLDERS[reset] = jsonclass(
            class_graph=f'verif-c29-in-{reset}', reset_all_fields=reset)(
            type('Places', (), {'__module__': __name__,
                                '__annotations__': dict.fromkeys(ns, Any),
                                **ns}))
    return HOLDERS[reset]


def inplace(length):
    """Lists and dicts changed in place between saves."""
    def run(reset, new, word):
        o = place_class(reset)(xs=[1, 2], xss=[[1]], d={'k': 1},
                               a={'l': [0]})
        names = ['xs', 'xss', 'd', 'a']

        def state():
            return {n: bare(getattr(o, n)) for n in names}
        if not new:
            o._mark_unmodified()
        first = state()
        for w in word:
            f, change = IN_PLACE[w]
            change(getattr(o, f))
        changed = [] if new else [n for n in names if n in {
            IN_PLACE[w][0] for w in word}]
        now = state()
        eq({k: bare(v) for k, v in o.previous_values.items()},
           {n: first[n] for n in changed}, 'previous values')
        del LOG[:]
        o.save()
        want = [(n, 'c', first[n], now[n]) for n in changed]
        want += [(n, 'u', first[n], now[n]) for n in changed]
        want += [(n, 'w', now[n]) for n in (names if new else changed)]
        eq(sorted(map(repr, [tuple(bare(a) for a in e) for e in LOG])),
           sorted(map(repr, want)), 'calls')
        eq(state(), now, 'values')
        o._mark_unmodified()
        eq(dict(o.previous_values), {}, 'previous values when saved')

    def cases():
        for reset, new in product((False, True), repeat=2):
            for n in range(length + 1):
                for word in product(IN_PLACE, repeat=n):
                    yield [reset, new, word], \
                        lambda a=(reset, new, word): run(*a)
    return cases


def bare(v):
    if isinstance(v, list):
        return [bare(x) for x in v]
    if isinstance(v, dict):
        return {k: bare(x) for k, x in v.items()}
    return v


def values(length):
    """Hooks with null, empty and falsy values, over several saves."""
    def run(kind, sort, word):
        o = value_class(kind, sort)(x=copy(word[0]), y=1)
        prev, new, y = None, True, 1
        for step, v in enumerate(word):
            changed = step > 0 and repr(v) != repr(prev)
            if step:
                if not changed:
                    y += 1
                    o.y = y             # only the other field is changed
                else:
                    o.x = copy(v)
            want = [{'onupdate2': (prev, v)}.get(kind, (v,))]
            if kind == 'none':
                want = []
            if kind.startswith('onupdate') and (new or not changed) or \
                    kind == 'onwrite1' and not new and not changed:
                want = []
            del LOG[:]
            o.save()
            eq([tuple(copy(a) for a in e) for e in LOG], want,
               f'hook calls of save {step + 1}')
            eq(copy(o.x), v, f'value after save {step + 1}')
            o._mark_unmodified()
            prev, new = v, False

    def cases():
        for kind in ('none', 'onsave1', 'onupdate1', 'onupdate2', 'onwrite1',
                     'setonsave1', 'fsetonsave1'):
            for sort, (_, vals) in SORTS.items():
                for n in range(1, length + 1):
                    for word in product(vals, repeat=n):
                        if sort == 'any' and any(
                                a == b and repr(a) != repr(b)
                                for a, b in zip(word, word[1:])):
                            continue    # 0 and False are equal: no change
                        yield [kind, sort, word], \
                            lambda a=(kind, sort, word): run(*a)
    return cases


def scenarios(tier):
    t = tier == 'thorough'
    return [*enums(8, 'positions', pairs(KINDS, ['x', 'xs'])),
            *enums(8, 'several', several(t)), *enums(2, 'lists', lists()),
            *enums(8, 'chains', chains(4 if t else 3)),
            *enums(2, 'values', values(4 if t else 3)),
            *enums(2, 'in-place', inplace(3 if t else 2))]
