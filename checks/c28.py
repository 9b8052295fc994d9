"""C28: calculated fields always reflect the current values."""
from __future__ import annotations
from itertools import product
from typing import Any
from jsonclasses import jsonclass, types
from mc.core import enums, eq, expect

G = 'verif-c28'
CALLS: list = []


def add_to_a(v, o):
    CALLS.append(('add', v))
    o.a = v + o.b


def put_xs(v, o):
    CALLS.append(('xs', v))
    o.xs = list(v)


def put_kid(v, o):
    CALLS.append(('kid', v))
    o.kid.n = v


@jsonclass(class_graph=G)
class Kid:
    n: Any = types.int
    twice: Any = types.int.getter(lambda k: k.n * 2)


@jsonclass(class_graph=G)
class Box:
    before: Any = types.int.getter(lambda o: o.a * 100)
    a: Any = types.int
    b: Any = types.int
    xs: Any = types.listof(int)
    kid: Any = types.objof('Kid')
    total: Any = types.int.getter(lambda o: o.a + o.b)
    dbl: Any = types.int.getter(types.this.fval('a').mul(2))
    count: Any = types.int.getter(lambda o: len(o.xs))
    last_x: Any = types.int.getter(types.this.fval('xs').prepend(0).at(-1))
    copy: Any = types.listof(int).getter(lambda o: [*o.xs, o.a])
    pair: Any = types.dictof(int).getter(lambda o: {'a': o.a, 'b': o.b})
    chain: Any = types.int.getter(lambda o: o.total + o.dbl)
    chained: Any = types.int.getter(types.this.fval('total').add(1))
    diff: Any = types.int.getter(lambda o: o.a - o.b).setter(add_to_a)
    half: Any = types.int.getter(types.this.fval('b').mul(2)).setter(
        types.this.assign('b', types.passin.add(3)))
    all_xs: Any = types.listof(int).getter(lambda o: o.xs).setter(put_xs)
    kid_n: Any = types.int.getter(lambda o: o.kid.n).setter(put_kid)
    kid_c: Any = types.int.getter(types.this.fval('kid').fval('n'))
    hidden: Any = types.int.writeonly.getter(lambda o: o.a)
    small: Any = types.int.getter(lambda o: o.a + o.b).max(20)


@jsonclass(class_graph=G)
class Sub(Box):
    c: Any = types.int
    total: Any = types.int.getter(lambda o: o.a + o.b + o.c)
    extra: Any = types.int.getter(lambda o: o.c * 10).setter(
        lambda v, o: o.update(c=v))


RO = ['before', 'total', 'dbl', 'count', 'last_x', 'copy', 'pair', 'chain',
      'chained', 'hidden', 'small', 'kid_c']


class Model:
    def __init__(self, sub):
        self.sub = sub
        self.v = {'a': 1, 'b': 2, 'xs': [5, 6], 'kid': 7}
        if sub:
            self.v['c'] = 4
        self.mod = set()
        self.kmod = self.knew = False
        self.new = True

    def calc(self):
        v = self.v
        total = v['a'] + v['b'] + (v['c'] if self.sub else 0)
        out = {'before': v['a'] * 100, 'total': total, 'dbl': v['a'] * 2,
               'count': len(v['xs']),
               'last_x': v['xs'][-1] if v['xs'] else 0,
               'copy': [*v['xs'], v['a']],
               'pair': {'a': v['a'], 'b': v['b']},
               'chain': total + v['a'] * 2, 'chained': total + 1,
               'diff': v['a'] - v['b'], 'half': v['b'] * 2,
               'all_xs': v['xs'], 'kid_n': v['kid'], 'kid_c': v['kid'],
               'hidden': v['a'],
               'small': v['a'] + v['b']}
        if self.sub:
            out['extra'] = v['c'] * 10
        return out

    def put(self, **kw):
        for k, x in kw.items():
            if self.v[k] == x:
                continue
            self.v[k] = x
            if not self.new:
                if k == 'kid':
                    self.kmod = not self.knew
                else:
                    self.mod.add(k)


def js(name):
    return ''.join(w if not i else w.title()
                   for i, w in enumerate(name.split('_')))


def judge(o, m, where):
    want = m.calc()
    for k, v in want.items():
        eq(getattr(o, k), v, f'{where}: reading {k}')
    got = o.tojson()
    out = {js(k): v for k, v in {**m.v, **want}.items()
           if k not in ('kid', 'hidden') and v is not None}
    out['kid'] = {'n': m.v['kid'], 'twice': m.v['kid'] * 2}
    eq(got, out, f'{where}: output')
    eq(o.tojson(ignore_writeonly=True), {**out, 'hidden': want['hidden']},
       f'{where}: output with write-only')
    eq({k: getattr(o, k) for k in m.v if k != 'kid'},
       {k: v for k, v in m.v.items() if k != 'kid'}, f'{where}: values')
    eq(o.kid.n, m.v['kid'], f'{where}: kid')
    eq({k.split('.')[0] for k in o.modified_fields}, m.mod,
       f'{where}: modified fields')
    eq(o.is_modified, bool(m.mod), f'{where}: is modified')
    eq(o.kid.is_modified, m.kmod, f'{where}: kid is modified')
    eq(o.is_valid, want['small'] <= 20, f'{where}: is valid')
    kept = set(o._data_dict)
    expect(not kept & set(want), f'{where}: {kept & set(want)} is stored')


def refuse(o, m, fn, where):
    try:
        fn()
    except Exception:
        eq([o.a, o.b, o.xs, o.kid.n, {k.split('.')[0]
                                      for k in o.modified_fields}],
           [*(m.v[k] for k in ('a', 'b', 'xs', 'kid')), m.mod], where)
    else:
        raise AssertionError(f'{where} was not refused')


OPS = [('a', 3), ('a', 30), ('b', 9), ('append', 8), ('xs', []), ('pop',),
       ('kid', 1), ('diff', 10), ('half', 5), ('all_xs', [4]),
       ('all_xs', [5, 6]), ('kid_n', 2), ('set', 'calc'), ('set', 'plain'),
       ('update', 'calc'), ('update', 'ro'), ('ro',), ('save',), ('nested',)]


def step(o, m, op):
    k = op[0]
    del CALLS[:]
    if k in ('a', 'b'):
        setattr(o, k, op[1])
        m.put(**{k: op[1]})
    elif k == 'append':
        o.xs.append(op[1])
        m.put(xs=[*m.v['xs'], op[1]])
    elif k == 'pop':
        if m.v['xs']:
            o.xs.pop()
            m.put(xs=m.v['xs'][:-1])
    elif k == 'xs':
        o.xs = []
        m.put(xs=[])
    elif k == 'kid':
        o.kid.n = op[1]
        m.put(kid=op[1])
    elif k in ('diff', 'half', 'all_xs', 'kid_n'):
        setattr(o, k, op[1])
        model_set(m, k, op[1])
        if k != 'half':
            eq(CALLS, [({'diff': 'add', 'all_xs': 'xs',
                         'kid_n': 'kid'}[k], op[1])], f'setter calls of {k}')
    elif k == 'set' and op[1] == 'calc':
        kw = {js(n): 1 for n in [*RO, 'diff', 'half', 'kid_n']
              if n not in ('copy', 'pair')}
        o.set(**kw, allXs=[1])
        eq(CALLS, [], 'setters called by input')
    elif k == 'set':
        o.set(a=12, diff=1, total=2, xs=[1])
        m.put(a=12, xs=[1])
    elif k == 'update' and op[1] == 'calc':
        o.update(b=4, diff=6)
        m.put(b=4)
        model_set(m, 'diff', 6)
    elif k == 'update':
        refuse(o, m, lambda: o.update(total=1), 'update of a read-only field')
    elif k == 'ro':
        for n in RO:
            for v in (None, 5, [1], m.calc()[n]):
                refuse(o, m, lambda: setattr(o, n, v), f'writing {n}')
    elif k == 'save':
        o.save(skip_validation=True)
        o._mark_unmodified()
        o.kid._mark_unmodified()
        m.new, m.mod, m.kmod, m.knew = False, set(), False, False
    elif k == 'nested':
        refuse(o, m, lambda: setattr(o.kid, 'twice', 4), 'writing kid.twice')
        o.set(kid={'n': m.v['kid'], 'twice': 77})
        expect(o.kid.twice == m.v['kid'] * 2, 'nested input of twice')
        # the nested input replaces the kid
        m.kmod, m.knew = False, True
        if not m.new:
            m.mod.add('kid')


def model_set(m, k, v):
    if k == 'diff':
        m.put(a=v + m.v['b'])
    elif k == 'half':
        m.put(b=v + 3)
    elif k == 'all_xs':
        m.put(xs=list(v))
    elif k == 'kid_n':
        m.put(kid=v)


def build(sub):
    kw = {'c': 4} if sub else {}
    return (Sub if sub else Box)(a=1, b=2, xs=[5, 6], kid={'n': 7}, total=99,
                                 diff=5, **kw)


def histories(depth):
    def run(sub, ops, watch):
        o, m = build(sub), Model(sub)
        other, m2 = build(sub), Model(sub)
        for op in ops:
            if watch:                   # reads between the steps
                for k in m.calc():
                    getattr(o, k)
                o.tojson()
            step(o, m, op)
        judge(o, m, 'object')
        judge(other, m2, 'another object')
        if sub:
            o.extra = 8
            m.put(c=8)
            judge(o, m, 'object')

    def cases():
        for n in range(depth + 1):
            for ops in product(OPS, repeat=n):
                for sub, watch in product((False, True), repeat=2) \
                        if n < 3 or depth > 3 else \
                        ((False, True), (True, False)):
                    yield [[list(op) for op in ops], sub, watch], \
                        lambda a=(sub, ops, watch): run(*a)
    return cases


def scenarios(tier):
    t = tier == 'thorough'
    return enums(32 if t else 8, 'histories', histories(4 if t else 3))
