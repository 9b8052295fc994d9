"""C20: concurrent definition and first use give the sequential results."""
from __future__ import annotations
from itertools import count
from jsonclasses.excs import ValidationException
from mc.core import Enum, Mismatch, eq, expect
from mc.sched import Run
from checks.c19 import World, NV, op_def, op_key, op_mkC

SMALL = {'cgraph.py', 'cdef.py', 'fdef.py', 'jfield.py', 'rtypes.py',
         'jconf.py', 'types.py', 'union_modifier.py'}


def op_obj(c, v):
    a = c('A')(b={'n': 5})
    expect(type(a.b) is c('B'), 'b is not a B')
    eq(a.tojson(), {'b': {'n': 5}}, 'output')


def op_lst(c, v):
    a = c('A')(bs=[{'n': 5}])
    expect(type(a.bs[0]) is c('B'), 'bs holds no B')
    a.validate()
    eq(a.tojson(), {'bs': [{'n': 5}]}, 'output')


def op_dct(c, v):
    a = c('A')(bd={'k': {'e': 'X'}})
    expect(type(a.bd['k']) is c('B'), 'bd holds no B')
    expect(a.bd['k'].e is c('E').X, 'wrong enum')


def op_enm(c, v):
    a = c('A')(e='X', es=['Y'])
    expect(a.e is c('E').X and a.es[0] is c('E').Y, 'wrong enum')
    eq(a.tojson(), {'e': 'X', 'es': ['Y']}, 'output')


def op_uni(c, v):
    a = c('A')(u={'n': 5}, ul=['s', {'n': 5}])
    expect(type(a.u) is c('B') and type(a.ul[1]) is c('B'), 'no B in a union')
    a.validate()


def op_bad(c, v):
    try:
        c('A')(b={'zz': 1})
    except ValidationException:
        return
    expect(False, 'an unknown key is accepted')


def op_par(c, v):
    p = c('P')(id=1, cs=[{'id': 2}])
    expect(type(p.cs[0]) is c('C') and p.cs[0].p is p, 'not linked')
    eq(p.tojson(), {'id': 1, 'cs': [{'id': 2, 'pId': 1}]}, 'output')


OPS = {'obj': op_obj, 'lst': op_lst, 'dct': op_dct, 'enm': op_enm,
       'uni': op_uni, 'bad': op_bad, 'par': op_par, 'chi': op_mkC,
       'key': op_key, 'def': op_def}
EMB, LINK = ['obj', 'lst', 'dct', 'enm', 'uni', 'bad'], ['par', 'chi', 'key']


def fresh(fam, ents):
    w = World(fam)
    for e in ents:
        w.define(e)
    return w


def call(w, o):
    return lambda: OPS[o](lambda n: w.ns[n, 0], 0)


def judge(run, w, after):
    for i, e in enumerate(run.error):
        if isinstance(e, Mismatch):
            raise Mismatch(f'thread {i + 1}: {e}')
        if e is not None:
            raise Mismatch(f'thread {i + 1}: {type(e).__name__}: {e}')
    for o in after:
        try:
            call(w, o)()
        except Mismatch as e:
            raise Mismatch(f'afterwards, {o}: {e}')
        except Exception as e:
            raise Mismatch(f'afterwards, {o}: {type(e).__name__}: {e}')


def points(make, only=None):
    w, bodies = make()
    r = Run(bodies[:1], record=True).go()
    if r.error[0] is not None:
        raise r.error[0]
    return [k for k, f in r.points if only is None or f in only]


def explore(label, make, after, bound=1, only=None):
    """make() -> (world, bodies); preempt the first one at every point."""
    ks = points(make, only)

    def one(sw):
        w, bodies = make()
        judge(Run(bodies, switches=sw).go(), w, after)
        return sum(len(b) for b in [sw]) + len(bodies)
    for k in ks:
        yield [*label, [k]], lambda k=k: one([k])
    if bound > 1:
        # the second thread is preempted as well
        second = points(lambda: (lambda w, b: (w, b[::-1]))(*make()), SMALL)
        for k in ks:
            for j in second:
                yield [*label, [k, j]], lambda k=k, j=j: one([k, j])


def pair(fam, a, b):
    ents = 'ABE' if a in EMB and b in EMB else 'PC' \
        if a in LINK and b in LINK else 'ABEPC'

    def make():
        w = fresh(fam, ents)
        return w, [call(w, a), call(w, b)]
    after = [o for o in [*EMB, *LINK, 'def']
             if (o in EMB and 'A' in ents) or (o in LINK and 'P' in ents)
             or ents == 'ABEPC']
    return make, after


def define(fam, order):
    def make():
        w = World(fam)

        def body(ents):
            return lambda: [w.define(e) for e in ents]
        return w, [body(part) for part in order]
    return make, EMB


QUICK = {'ann': [('lst', 'lst'), ('dct', 'enm'), ('obj', 'bad'),
                 ('par', 'chi'), ('key', 'par'), ('def', 'par')],
         'chain': [('lst', 'dct'), ('uni', 'uni'), ('chi', 'key')]}


def scenarios(tier):
    t = tier == 'thorough'
    out = []
    for fam in ('ann', 'chain'):
        pairs = QUICK[fam]
        if t:
            pairs = sorted({*((a, b) for g in (EMB, LINK)
                              for a in g for b in g), ('def', 'par'),
                            ('def', 'def'), ('obj', 'par'), ('par', 'obj')})
        for a, b in pairs:
            def cases(fam=fam, a=a, b=b):
                make, after = pair(fam, a, b)
                yield from explore([fam, a, b], make, after)
            for s in range(2):
                out.append(Enum(f'{fam}:{a}|{b}', cases, shard=(s, 2)))
        for order in [('A', 'BE'), ('BE', 'A'), ('AB', 'E'), ('E', 'BA')]:
            def defs(fam=fam, order=order):
                make, after = define(fam, order)
                yield from explore([fam, 'define', *order], make, after)
            out.append(Enum(f'{fam}:define {"|".join(order)}', defs))
    if t:
        for fam, a, b in [('ann', 'lst', 'lst'), ('chain', 'uni', 'uni'),
                          ('ann', 'chi', 'key'), ('ann', 'par', 'chi')]:
            def two(fam=fam, a=a, b=b):
                make, after = pair(fam, a, b)
                yield from explore([fam, a, b], make, after, 2, SMALL)
            for s in range(8):
                out.append(Enum(f'two:{fam}:{a}|{b}', two, shard=(s, 8)))
    return out
