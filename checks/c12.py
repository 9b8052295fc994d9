"""C12: every validation rule accepts exactly the values it allows."""
from __future__ import annotations
from datetime import date, datetime, timedelta, timezone
from enum import Enum as PyEnum
from itertools import combinations, count, product
from typing import Any
from jsonclasses import jsonclass, types
from jsonclasses.ctx import Ctx
from jsonclasses.excs import ValidationException
from mc.core import Enum, canon, enums, eq, expect

COUNT = count()
UTC = timezone.utc
PLUS = timezone(timedelta(hours=5))


class Color(PyEnum):
    RED = 1
    BLUE = 2


class Shape(PyEnum):
    RED = 1


D = date
T = datetime
INTS = [-7, -2, -1, 0, 1, 2, 3, 8, 2 ** 70]
FLOATS = [-2.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 1e300]
STRS = ['', 'a', 'b', 'ab', 'ba', 'aba', 'abab', 'A1', '12', '1.5', 'a b',
        'aB3$', 'aB3', 'AB3$', 'ab3$', 'aBc$', '#a1B2c3', 'a1B2c3', 'a1B2c',
        'a1B2c34', 'a1B2cg', 'ab\n', '日本', '½', '²', 'aB3$\n',
        'x@y.com', 'x@', '@y.com', 'xy.com', 'http://a.com',
        'https://a.co/b?c=1', 'http:/a.com', 'a.com', 'http://', 'a\nb']
LISTS = [[], [1], [2], [1, 2], [2, 1], [1, 2, 1], [1, 2, 1, 2], [1, 1]]
DATES = [D(2019, 12, 31), D(2020, 1, 1), D(2020, 1, 2)]
TIMES = [T(2020, 1, 1), T(2020, 1, 1, 0, 0, 0, 1), T(2019, 12, 31, 23, 59),
         T(2020, 1, 1, 12), T(2020, 1, 1, tzinfo=UTC),
         T(2020, 1, 1, 4, 59, tzinfo=PLUS), T(2020, 1, 1, 5, tzinfo=PLUS),
         T(2020, 1, 1, 5, 0, 1, tzinfo=PLUS), T(2020, 1, 1, 12, tzinfo=UTC)]
BOOLS = [True, False]
# another enum of the same name
TWIN = PyEnum('Color', {c.name: c.value for c in Color})
TYPED = {'int': (types.int, INTS, lambda v: type(v) is int),
         'float': (types.float, FLOATS, lambda v: type(v) is float),
         'str': (types.str, STRS, lambda v: type(v) is str),
         'bool': (types.bool, BOOLS, lambda v: type(v) is bool),
         'date': (types.date, DATES, lambda v: type(v) is date),
         'datetime': (types.datetime, TIMES, lambda v: type(v) is datetime),
         'list': (types.listof(types.int), LISTS, lambda v: isinstance(
             v, list) and all(type(x) is int for x in v)),
         'enum': (types.enum(Color), list(Color),
                  lambda v: isinstance(v, Color))}
WRONG = {'int': [True, 1.5, '1', [], {}, Color.RED, D(2020, 1, 1)],
         'float': [True, '1.5', [], {}], 'str': [0, 1, True, 1.5, [], {}, ['a']],
         'bool': [0, 1, 'true', [], 1.0], 'date': [0, 'x', [], {}],
         'datetime': [0, 'x', [], {}, 1.5, True],
         'list': ['', 'ab', 0, {}, True, ['a'], [1, 'b'], [None], [True]],
         'enum': [1, 'RED', Shape.RED, TWIN.RED, [], 0]}


def inst(v):
    """A moment, dates at midnight, naive means UTC (independent oracle)."""
    if type(v) is date:
        v = T(v.year, v.month, v.day)
    if v.tzinfo is not None:
        v = (v - v.utcoffset()).replace(tzinfo=None)
    return v


def has_all(s):
    kinds = ('A' <= c <= 'Z' and 'u' or 'a' <= c <= 'z' and 'l'
             or '0' <= c <= '9' and 'd'
             or c in '!@#$&*`~()-_+=[]{}:;\'",<>.?\\|/' and 'p' for c in s)
    return {'u', 'l', 'd', 'p'} <= set(kinds)


URLS = {'http://a.com', 'https://a.co/b?c=1', 'ftp://a.com', 'ftps://a.com/x',
        'http://localhost', 'http://localhost:8080/x', 'http://1.2.3.4:80',
        'HTTP://A.COM', 'http://a.com?x=1', 'http://a-b.co.uk/', 'http://a.com/',
        'https://x9.museum/a/b#c', 'http://12.org', 'http://a.b.c.de:1'}
EMAILS = {'x@y.com', 'a.b+c%d-e_f@x-y.co.uk', 'A9@B.INFO', 'x@y.museum',
          '1@2.io', 'x@y.z.org'}
PUNCS = '!@#$&*`~()-_+=[]{}:;\'",<>.?\\|/'
# values tried for one rule only
EXTRA = {
    'url': sorted(URLS) + [
        'http://a.com/ b', 'http://-a.com', 'javascript:x', 'http://a',
        'ssh://a.com', 'http://a.com:x', 'xhttp://a.com', 'http//a.com',
        'http://a b.com', ' http://a.com', 'http://a.com\n', 'http://.com'],
    'email': sorted(EMAILS) + ['x@y', 'x@y.c', 'x y@z.com', 'a@b@c.com', '@',
                               ' x@y.com', 'x@.', 'x.y.com', '.@', 'x@y.1'],
    'securepw': ['aB3' + c for c in PUNCS] + [
        'aB$' + c for c in '09'] + ['aB3 ', 'a3$Z', 'A3$z', 'zZ9/', 'Aa', 'é'],
    'hexcolor': ['000000', 'FFFFFF', 'ffffff', '999999', 'abcdeg', 'ABCDEG',
                 '12345/', '12345:', '@12345', '`12345', '12345', '1234567',
                 '#12345', '12345\n', '１23456'],
    'alnum': ['a1', 'a_', 'é1', 'a-1', '٣'], 'alpha': ['aé', 'a1', 'a '],
    'numeric': ['1', '-1', '1.0', 'Ⅷ', '1²'], 'digit': ['0', '1²', '-0', '٣'],
}
NUM = {
    'gt': (lambda t, p: t.gt(p), lambda v, p: v > p),
    'gte': (lambda t, p: t.gte(p), lambda v, p: v >= p),
    'min': (lambda t, p: t.min(p), lambda v, p: v >= p),
    'lt': (lambda t, p: t.lt(p), lambda v, p: v < p),
    'lte': (lambda t, p: t.lte(p), lambda v, p: v <= p),
    'max': (lambda t, p: t.max(p), lambda v, p: v <= p),
}
SEQ = {
    'minlength': ([1, 3, -1, 0], lambda t, p: t.minlength(p),
                  lambda v, p: len(v) >= p),
    'maxlength': ([2, 1, 0], lambda t, p: t.maxlength(p),
                  lambda v, p: len(v) <= p),
    'length': ([2, 1, 0], lambda t, p: t.length(p), lambda v, p: len(v) == p),
}
SLICE = {
    'hasprefix': (lambda t, p: t.hasprefix(p),
                  lambda v, p: v[:len(p)] == p),
    'hassuffix': (lambda t, p: t.hassuffix(p),
                  lambda v, p: v[len(v) - len(p):] == p
                  if len(v) >= len(p) else False),
    'isprefixof': (lambda t, p: t.isprefixof(p),
                   lambda v, p: p[:len(v)] == v),
    'issuffixof': (lambda t, p: t.issuffixof(p),
                   lambda v, p: len(v) <= len(p)
                   and p[len(p) - len(v):] == v),
}


def rules():
    """(name, type, parameter values, chain builder, oracle)."""
    for k in ('int', 'float'):
        ps = [-1, 2, 2 ** 70, 0] if k == 'int' else [-0.5, 1, 1.5, 0.0]
        for n, (b, o) in NUM.items():
            yield n, k, [(p,) for p in ps], b, o
        yield 'range', k, [(-1, 2), (1, -1), (0, 0), (-2, 0), (0, 8)], \
            (lambda t, a, b: t.range(a, b)), (lambda v, a, b: a <= v <= b)
        for n, o in (('positive', lambda v: v > 0),
                     ('negative', lambda v: v < 0),
                     ('nonnegative', lambda v: v >= 0),
                     ('nonpositive', lambda v: v <= 0)):
            yield n, k, [()], (lambda t, n=n: getattr(t, n)), o
    yield 'even', 'int', [()], (lambda t: t.even), (lambda v: v % 2 == 0)
    yield 'odd', 'int', [()], (lambda t: t.odd), (lambda v: v % 2 == 1)
    for k, ps in (('int', [1, 5, 0]), ('float', [1, 0.0]), ('str', ['a', '']),
                  ('bool', [True, False]), ('list', [[1, 2], []]),
                  ('date', [DATES[1]]), ('enum', [Color.RED])):
        yield 'eq', k, [(p,) for p in ps], (lambda t, p: t.eq(p)), \
            (lambda v, p: v == p)
        yield 'neq', k, [(p,) for p in ps], (lambda t, p: t.neq(p)), \
            (lambda v, p: v != p)
    for k, ps in (('int', [[], [1, 3], [0]]), ('str', [['a'], ['', 'ab']]),
                  ('float', [[0.5]]), ('enum', [[Color.BLUE]]),
                  ('list', [[[1], []]])):
        yield 'oneof', k, [(p,) for p in ps], (lambda t, p: t.oneof(p)), \
            (lambda v, p: v in p)
    for k in ('str', 'list'):
        for n, (ps, b, o) in SEQ.items():
            yield n, k, [(p,) for p in ps], b, o
        yield 'length2', k, [(0, 1), (1, 3), (2, 2), (3, 1), (-1, 0), (0, 0), (0, 2)], \
            (lambda t, a, b: t.length(a, b)), (lambda v, a, b: a <= len(v) <= b)
        ps = ['a', 'ab', 'abab', ''] if k == 'str' else \
            [[1], [1, 2], [1, 2, 1, 2], []]
        for n, (b, o) in SLICE.items():
            yield n, k, [(p,) for p in ps], b, o
    for n in ('alnum', 'alpha', 'numeric', 'digit'):
        yield n, 'str', [()], (lambda t, n=n: getattr(t, n)), \
            (lambda v, n=n: getattr(v, 'is' + n)())
    yield 'hexcolor', 'str', [()], (lambda t: t.hexcolor), \
        (lambda v: len(v) == 6 and all(c in '0123456789abcdefABCDEF'
                                       for c in v))
    yield 'securepw', 'str', [()], (lambda t: t.securepw), \
        (lambda v: None if '\n' in v else has_all(v))
    yield 'url', 'str', [()], (lambda t: t.url), (lambda v: v in URLS)
    yield 'email', 'str', [()], (lambda t: t.email), (lambda v: v in EMAILS)
    yield 'match', 'str', [('a',), ('^ab',), ('b$',), ('^[a-z]+$',), ('',)], \
        (lambda t, p: t.match(p)), (lambda v, p: {
            'a': 'a' in v, '^ab': v.startswith('ab'),
            'b$': v.endswith(('b', 'b\n')), '': True,
            '^[a-z]+$': v.removesuffix('\n') != '' and all(
                'a' <= c <= 'z' for c in v.removesuffix('\n'))}[p])
    for k in ('date', 'datetime'):
        ps = [D(2020, 1, 1), T(2020, 1, 1), T(2020, 1, 1, tzinfo=UTC),
              T(2020, 1, 1, 5, tzinfo=PLUS), T(2020, 1, 1, 6), D(2020, 1, 2)]
        yield 'before', k, [(p,) for p in ps], (lambda t, p: t.before(p)), \
            (lambda v, p: inst(v) < inst(p))
        yield 'after', k, [(p,) for p in ps], (lambda t, p: t.after(p)), \
            (lambda v, p: inst(v) > inst(p))
    for k in TYPED:
        yield 'type', k, [()], (lambda t: t), (lambda v: True)
        yield 'invalid', k, [()], (lambda t: t.invalid), (lambda v: False)
        yield 'validate-true', k, [()], \
            (lambda t: t.validate(lambda v: True)), (lambda v: True)
        yield 'validate-none', k, [()], \
            (lambda t: t.validate(lambda v: None)), (lambda v: True)
        yield 'validate-false', k, [()], \
            (lambda t: t.v(lambda v, ctx: False)), (lambda v: False)
        yield 'validate-str', k, [()], \
            (lambda t: t.v(lambda v, ctx: 'no')), (lambda v: False)
        yield 'validate-empty', k, [()], \
            (lambda t: t.v(lambda v: '')), (lambda v: False)
    yield 'validate-value', 'int', [()], \
        (lambda t: t.validate(lambda v: v > 1)), (lambda v: v > 1)
    yield 'validate-types', 'int', [()], \
        (lambda t: t.validate(types.gt(1))), (lambda v: v > 1)
    yield 'validate-transform', 'int', [()], \
        (lambda t: t.validate(types.add(1).gt(1))), (lambda v: v + 1 > 1)
    yield 'vmsg', 'int', [()], \
        (lambda t: t.vmsg(lambda v: v > 1, 'bad')), (lambda v: v > 1)
    yield 'vmsg-types', 'int', [()], \
        (lambda t: t.vmsg(types.gt(1), 'bad')), (lambda v: v > 1)
    yield 'oneisvalid', 'int', [()], \
        (lambda t: t.oneisvalid([types.gt(2), types.lt(0)])), \
        (lambda v: v > 2 or v < 0)
    yield 'oneisvalid-fn', 'int', [()], \
        (lambda t: t.oneisvalid([lambda v: v == 1, lambda v, ctx: v == 3,
                                 types.eq(0)])), (lambda v: v in (0, 1, 3))
    yield 'oneisvalid-add', 'int', [()], \
        (lambda t: t.oneisvalid([types.add(1).eq(1), types.eq(3)])), \
        (lambda v: v in (0, 3))


PARAMETRIC = {'gt', 'gte', 'lt', 'lte', 'min', 'max', 'range', 'eq', 'neq',
              'oneof', 'minlength', 'maxlength', 'length2', 'hasprefix',
              'hassuffix', 'isprefixof', 'issuffixof', 'match', 'before',
              'after', 'length'}
FORMS = ['const', 'fn0', 'fn1', 'fn2', 'types']
SPECIAL = {'vmsg', 'oneisvalid', 'oneisvalid-fn', 'oneisvalid-add', 'validate-value'}


def shaped(form, args):
    """The parameter as constant, callable or pipeline on the owner."""
    if form == 'const':
        return args
    if form == 'fn0':
        return [_fn0(a) for a in args]
    if form == 'fn1':
        return [_fn1(f'p{i}') for i in range(len(args))]
    if form == 'fn2':
        return [_fn2(f'p{i}') for i in range(len(args))]
    return [types.this.fval(f'p{i}') for i in range(len(args))]


def _fn0(v):
    def f():
        return v
    return f


def _fn1(n):
    def f(owner):
        return getattr(owner, n)
    return f


def _fn2(n):
    def f(owner, ctx):
        expect(owner is ctx.owner, 'parameter asked with another owner')
        return getattr(ctx.owner, n)
    return f


def declare(chain, listed=True):
    g = f'verif-c12-{next(COUNT)}'

    @jsonclass(class_graph=g)
    class Inner:
        in_val: Any = chain
        p0: Any = types.any
        p1: Any = types.any

    @jsonclass(class_graph=g)
    class Holder:
        my_val: Any = chain
        my_list: Any = types.listof(chain)
        my_dict: Any = types.dictof(chain)
        null_list: Any = types.listof(chain.nullable)
        deep: Any = types.dictof(types.listof(chain))
        inner: Any = types.objof('Inner')
        p0: Any = types.any
        p1: Any = types.any
    return Holder, Inner


def outcome(o, all_fields):
    before = canon(o)
    try:
        expect(o.validate(all_fields=all_fields) is o, 'validate result')
        got = []
    except ValidationException as e:
        got = sorted(e.keypath_messages)
    eq(canon(o), before, 'validating changed the object')
    expect(o.is_valid == (not got), 'is_valid disagrees with validate')
    return got


def place(H, I, pos, v, args):
    ps = {f'p{i}': a for i, a in enumerate(args)}
    o = H()
    o.update(**ps)
    if pos == 'my_val':
        o.update(my_val=v)
    elif pos == 'my_list':
        o.update(my_list=[v])
    elif pos == 'my_dict':
        o.update(my_dict={'k_k': v})
    elif pos == 'null_list':
        o.update(null_list=[v])
    elif pos == 'deep':
        o.update(deep={'k': [v]})
    else:
        i = I()
        i.update(in_val=v, **ps)
        o.update(inner=i)
    return o


PATHS = {'my_val': 'myVal', 'my_list': 'myList.0', 'my_dict': 'myDict.k_k',
         'null_list': 'nullList.0', 'deep': 'deep.k.0', 'inner': 'inner.inVal'}


def rule_cases(kinds):
    def cases():
        for name, kind, plist, build, oracle in rules():
            if kind not in kinds:
                continue
            base, good, is_type = TYPED[kind]
            for args in plist:
                forms = FORMS if name in PARAMETRIC else ['const']
                for form in forms:
                    if form != 'const' and args not in plist[-2:]:
                        continue
                    yield [name, kind, repr(args), form], rule_case(
                        name, kind, args, form, build, oracle, base, good,
                        is_type)
    return cases


def rule_case(name, kind, args, form, build, oracle, base, good, is_type):
    def go():
        H, I = declare(build(base, *shaped(form, args)))
        seen = []
        extra = EXTRA.get(name, []) if kind == 'str' else []
        for v in [None, *good, *WRONG[kind], *extra]:
            typed = v is not None and is_type(v)
            if not typed and v is not None and name in SPECIAL:
                continue               # user code would see a wrong type
            if v is None:
                ok = None if name in SPECIAL or 'types' in name or \
                    name in ('validate-transform', 'neq') else \
                    name != 'invalid'
            else:
                ok = typed and oracle(v, *args)
                if ok is None:
                    continue
            for pos, path in PATHS.items():
                if v in extra and pos != 'my_val':
                    continue
                if kind == 'list' and pos == 'deep' and v is not None:
                    continue
                want = ok
                if v is None and pos in ('my_list', 'my_dict', 'deep'):
                    want = False       # items are required unless nullable
                if want is None:
                    continue
                for af in (False, True):
                    o = place(H, I, pos, v, args)
                    got = outcome(o, af)
                    if name == 'invalid':
                        got = [p for p in got if p.split('.')[0] ==
                               path.split('.')[0]] or got
                    if want:
                        bad = [p for p in got if p == path
                               or p.startswith(path + '.')]
                        expect(not bad if name == 'invalid' else not got,
                               f'{v!r} at {pos} should be valid: {got}')
                    else:
                        near = [p for p in got if p == path or
                                p.startswith(path + '.')]
                        if name == 'invalid' and not near:
                            near = got and not af
                        expect(near, f'{v!r} at {pos} should be invalid, '
                               f'reported {got}')
                        if name != 'invalid':
                            eq([p for p in got if p not in near], [],
                               'other paths reported')
            seen.append((repr(v), ok))
        return repr(seen)
    return go


def pair_cases():
    """Two and three rules on one field: valid iff all of them hold."""
    pool = [r for r in rules() if r[1] in ('int', 'str')
            and r[0] not in ('type',) and not r[0].startswith(
                ('validate', 'vmsg', 'oneis', 'invalid', 'securepw'))]
    for a, b in combinations(range(len(pool)), 2):
        ra, rb = pool[a], pool[b]
        if ra[1] != rb[1]:
            continue

        def go(ra=ra, rb=rb):
            base, good, is_type = TYPED[ra[1]]
            pa, pb = ra[2][-1], rb[2][0]
            chain = rb[3](ra[3](base, *pa), *pb)

            @jsonclass(class_graph=f'verif-c12-{next(COUNT)}')
            class P:
                val: Any = chain
            out = []
            for v in [None, *good]:
                ok = v is None or (ra[4](v, *pa) and rb[4](v, *pb))
                for af in (False, True):
                    o = P()
                    o.update(val=v)
                    eq(outcome(o, af), [] if ok else ['val'], repr(v))
                out.append(bool(ok))
            return repr(out)
        yield [a, ra[0], b, rb[0]], go


class RefClasses:
    def __init__(self):
        g = f'verif-c12-{next(COUNT)}'

        @jsonclass(class_graph=g)
        class R:
            id: str = types.str.primary
            req: Any = types.str.required
            pres: Any = types.str.present
            one: Any = types.objof('S').linkto.required
            by: Any = types.objof('S2').linkedby('r').required
            many: Any = types.listof('S').linkto.required
            bys: Any = types.listof('S3').linkedby('r').required
            emb: Any = types.objof('E').required
            lst: Any = types.listof(int).required
            nn: Any = types.listof(int).nonnull.required

        @jsonclass(class_graph=g)
        class S:
            id: str = types.str.primary

        @jsonclass(class_graph=g)
        class S2:
            id: str = types.str.primary
            r: Any = types.objof('R').linkto

        @jsonclass(class_graph=g)
        class S3:
            id: str = types.str.primary
            r: Any = types.objof('R').linkto

        @jsonclass(class_graph=g)
        class E:
            v: Any = types.str
        self.R, self.S, self.S2, self.S3, self.E = R, S, S2, S3, E


def required_cases():
    k = RefClasses()
    opts = {'req': ['null', '', 'x'], 'pres': ['null', ''],
            'one': ['null', 'key', 'obj'], 'by': ['null', 'obj'],
            'many': ['null', 'empty', 'keys', 'objs'],
            'bys': ['null', 'objs'], 'emb': ['null', 'obj'],
            'lst': ['null', 'empty'], 'nn': ['empty']}
    for combo, saved in product(product(*opts.values()), (False, True)):
        def go(combo=combo, saved=saved):
            st = dict(zip(opts, combo))
            o = k.R(id='r')
            if saved:
                o.update(req='q', pres='q', one=k.S(id='0'), lst=[5],
                         emb=k.E(v='0'), many=[k.S(id='0')])
                o._mark_unmodified()
                o.update(req='p', pres='p', one=None, lst=None, emb=None)
            bad = set()
            for n in ('req', 'pres'):
                v = None if st[n] == 'null' else st[n]
                setattr(o, n, v)
                if v is None:
                    bad.add(n)
            if st['one'] == 'key':
                o.one_id = 'k'
            elif st['one'] == 'obj':
                o.one = k.S(id='k')
            else:
                bad.add('one')
            if st['by'] == 'obj':
                o.by = k.S2(id='b')
            if st['many'] == 'null':
                o.many = None
                bad.add('many')
            elif st['many'] == 'empty':
                o.many = []
            elif st['many'] == 'keys':
                o.many = None
                o.many_ids = ['1']
            else:
                o.many = [k.S(id='1')]
            if st['bys'] == 'objs':
                o.bys = [k.S3(id='1')]
            if st['emb'] == 'obj':
                o.emb = k.E(v='1')
            else:
                bad.add('emb')
            if st['lst'] == 'null':
                bad.add('lst')
            else:
                o.lst = []
            got = set(outcome(o, True))
            if st['many'] == 'keys':
                got.discard('many')        # keys only: either is documented
                bad.discard('many')
            eq(got, bad, f'required fields of {st}')
            first = outcome(o, False)
            expect(len(first) <= 1 and set(first) <= bad | {'many'},
                   f'{first}')
        yield [*combo, saved], go


def with_cases():
    @jsonclass(class_graph=f'verif-c12-{next(COUNT)}')
    class W:
        a: Any = types.any
        b: Any = types.any
        calc: Any = types.any.getter(lambda o: o.a)
        with_a: Any = types.str.presentwith('a')
        with_calc: Any = types.str.presentwith('calc')
        wo_a: Any = types.str.presentwithout('a')
        wo_ab: Any = types.str.presentwithout(['a', 'b'])
    vals = [None, 0, '', False, 'x', []]
    for a, b in product(vals, repeat=2):
        for own, saved in product((None, '', 'y'), (False, True)):
            def go(a=a, b=b, own=own, saved=saved):
                o = W()
                if saved:
                    o.update(a=3, b=3, with_a='z', with_calc='z', wo_a='z',
                             wo_ab='z')
                    o._mark_unmodified()
                o.update(a=a, b=b, with_a=own, with_calc=own, wo_a=own,
                         wo_ab=own)
                want = set()
                if own is None:
                    if a is not None:
                        want |= {'withA', 'withCalc'}
                    if a is None:
                        want.add('woA')
                    if a is None and b is None:
                        want.add('woAb')
                eq(set(outcome(o, True)), want, f'a={a!r} b={b!r} own={own!r}')
                eq(bool(outcome(o, False)), bool(want), 'first only')
            yield [repr(a), repr(b), own, saved], go


def compare_cases():
    seen = []

    def rule(prev, new):
        seen.append((prev, new))
        return RESULT[0]

    def rule3(prev, new, ctx):
        seen.append((prev, new))
        return RESULT[0]
    RESULT = [True]
    g = f'verif-c12-{next(COUNT)}'

    @jsonclass(class_graph=g)
    class C:
        c: Any = types.int.compare(rule)
        c3: Any = types.int.compare(rule3)
        n: Any = types.int
    for f in ('c', 'c3'):
        for res in (True, None, False, 'msg'):
            for new in (True, False):
                for start in (None, 0, 1):
                    for path in ([], [2], [2, 3], [2, start]):
                        def go(f=f, res=res, new=new, start=start, path=path):
                            o = C()
                            setattr(o, f, start)
                            o.n = 1
                            if not new:
                                o._mark_unmodified()
                            for p in path:
                                setattr(o, f, p)
                            o.n = 2
                            RESULT[0] = res
                            del seen[:]
                            got = outcome(o, True)
                            runs = not new and bool(path)
                            want = [f] if runs and res in (False, 'msg') \
                                else []
                            eq(got, want, f'{f} from {start} over {path}')
                            if runs:
                                expect(seen and set(seen) == {
                                    (start, path[-1])}, f'compared {seen}')
                            else:
                                eq(seen, [], 'comparer ran')
                        yield [f, res, new, start, path], go


def interval_cases():
    """A minimum interval between the stored and the new moment."""
    base = T(2020, 2, 29, 12, tzinfo=UTC)
    tick = timedelta(microseconds=1)
    for gap in (timedelta(0), timedelta(hours=1), timedelta(days=1, seconds=1),
                timedelta(days=-1)):
        @jsonclass(class_graph=f'verif-c12-{next(COUNT)}')
        class C:
            at: Any = types.datetime.umininterval(gap)
            n: Any = types.int
        news = [None, base, base + gap, base + gap - tick, base + gap + tick,
                base - gap - tick, (base + gap).astimezone(PLUS),
                (base + gap - tick).astimezone(PLUS)]
        for start, via, new, state, af in product(
                (None, base), ([], [base - tick], [base + 9 * gap]), news,
                ('new', 'saved', 'untouched'), (False, True)):
            def go(C=C, gap=gap, start=start, via=via, new=new, state=state,
                   af=af):
                o = C(at=start)
                if state != 'new':
                    o._mark_unmodified()
                if state != 'untouched':
                    for v in (*via, new):
                        o.at = v
                o.n = 1
                bad = state == 'saved' and start is not None and \
                    new is not None and new - start < gap
                # the same moment in other words is no change
                if state == 'saved' and new == start and not via:
                    bad = False
                eq(outcome(o, af), ['at'] if bad else [],
                   f'{gap} from {start} over {via} to {new}, {state}')
            yield [str(gap), str(start), str(via), str(new), state, af], go


def password_cases():
    from bcrypt import gensalt, hashpw
    g = f'verif-c12-{next(COUNT)}'

    @jsonclass(class_graph=g)
    class C:
        given: Any = types.any
        stored: Any = types.str.checkpw(types.this.fval('given'))

    @jsonclass(class_graph=g)
    class A:
        pw: Any = types.str.authbycheckpw
        own: Any = types.str.authby(types.checkpw(types.passin))
    words = ['a', 'b', '', 'pä', 'a ' * 20, 'A']
    hashes = {w: hashpw(w.encode(), gensalt(4)).decode() for w in words}
    for plain in [*words, None, 5, b'a', ['a'], 'a\0b']:
        for stored in [*words, None, 'plain text', 5, '$2b$04$short']:
            def go(plain=plain, stored=stored):
                h = hashes.get(stored, stored)
                ok = plain == stored and plain in words
                want = [] if ok else ['stored']
                o = C(given=plain)
                o.stored = h
                for af in (False, True):
                    eq(outcome(o, af), want, f'{plain!r} for {stored!r}')
                a = A()
                for f in ('pw', 'own'):
                    checker = A.cdef.field_named(f).fdef.auth_by_checker
                    ctx = Ctx.rootctxp(a, f, h, plain)
                    try:
                        checker.modifier.validate(ctx)
                        got = True
                    except ValidationException as e:
                        eq([*e.keypath_messages], [f], 'named')
                        got = False
                    eq(got, ok, f'checker of {f}: {plain!r} for {stored!r}')
            yield [str(plain), str(stored)], go


def null_cases():
    """Null values under rules made of other rules."""
    rules = {
        'validate-required': (lambda: types.validate(types.required), False),
        'validate-present': (lambda: types.v(types.present), False),
        'validate-nothing': (lambda: types.validate(types.any), True),
        'vmsg-required': (lambda: types.vmsg(types.required, 'no'), False),
        'validate-fn': (lambda: types.validate(lambda v: False), True),
        'validate-fn2': (lambda: types.validate(lambda v, c: 'no'), True),
        'one-required': (lambda: types.oneisvalid([types.required]), False),
        'one-second': (lambda: types.oneisvalid(
            [types.required, types.gt(3)]), True),
        'one-fn': (lambda: types.oneisvalid([lambda v: v is None]), True),
        'one-fn-not': (lambda: types.oneisvalid(
            [lambda v: v is not None, lambda v, c: 'no']), False),
        'one-default': (lambda: types.oneisvalid(
            [types.default(3).gt(3), types.default(3).lt(3)]), False),
        'one-default-ok': (lambda: types.oneisvalid(
            [types.default(3).gt(3), types.default(3).eq(3)]), True),
        'validate-default': (lambda: types.validate(
            types.default(3).eq(4)), False),
    }
    for (name, (make, ok)), pos in product(rules.items(), ('a', 'e', 'k')):
        def go(make=make, ok=ok, pos=pos):
            g = f'verif-c12-{next(COUNT)}'

            @jsonclass(class_graph=g)
            class K:
                id: Any = types.str.primary
                x: Any = make().int
                o: Any = types.objof('O').linkto

            @jsonclass(class_graph=g)
            class O:
                id: Any = types.str.primary
                a: Any = make().int if pos == 'a' else types.int
                e: Any = types.objof('K')
                k: Any = types.listof('K').linkedby('o')
            o = O(id='o')
            if pos == 'e':
                o.e = K(id='k')
            elif pos == 'k':
                o.k = [K(id='k')]
            path = {'a': 'a', 'e': 'e.x', 'k': 'k.0.x'}[pos]
            for saved in (False, True):
                if saved:
                    k = {'a': o, 'e': o.e, 'k': o.k and o.k[0]}[pos]
                    if pos == 'a':
                        o.a = 5
                    else:
                        k.x = 5
                    k._mark_unmodified()
                    if pos == 'a':
                        o.a = None
                    else:
                        k.x = None
                for af in (True, False):
                    eq(outcome(o, af), [] if ok else [path], f'{saved} {af}')
            eq(o.tojson().get('a'), None, 'value')
        yield [name, pos], go


def union_cases():
    member = {'int': types.int, 'str': types.str, 'date': types.date,
              'bool': types.bool, 'list': types.listof(types.int),
              'enum': types.enum(Color), 'small': types.int.lt(5)}
    test = {'int': lambda v: type(v) is int, 'str': lambda v: type(v) is str,
            'date': lambda v: type(v) is date, 'bool': lambda v: type(v) is
            bool, 'list': TYPED['list'][2], 'enum': TYPED['enum'][2],
            'small': lambda v: type(v) is int and v < 5}
    vals = [None, 0, 7, True, False, '', 'x', D(2020, 1, 1), [], [1], ['a'],
            Color.RED, Shape.RED, 1.5, {}, {'a': 1}]
    for r in (1, 2, 3):
        for names in combinations(member, r):
            def go(names=names):
                chain = types.union([member[n] for n in names])
                H, I = declare(chain)
                out = []
                for v in vals:
                    ok = v is None or any(test[n](v) for n in names)
                    for pos, path in PATHS.items():
                        want = ok and not (v is None and pos in (
                            'my_list', 'my_dict', 'deep'))
                        for af in (False, True):
                            got = outcome(place(H, I, pos, v, ()), af)
                            eq(got, [] if want else [path],
                               f'{v!r} in union {names} at {pos}')
                    out.append(ok)
                return repr(out)
            yield list(names), go


def identity_cases():
    """isobjof and isthis on reference and plain fields."""
    g = f'verif-c12-{next(COUNT)}'

    @jsonclass(class_graph=g)
    class A:
        id: str = types.str.primary
        any_a: Any = types.any.isobjof('A')
        me: Any = types.any.isthis

    @jsonclass(class_graph=g)
    class B:
        id: str = types.str.primary
    objs = {'a1': lambda o: A(id='1'), 'a2': lambda o: A(id='2'),
            'b1': lambda o: B(id='1'), 'self': lambda o: o,
            'null': lambda o: None, 'int': lambda o: 1, 'str': lambda o: 'x'}
    for x, y in product(objs, repeat=2):
        def go(x=x, y=y):
            o = A(id='1')
            o.update(any_a=objs[x](o), me=objs[y](o))
            want = set()
            if x not in ('a1', 'a2', 'self'):
                want.add('anyA')
            if y not in ('a1', 'self'):
                want.add('me')
            try:
                o.validate(all_fields=True)
                got = set()
            except ValidationException as e:
                got = set(e.keypath_messages)
            eq(got, want, f'any_a={x} me={y}')
        yield [x, y], go


def scenarios(tier):
    return [Enum('int', rule_cases(['int'])),
            Enum('float', rule_cases(['float'])),
            *enums(3, 'str', rule_cases(['str'])),
            Enum('list', rule_cases(['list'])),
            Enum('moments', rule_cases(['date', 'datetime'])),
            Enum('others', rule_cases(['bool', 'enum'])),
            *enums(4, 'pairs', pair_cases), Enum('union', union_cases),
            Enum('required', required_cases), Enum('with', with_cases),
            Enum('null', null_cases),
            Enum('compare', compare_cases), Enum('identity', identity_cases),
            *enums(2, 'interval', interval_cases),
            Enum('password', password_cases)]
