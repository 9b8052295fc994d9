"""C13: transformations compute their documented result."""
from __future__ import annotations
import calendar
import math
import re
from collections import OrderedDict
from copy import deepcopy
from datetime import date, datetime, timedelta, timezone
from enum import Enum as PyEnum
from itertools import count, product
from typing import Any
from jsonclasses import jsonclass, jsonenum, types
from jsonclasses.excs import ValidationException
from mc.core import Enum, enums, eq, expect

COUNT = count()
UTC = timezone.utc
PLUS = timezone(timedelta(hours=5))
D = date
T = datetime
VALUES = [
    None, 0, 1, 2, -3, 7, 2 ** 65, 0.0, 0.5, 1.5, 2.5, -0.5, -2.5, 4.0, True,
    False, '', 'a', ' ab ', 'aXb', 'hello wORLD', 'a,b', ',a,', '12', '-3',
    '1.5', 'ßa', 'aaa', '\tx\n', [], [1], [1, 2, 3], ['a', 'b'], [[1], [2]],
    [3, 'x', None], [True, 0], {}, {'k': [1]}, D(2020, 1, 31), D(2020, 2, 28),
    D(2020, 2, 29), D(2021, 2, 28), D(2020, 11, 30), D(2020, 12, 31),
    D(2021, 1, 1), T(2020, 12, 31, 23, 59, 59, 999999),
    T(2020, 11, 30, 23, 59, 59, 1), T(2020, 1, 1), T(2020, 2, 29, 12, 30),
    T(2021, 2, 28, 23, 0, 59), T(2020, 10, 5, 6, 7, 8, 9, tzinfo=PLUS),
    T(2020, 12, 1, 0, 0, 0, 0, tzinfo=UTC)]
num = lambda v: type(v) in (int, float)          # noqa: E731
seq = lambda v: type(v) is str or isinstance(v, list)    # noqa: E731
txt = lambda v: type(v) is str                   # noqa: E731
lst = lambda v: isinstance(v, list)              # noqa: E731
dtm = lambda v: type(v) is datetime              # noqa: E731
day = lambda v: type(v) in (date, datetime)      # noqa: E731


def on(test, f):
    """f where the value is of the right kind, otherwise unchanged."""
    return lambda v, *p: f(v, *p) if test(v) else v


def begin(v, unit):
    """Start of the unit containing the moment."""
    units = ['year', 'month', 'day', 'hour', 'minute', 'second']
    n = units.index(unit) + 1
    if type(v) is date:
        return date(*([v.year, v.month, v.day][:n] + [1, 1])[:3])
    parts = [v.year, v.month, v.day, v.hour, v.minute, v.second][:n]
    while len(parts) < 3:
        parts.append(1)
    return datetime(*parts, tzinfo=v.tzinfo)


def after(v, unit):
    """Start of the next unit."""
    b = begin(v, unit)
    if unit == 'year':
        return b + timedelta(days=366 if calendar.isleap(b.year) else 365)
    if unit == 'month':
        return b + timedelta(days=calendar.monthrange(b.year, b.month)[1])
    return b + timedelta(**{unit + 's': 1})


def half_even(v):
    f = math.floor(v)
    d = v - f
    if d < 0.5 or d == 0.5 and f % 2 == 0:
        return int(f)
    return int(f) + 1


def _sqrt(v):
    if v < 0:
        raise ValidationException({'x': 'negative'}, None)
    return v ** 0.5


def insert(v, item, i):
    if type(v) is list:
        v = list(v)
        v.insert(i, item)
        return v
    chars = list(v)
    chars.insert(i, str(item))
    return ''.join(chars)


UNITS = {'sec': 'second', 'min': 'minute', 'hour': 'hour', 'day': 'day',
         'mon': 'month', 'year': 'year'}


def table():
    """name -> (parameter tuples, chain builder, oracle)."""
    t = {}

    def add(name, params, oracle, build=None):
        t[name] = (params, build or (lambda c, *p: getattr(c, name)(*p)
                                     if p or name == 'reverse'
                                     else getattr(c, name)), oracle)
    add('add', [(2,), (-0.5,)], on(num, lambda v, p: v + p))
    add('sub', [(2,), (0.5,)], on(num, lambda v, p: v - p))
    add('mul', [(3,), (-0.5,), (0,)], on(num, lambda v, p: v * p))
    add('div', [(2,), (-4.0,)], on(num, lambda v, p: v / p))
    add('mod', [(2,), (-3,)], on(num, lambda v, p: v % p))
    add('pow', [(2,), (1.5,)], on(
        num, lambda v, p: p ** v if abs(v) < 100 else 1 // 0))
    add('map', [(lambda x: [x],)], on(lst, lambda v, p: [[x] for x in v]))
    add('filter', [(lambda x: x == 1,)],
        on(lst, lambda v, p: [x for x in v if x == 1]))
    t['map-types'] = ([()], lambda c: c.map(types.any.add(1).mul(2)), on(
        lst, lambda v: [(x + 1) * 2 if num(x) else x for x in v]))
    t['filter-types'] = ([()], lambda c: c.filter(types.int.gt(1)), on(
        lst, lambda v: [x for x in v if x is None or type(x) is int
                        and x > 1]))
    t['filter-none'] = ([()], lambda c: c.filter(lambda x: None), on(
        lst, lambda v: list(v)))
    add('insertat', [('Z', 0), (5, 1), ('Z', -1), ('Z', 99)],
        on(seq, lambda v, a, b: insert(v, a, b)))
    add('append', [('Z',), (5,)], on(
        seq, lambda v, p: v + [p] if lst(v) else v + str(p)))
    add('prepend', [('Z',), (5,)], on(
        seq, lambda v, p: [p] + v if lst(v) else str(p) + v))
    add('len', [()], on(seq, len))
    add('upperbond', [(1,), (-0.5,)], on(num, lambda v, p: min(v, p)))
    add('lowerbond', [(1,), (-0.5,)], on(num, lambda v, p: max(v, p)))
    add('inverse', [()], on(lambda v: type(v) is bool, lambda v: v is False))
    add('wrapintolist', [()], lambda v: None if v is None else [v])
    add('sqrt', [()], on(num, _sqrt))
    add('abs', [()], on(num, lambda v: -v if v < 0 else v))
    add('ceil', [()], on(num, lambda v: -int(-v // 1)))
    add('floor', [()], on(num, lambda v: int(v // 1)))
    add('round', [()], on(num, lambda v: v if type(v) is int
                          else half_even(v)))
    for n, u in UNITS.items():
        add('tobo' + n, [()], on(
            day if n in ('day', 'mon', 'year') else dtm,
            lambda v, u=u: begin(v, u)))
        add('tonext' + n, [()], on(
            day if n in ('day', 'mon', 'year') else dtm,
            lambda v, u=u: after(v, u)))
    add('truncate', [(2,), (0,), (-1,)], on(seq, lambda v, p: v[:p]))
    add('trim', [()], on(txt, str.strip))
    add('totitle', [()], on(txt, str.title))
    add('tocap', [()], on(txt, str.capitalize))
    add('tolower', [()], on(txt, str.lower))
    add('toupper', [()], on(txt, str.upper))
    add('padstart', [('x', 4), ('x', 0)], on(
        txt, lambda v, a, b: v.rjust(b, a)))
    add('padend', [('x', 4), ('x', 0)], on(
        txt, lambda v, a, b: v.ljust(b, a)))
    add('tolist', [()], on(
        lambda v: type(v) in (str, tuple), list))
    add('tobool', [()], bool)
    add('toint', [()], on(lambda v: type(v) in (str, bool), int))
    add('tofloat', [()], on(lambda v: type(v) in (str, bool), float))
    add('tostr', [()], on(lambda v: type(v) in (int, float, bool), str))
    add('replace', [('a', 'Q'), ('X', ''), ('aa', 'b')], on(
        txt, lambda v, a, b: b.join(v.split(a))))
    add('replacer', [('[ab]+', 'Q'), ('^', '_'), (r'(\w)', r'\1\1')], on(
        txt, lambda v, a, b: re.sub(a, b, v)))
    add('split', [(',',), ('a',)], on(txt, lambda v, p: v.split(p)))
    add('join', [('-',), ('',)], on(lst, lambda v, p: p.join(v)))
    add('reverse', [()], on(seq, lambda v: list(reversed(v)) if lst(v)
                            else ''.join(reversed(v))))
    add('transform', [(lambda v: [v],)],
        lambda v, p: None if v is None else [v])
    t['t-ctx'] = ([()], lambda c: c.t(lambda v, ctx: (ctx.val, v)[1:]),
                  lambda v: None if v is None else (v,))
    t['t-types'] = ([()], lambda c: c.t(types.any.add(1).tostr),
                    on(lambda v: num(v) or type(v) is bool,
                       lambda v: str(v + 1) if num(v) else str(v)))
    t['t-null'] = ([()], lambda c: c.t(types.default('none')),
                   lambda v: 'none' if v is None else v)
    add('at', [(0,)], lambda v, p: v if v is None else v[p])
    return t


TABLE = table()
PARAMETRIC = {'add', 'sub', 'mul', 'div', 'mod', 'pow', 'insertat', 'append',
              'prepend', 'upperbond', 'lowerbond', 'truncate', 'padstart',
              'padend', 'replace', 'replacer', 'split', 'join', 'at'}
FORMS = ['const', 'fn0', 'fn1', 'fn2', 'types']


def shaped(form, args):
    if form == 'const':
        return args
    if form == 'fn0':
        return [(lambda a: lambda: a)(a) for a in args]
    if form == 'fn1':
        return [(lambda n: lambda o: getattr(o, n))(f'p{i}')
                for i in range(len(args))]
    if form == 'fn2':
        return [(lambda n: lambda o, ctx: getattr(ctx.owner, n)
                 if o is ctx.owner else 'wrong owner')(f'p{i}')
                for i in range(len(args))]
    return [types.this.fval(f'p{i}') for i in range(len(args))]


def declare(chain):
    g = f'verif-c13-{next(COUNT)}'

    @jsonclass(class_graph=g)
    class Inner:
        p0: Any = types.any
        p1: Any = types.any
        in_val: Any = chain

    @jsonclass(class_graph=g)
    class Holder:
        p0: Any = types.any
        p1: Any = types.any
        my_val: Any = chain
        my_list: Any = types.listof(chain)
        my_dict: Any = types.dictof(chain)
        deep: Any = types.dictof(types.listof(chain))
        inner: Any = types.objof('Inner')
        other: Any = types.any
    return Holder


def flat(v):
    """Plain content with exact scalar types."""
    if isinstance(v, list):
        return ['list', *map(flat, v)]
    if isinstance(v, dict):
        return ['dict', *((k, flat(x)) for k, x in v.items())]
    if isinstance(v, tuple):
        return ['tuple', *map(flat, v)]
    return type(v).__name__, repr(v + 0.0 if type(v) is float else v)


def attempt(f, *a):
    try:
        return ('ok', f(*a))
    except ValidationException:
        return ('invalid', None)
    except Exception as e:
        return ('raises', type(e).__name__)


PLACES = {
    'my_val': (lambda v: {'my_val': v}, lambda o: o.my_val),
    'my_list': (lambda v: {'my_list': [v, v]}, lambda o: o.my_list[1]),
    'my_dict': (lambda v: {'my_dict': {'k': v}}, lambda o: o.my_dict['k']),
    'deep': (lambda v: {'deep': {'k': [v]}}, lambda o: o.deep['k'][0]),
    'inner': (lambda v: {'inner': {'in_val': v}}, lambda o: o.inner.in_val),
}


def single_cases():
    for name, (plist, build, oracle) in TABLE.items():
        for i, args in enumerate(plist):
            forms = FORMS if name in PARAMETRIC else ['const']
            for form in forms:
                yield [name, i, form], single_case(name, args, form, build,
                                                   oracle)


def single_case(name, args, form, build, oracle):
    def go():
        H = declare(build(types.any, *shaped(form, args)))
        ps = {f'p{i}': a for i, a in enumerate(args)} \
            if name in PARAMETRIC else {}
        seen = []
        for v in VALUES:
            want = attempt(oracle, deepcopy(v), *args)
            seen.append(repr(want))
            if want[0] == 'raises':
                continue               # outside the domain of the operation
            for place, (wrap, read) in PLACES.items():
                for how in ('init', 'set', 'reset'):
                    if how == 'reset' and place != 'my_val':
                        continue
                    if how == 'init':
                        given = {**ps, **wrap(deepcopy(v)), 'other': v}
                        if place == 'inner':
                            given['inner'].update(ps)
                        before = deepcopy(given)

                        def act():
                            return H(**given)
                    else:
                        if want[0] != 'ok' and how == 'reset':
                            continue
                        given = wrap(deepcopy(v))
                        if place == 'inner':
                            given['inner'].update(ps)
                        before = deepcopy(given)

                        def act():
                            o = H(**ps, other=v)
                            o.set(**given)
                            if how == 'reset':
                                o.set(**given)
                            return o
                    got = attempt(act)
                    eq(flat(given), flat(before), f'{name} on {v!r} at '
                       f'{place} by {how} changed the caller\'s input')
                    if want[0] == 'invalid':
                        eq(got[0], 'invalid', f'{name}{args} on {v!r}')
                        continue
                    eq(got[0], 'ok', f'{name}{args!r} on {v!r} at {place}: '
                       f'{got}')
                    eq(flat(read(got[1])), flat(want[1]),
                       f'{name} on {v!r} at {place} by {how}')
                    eq(flat(got[1].other), flat(v), 'other field')
        return repr(seen)
    return go


def pair_cases():
    names = list(TABLE)
    for a, b in product(names, repeat=2):
        yield [a, b], pair_case([a, b])


def triple_cases():
    some = ['add', 'mul', 'abs', 'floor', 'tostr', 'reverse', 'append',
            'split', 'join', 'len', 'toupper', 'trim', 'truncate',
            'wrapintolist', 'tobool', 'inverse', 'toboday', 'tonextmon',
            'toint', 'map-types']
    for names in product(some, repeat=3):
        yield list(names), pair_case(names)


def pair_case(names):
    def go():
        chain = types.any
        for n in names:
            plist, build, _ = TABLE[n]
            chain = build(chain, *plist[-1])

        @jsonclass(class_graph=f'verif-c13-{next(COUNT)}')
        class P:
            val: Any = chain
        seen = []
        for v in VALUES:
            want = ('ok', deepcopy(v))
            for n in names:
                plist, _, oracle = TABLE[n]
                if want[0] == 'ok':
                    want = attempt(oracle, want[1], *plist[-1])
            seen.append(want[0])
            if want[0] == 'raises':
                continue
            given = deepcopy(v)
            got = attempt(lambda: P(val=given).val)
            eq(got[0], want[0], f'{names} on {v!r}: {got} {want}')
            if want[0] == 'ok':
                eq(flat(got[1]), flat(want[1]), f'{names} on {v!r}')
            eq(flat(given), flat(v), 'input changed')
        return repr(seen)
    return go


class Hue(PyEnum):
    RED = 1
    DARK_BLUE = 'b'
    GREEN = 'RED'


def enum_cases():
    ins = {'name': lambda t: t, 'inputname': lambda t: t.inputname,
           'inputlname': lambda t: t.inputlname,
           'inputvalue': lambda t: t.inputvalue,
           'inputall': lambda t: t.inputall}
    outs = {'name': lambda t: t, 'outputname': lambda t: t.outputname,
            'outputlname': lambda t: t.outputlname,
            'outputvalue': lambda t: t.outputvalue}
    for (i, bi), (o, bo), ref in product(ins.items(), outs.items(),
                                         ('class', 'text')):
        def go(i=i, bi=bi, o=o, bo=bo, ref=ref):
            from jsonclasses import jsonenum
            g = f'verif-c13-{next(COUNT)}'
            cls = Hue
            if ref == 'text':
                cls = jsonenum(class_graph=g)(PyEnum('Hue', {
                    m.name: m.value for m in Hue}))
            chain = bo(bi(types.enum(cls if ref == 'class' else 'Hue')))

            @jsonclass(class_graph=g)
            class E:
                e: Any = chain
                es: Any = types.listof(chain)
                d: Any = types.dictof(chain)
            byname = {m.name: m for m in cls}
            bylow = {m.name.lower(): m for m in cls}
            byval = {m.value: m for m in cls}
            for v in ['RED', 'red', 'DARK_BLUE', 'dark_blue', 'GREEN',
                      'green', 1, 'b', '1', 'nope', '', 0, None, True, 1.0,
                      *cls]:
                if v is None:
                    want = None
                elif isinstance(v, cls):
                    want = v
                else:
                    cands = []
                    if i in ('inputvalue', 'inputall'):
                        cands.append(byval.get(v))
                    cands.append(byname.get(v))
                    if i in ('inputlname', 'inputall'):
                        cands.append(bylow.get(v))
                        if v in byname and v not in bylow:
                            continue     # other casings are tolerated
                    want = next((c for c in cands if c is not None), 'bad')
                got = [attempt(lambda: E(e=v).e),
                       attempt(lambda: E(es=[v]).es[0]),
                       attempt(lambda: E(d={'k': v}).d['k'])]
                for x in got:
                    if want == 'bad':
                        eq(x[0], 'invalid', f'{v!r} as {i} gave {x}')
                    else:
                        eq(x[0], 'ok', f'{v!r} as {i} gave {x}')
                        expect(x[1] is want, f'{v!r} as {i}: {x}')
                if want == 'bad':
                    continue
                out = {'name': lambda m: m.name, 'outputname':
                       lambda m: m.name, 'outputlname':
                       lambda m: m.name.lower(), 'outputvalue':
                       lambda m: m.value}[o]
                js = E(e=v, es=[v], d={'k': v}).tojson(
                    ignore_writeonly=False)
                ex = None if want is None else out(want)
                if want is None:
                    js.setdefault('e', None)
                eq(js, {'e': ex, 'es': [ex], 'd': {'k': ex}}, f'{v!r} {o}')
        yield [i, o, ref], go


def moment_cases():
    """Text and date forms of date and datetime fields."""
    strs = {'2020-02-29': T(2020, 2, 29), '2020-12-31T23:59:59':
            T(2020, 12, 31, 23, 59, 59),
            '2020-12-31T23:59:59.123Z': T(2020, 12, 31, 23, 59, 59, 123000),
            '2020-12-31T23:59:59.123456': T(2020, 12, 31, 23, 59, 59, 123456),
            '2020-12-31T23:59:59+05:00': T(2020, 12, 31, 18, 59, 59),
            '2020-01-01T01:00:00.000-02:30': T(2020, 1, 1, 3, 30),
            '2020-01-01T01:00:00Z': T(2020, 1, 1, 1)}
    bad = ['', 'x', '2020-13-01', '2021-02-29', '2020-02-30T00:00:00Z',
           '20-01-01', '2020/01/01']

    @jsonclass(class_graph=f'verif-c13-{next(COUNT)}')
    class M:
        t: Any = types.datetime
        d: Any = types.date
        ts: Any = types.listof(types.datetime)
        ds: Any = types.dictof(types.date)
        ft: Any = types.datetime.fmtd('%Y %m %d %H %M %S')
        fd: Any = types.date.fmtd(lambda: '%d/%m/%Y')
        fa: Any = types.any.fmtd(types.default('%j'))
        fm: Any = types.int.fmt(lambda v: f'<{v}>')
        fm2: Any = types.int.fmt(lambda v, ctx: f'<{ctx.val}{v}>')
        fmt: Any = types.int.fmt(types.tostr.append('!'))
    for s, m in strs.items():
        def go(s=s, m=m):
            aware = m.replace(tzinfo=UTC)
            for v in (M(t=s).t, M(ts=[s]).ts[0]):
                expect(v == aware and v.utcoffset() == timedelta(0),
                       f'{s} read as {v!r}')
            day = date(int(s[:4]), int(s[5:7]), int(s[8:10]))
            for v in (M(d=s).d, M(ds={'k': s}).ds['k']):
                expect(type(v) is date and v == day, f'{s} read as {v!r}')
            o = M(t=s, d=s, ft=s, fd=s)
            js = o.tojson()
            eq(js['t'], m.strftime('%Y-%m-%dT%H:%M:%S') + (
                '.%03dZ' % (m.microsecond // 1000) if m.microsecond
                else 'Z'), 'datetime output')
            eq(js['d'], day.strftime('%Y-%m-%dT00:00:00.000Z'), 'date output')
            eq(js['ft'], m.strftime('%Y %m %d %H %M %S'), 'fmtd')
            eq(js['fd'], day.strftime('%d/%m/%Y'), 'fmtd')
        yield ['text', s], go
    for s in bad:
        def go(s=s):
            for kw in ({'t': s}, {'d': s}, {'ts': [s]}, {'ds': {'k': s}}):
                eq(attempt(lambda: M(**kw))[0], 'invalid', repr(kw))
        yield ['bad', s], go
    for v in VALUES:
        if type(v) is date:
            def go(v=v):
                o = M(t=v, d=v, fa=v)
                eq(o.t, T(v.year, v.month, v.day, tzinfo=UTC), 'date in time')
                eq(o.d, v, 'date')
                eq(o.tojson()['fa'], v.strftime('%j'), 'fmtd')
            yield ['date', repr(v)], go
        if type(v) is datetime:
            def go(v=v):
                o = M(t=v, d=v, ft=v)
                eq(o.t, v, 'time')
                expect(type(o.d) is date and o.d == date(
                    v.year, v.month, v.day), f'{o.d!r}')
                u = v.astimezone(UTC) if v.tzinfo else v
                eq(o.tojson()['ft'], u.strftime('%Y %m %d %H %M %S'), 'fmtd')
            yield ['datetime', repr(v)], go
    for n in (None, 0, 5, -1):
        def go(n=n):
            o = M(fm=n, fm2=n, fmt=n)
            js = o.tojson()
            if n is None:
                eq((js.get('fm'), js.get('fm2')), (None, None), 'null format')
            else:
                eq((js['fm'], js['fm2'], js['fmt']),
                   (f'<{n}>', f'<{n}{n}>', f'{n}!'), 'formats')
            eq((o.fm, o.fm2, o.fmt), (n, n, n), 'formatting changed values')
        yield ['fmt', n], go


def owner_cases():
    """Pipelines starting at the owner, the operator or a stored password."""
    g = f'verif-c13-{next(COUNT)}'
    calls = []

    @jsonclass(class_graph=g)
    class W:
        id: str = types.str.primary
        base: Any = types.any
        ref: Any = types.objof('W').linkto
        me: Any = types.any.t(types.this)
        val: Any = types.any.t(types.this.fval('base'))
        fn: Any = types.any.t(types.this.fval(lambda: 'base').add(1))
        of_ref: Any = types.any.t(types.this.fval('ref').fval('base'))
        op: Any = types.any.t(types.getop)
        dflt: Any = types.any.t(lambda v: calls.append(v) or v)

    @jsonclass(class_graph=g)
    class A:
        base: Any = types.any
        asg: Any = types.any.t(types.this.assign('base', 9).fval('base'))
        asf: Any = types.any.t(types.this.assign('base', lambda: 8))
    for base in (None, 0, 5):
        def go(base=base):
            o = W(id='1', base=base)
            o.set(me='x', val='x', fn='x')
            expect(o.me is o, 'this is not the owner')
            eq(o.val, base, 'fval')
            eq(o.fn, base if base is None else base + 1, 'fval by function')
            o.set(of_ref='x')
            eq(o.of_ref, None, 'fval of nothing')
            p = W(id='2', base=base)
            o.ref = p
            o.set(of_ref='y')
            eq(o.of_ref, base, 'fval of reference')
            o.set(op='x')
            eq(o.op, None, 'no operator')
            o.opby('me')
            o.set(op='x')
            eq(o.op, 'me', 'operator')
            a, b = A(), A()
            b.base = base
            a.set(asg='x')
            eq((a.asg, a.base, b.base), (9, 9, base), 'assign')
            a.set(asf='x')
            eq((a.asf is a, a.base, b.base), (True, 8, base), 'assign')
            del calls[:]
            o.set(dflt=1)
            eq(calls, [1], 'transformer calls')
            o.set(dflt=None)
            eq(calls, [1], 'transformer called with null')
        yield ['owner', base], go
    for ln in (0, 1, 10, 11, 95, 200):
        def go(ln=ln):
            import string
            alpha = {'randomdigits': string.digits,
                     'randomalnums': string.ascii_letters + string.digits,
                     'randomalnumpuncs': string.ascii_letters +
                     string.digits + string.punctuation}
            for n, chars in alpha.items():
                for form in ('const', 'fn0', 'types'):
                    p = {'const': ln, 'fn0': lambda: ln,
                         'types': types.default(ln)}[form]

                    @jsonclass(class_graph=f'verif-c13-{next(COUNT)}')
                    class R:
                        r: Any = getattr(types.str, n)(p)
                    seen = set()
                    for given in ({}, {'r': 'x'}, {'r': None}):
                        v = R(**given).r
                        expect(type(v) is str and len(v) == ln and
                               set(v) <= set(chars), f'{n} {v!r}')
                        seen.add(v)
                    expect(len(seen) > 1 or ln <= 10, f'{n} repeats {seen}')
        yield ['random', ln], go
    for a, b in ((0, 1), (-3, 4), (0, 2), (5, 5), (6, 5)):
        def go(a=a, b=b):
            @jsonclass(class_graph=f'verif-c13-{next(COUNT)}')
            class R:
                i: Any = types.int.randomint(a, b)

            @jsonclass(class_graph=f'verif-c13-{next(COUNT)}')
            class F:
                f: Any = types.float.randomfloat(a, b)
            if a > b:
                eq(attempt(R)[0], 'invalid', 'empty range')
            elif a < b:
                for _ in range(20):
                    v = R().i
                    expect(type(v) is int and a <= v <= b, f'{v}')
            if a <= b:
                v = F(f=7.0).f
                expect(type(v) is float and a <= v <= b, f'{v}')
        yield ['randomint', a, b], go
    for pw in ('a', 'päss'):
        def go(pw=pw):
            from bcrypt import checkpw
            g = f'verif-c13-{next(COUNT)}'

            @jsonclass(class_graph=g)
            class S:
                pw: Any = types.str.salt
                n: Any = types.any.salt
            o = S(pw=pw, n=5)
            expect(o.pw != pw and checkpw(pw.encode(), o.pw.encode()),
                   f'salted {o.pw}')
            expect(not checkpw(b'other', o.pw.encode()), 'matches any')
            eq((o.n, S().pw), (5, None), 'not text')
        yield ['salt', pw], go


def colour_cases():
    """A leading number sign is taken off a colour, and only one."""
    @jsonclass(class_graph=f'verif-c13-{next(COUNT)}')
    class C:
        c: Any = types.str.hexcolor
        cs: Any = types.listof(types.str.hexcolor)
        up: Any = types.str.hexcolor.toupper

    def ok(v):
        return len(v) == 6 and not v.strip('0123456789abcdefABCDEF')
    bodies = ['', 'a1B2c3', 'a1B2c', 'a1B2c3d', 'g00000', '00000 ', '000000',
              'ABCDEF', 'a1#2c3', '#1B2c3']
    for v in [p + b for p in ('', '#', '##', ' #') for b in bodies]:
        def go(v=v):
            want = v[1:] if v[:1] == '#' else v
            o = C(c=v, cs=[v, 'ffffff', v])
            eq((o.c, list(o.cs)), (want, [want, 'ffffff', want]), v)
            got = attempt(lambda: o.validate(all_fields=True))
            eq(got[0], 'ok' if ok(want) else 'invalid', v)
            got = attempt(lambda: C(up=v).up)
            eq(got if ok(want) else got[0],
               ('ok', want.upper()) if ok(want) else 'invalid', v)
            eq(o.set(c='#' + v).c, v, 'set again')
        yield [v], go


class MyList(list):
    pass


class MyDict(dict):
    pass


def container_cases():
    """Any kind of list or dict as input is transformed like a plain one."""
    g = 'verif-c13-containers'

    @jsonenum(class_graph=g)
    class Tone(PyEnum):
        LOW = 1
        HIGH = 2

    @jsonclass(class_graph=g)
    class Bit:
        d: Any = types.date
        n: Any = types.int.add(1)

    @jsonclass(class_graph=g)
    class Bag:
        any_list: Any = types.listof(types.any)
        any_dict: Any = types.dictof(types.any)

    leaf = {'date': (types.date, '2020-01-02'),
            'enum': (types.enum('Tone'), 'HIGH'),
            'obj': (types.objof('Bit'), {'d': '2020-01-02', 'n': 3}),
            'str': (types.str.trim, ' a '), 'int': (types.int.add(2), 5)}
    shapes = {'L': (types.listof, lambda x: [x, x]),
              'D': (types.dictof, lambda x: {'a': x, 'b': x})}

    def plain(v):
        if isinstance(v, list):
            return ['list', [plain(x) for x in v]]
        if isinstance(v, dict):
            return ['dict', {k: plain(x) for k, x in v.items()}]
        if isinstance(v, Bit):
            return ['Bit', plain(v.d), v.n]
        return [type(v).__name__, str(v)]

    def rewrap(v, kind, depth):
        if kind == 'owned' and depth == 0:
            if isinstance(v, list):
                return Bag().update(any_list=v).any_list
            return Bag().update(any_dict=v).any_dict
        make = {'owned': (list, dict), 'sub': (MyList, MyDict),
                'ordered': (MyList, OrderedDict)}[kind]
        if isinstance(v, list):
            return make[0](rewrap(x, kind, depth + 1) for x in v)
        if isinstance(v, dict):
            return make[1]((k, rewrap(x, kind, depth + 1))
                           for k, x in v.items())
        return v
    for name, word in product(leaf, ('L', 'D', 'LL', 'LD', 'DL', 'DD')):
        t, value = leaf[name]
        for c in reversed(word):
            t, value = shapes[c][0](t), shapes[c][1](value)
        cls = jsonclass(class_graph=g)(type(f'C{name}{word}', (), {
            '__annotations__': {'f': Any}, '__module__': __name__, 'f': t}))
        for kind, via in product(('owned', 'sub', 'ordered'),
                                 ('init', 'set')):
            def go(cls=cls, kind=kind, via=via, value=value):
                given = rewrap(value, kind, 0)
                before = plain(given)
                want = plain(cls(f=value).f)
                o = cls(f=given) if via == 'init' else cls().set(f=given)
                eq(plain(o.f), want, 'transformed')
                eq(plain(given), before, 'the input')
                expect(o.f is not given, 'the input itself is stored')
            yield [name, word, kind, via], go


def scenarios(tier):
    s = [*enums(4, 'single', single_cases), *enums(6, 'pairs', pair_cases),
         Enum('enums', enum_cases), Enum('moments', moment_cases),
         Enum('owner', owner_cases),
         Enum('containers', container_cases), Enum('colours', colour_cases)]
    if tier == 'thorough':
        s += enums(16, 'triples', triple_cases)
    return s
