"""C23: equivalent type declarations behave the same."""
from __future__ import annotations
import datetime as dt
import enum
import re
import typing
from itertools import count, product
from jsonclasses import jsonclass, jsonenum, linkedby, linkto, types
from jsonclasses.excs import ValidationException
from mc.core import digest, enums, eq, expect

COUNT = count()


def opt(t):
    """All spellings of an optional t."""
    return [f'Optional[{t}]', f'{t} | None', f'None | {t}',
            f'Union[{t}, None]', f'Union[None, {t}]', f'Union[{t},None]']


# name -> (required spellings, optional spellings) ; the first one is the chain
def simple(name, chain=None):
    chain = chain or f'types.{name}'
    return ([f'{chain}.required', name], [chain, *opt(name)])


FORMS = {
    'str': simple('str'), 'int': simple('int'), 'float': simple('float'),
    'bool': simple('bool'), 'date': simple('date'),
    'datetime': simple('datetime'), 'any': simple('Any', 'types.any'),
    'enum': simple('E', "types.enum('E')"),
    'obj': simple('B', "types.objof('B')"),
}


def add(name, chain, spellings, optional=()):
    """Spellings: alternatives to one another."""
    FORMS[name] = ([f'{chain}.required', *spellings],
                   [chain, *[o for s in spellings[:2] for o in opt(s)],
                    *optional])


add('list', 'types.listof(types.int)', ['list[int]', 'List[int]'])
add('list-s', "types.listof('int')", ['list[int]', 'List[int]'])
add('list-c', 'types.listof(int)', ['list[int]'])
add('dict', 'types.dictof(types.int)', ['dict[str, int]', 'Dict[str, int]',
                                        'dict[str,int]'])
add('lists', 'types.listof(types.listof(types.int))',
    ['list[list[int]]', 'List[List[int]]'])
add('list-dict', 'types.listof(types.dictof(types.str))',
    ['list[dict[str, str]]', 'List[Dict[str, str]]'])
add('dict-list', 'types.dictof(types.listof(types.date))',
    ['dict[str, list[date]]', 'Dict[str, List[date]]'])
add('dicts', 'types.dictof(types.dictof(types.int))',
    ['dict[str, dict[str, int]]', 'Dict[str, Dict[str, int]]'])
add('list-any', 'types.listof(types.any)', ['list[Any]', 'List[Any]'])
add('list-enum', "types.listof(types.enum('E'))", ['list[E]', 'List[E]'])
add('list-obj', "types.listof(types.objof('B'))", ['list[B]', 'List[B]'])
add('list-name', "types.listof('B')", ['list[B]', 'List[B]'])
add('dict-obj', "types.dictof('B')", ['dict[str, B]', 'Dict[str, B]'])
add('union', 'types.union([types.int, types.str])',
    ['int | str', 'Union[int, str]', 'Union[int,str]', 'int|str'],
    ['int | str | None', 'None | int | str', 'int | None | str',
     'Union[int, str, None]', 'Union[int, None, str]',
     'Optional[Union[int, str]]', 'Optional[int | str]',
     'Union[int, Optional[str]]', 'Optional[int] | str'])
FORMS['union'] = (FORMS['union'][0],
                  [f for f in FORMS['union'][1]
                   if f not in ('Union[int, Optional[str]]',
                                'Optional[int] | str')])
add('union-list', 'types.union([types.listof(types.int), types.str])',
    ['list[int] | str', 'Union[list[int], str]'])
add('union-obj', "types.union(['B', 'str'])", ['B | str', 'Union[B, str]'])
add('union-enum', "types.union(['E', 'int'])", ['E | int', 'Union[E, int]'])
add('list-union', 'types.listof(types.union([types.int, types.str]))',
    ['list[int | str]', 'List[Union[int, str]]', 'list[Union[int, str]]'])
add('dict-union', "types.dictof(types.union([types.date, types.objof('B')]))",
    ['dict[str, date | B]', 'Dict[str, Union[date, B]]'])

B1, BAD = {'n': 1, 'e': 'X'}, {'n': 'no'}
VALUES = [
    None, 0, 1, -3, 2.5, 3.0, True, False, '', 'a', 'X', 'x', '5', '2.5',
    'true', '2020-02-29', '2020-02-29T10:20:30.400Z', '2020-02-29T10:20:30Z',
    dt.date(2021, 1, 2), dt.datetime(2021, 1, 2, 3, 4, 5), [], {}, [1], ['a'],
    [1, 'a'], [None], [[1]], [[1], ['a']], [[None]], [{'k': 'v'}],
    [{'k': 1}], {'k': 1}, {'k': 'v'}, {'k': None}, {'k': [1]},
    {'k': ['2020-02-29']}, {'k': {'j': 1}}, {'k': {'j': 'a'}}, ['X'], ['Q'],
    ['X', 'Y'], B1, BAD, {'zz': 1}, [B1], [BAD], [B1, 'a'], {'k': B1},
    {'k': BAD}, {'k': '2020-02-29'}, [B1, None], (1, 2), object,
]

HEAD = '''{future}
from typing import *
from enum import Enum
from datetime import date, datetime
from jsonclasses import jsonclass, jsonenum, types, linkto, linkedby
@jsonenum(class_graph=G)
class E(Enum):
    X = 1
    Y = 2
@jsonclass(class_graph=G)
class B:
    n: int
    e: Optional[E]
'''
USE = '''
@jsonclass(class_graph=G)
class T:
    f: {ann}
'''


def quoted(form):
    """Spellings of a forward reference without the future import."""
    out = {repr(form), form.replace('B', "'B'").replace('E', "'E'")
           if '|' not in form else repr(form)}
    return [q for q in sorted(out) if q != form]


def declare(form, style):
    g = f'verif-c23-{next(COUNT)}'
    ns = {'__name__': __name__, 'G': g}
    future = 'from __future__ import annotations' if style == 'future' else ''
    head, use = HEAD.format(future=future), ''
    if form.startswith('types.'):
        use = USE.format(ann='Any = ' + form)
    else:
        use = USE.format(ann=form)
    if style == 'late':
        # the class is declared before the ones it names
        a, b = head.split('@jsonenum')
        src = ('from __future__ import annotations' + a + use +
               '@jsonenum' + b)
    else:
        src = head + use
    exec(compile(src, '<verif-c23>', 'exec', dont_inherit=True), ns)
    return ns['T']


def show(x):
    """Observable value independent of the (per case) classes."""
    if isinstance(x, enum.Enum):
        return ['enum', x.name]
    if hasattr(x, 'cdef'):
        return ['object', type(x).__name__, x.n, show(x.e)]
    if isinstance(x, list):
        return [type(x).__name__, [show(v) for v in x]]
    if isinstance(x, dict):
        return [type(x).__name__, {k: show(v) for k, v in x.items()}]
    return [type(x).__name__, str(x)]


def attempt(fn):
    try:
        return fn()
    except ValidationException as e:
        return ['invalid', {k: v for k, v in e.keypath_messages.items()}]
    except Exception as e:
        return ['error', type(e).__name__]


def behaviour(cls):
    out = []
    for v in VALUES:
        row = []
        o = attempt(lambda: cls(f=v))
        row.append(o if isinstance(o, list) else show(o.f))
        if not isinstance(o, list):
            row.append(attempt(lambda: show(o.validate().f)))
            row.append(attempt(lambda: show(o.tojson())))
            row.append(attempt(lambda: show(o.tojson(output_null=True))))
            row.append(attempt(lambda: o._set_on_save() or show(o.f)))
        o = cls()
        row.append(attempt(lambda: show(o.set(f=v).f)))
        row.append(attempt(lambda: show(o.validate(all_fields=True).f)))
        o = attempt(lambda: cls().update(f=v))
        row.append(attempt(lambda: show(o.validate().f)))
        out.append(row)
    o = cls()
    out.append([attempt(lambda: show(o.validate().f)), show(o.tojson())])
    return out


REF = {}


def reference(name, which):
    key = name, which
    if key not in REF:
        REF[key] = behaviour(declare(FORMS[name][which][0], 'future'))
    return REF[key]


def styles(form):
    yield form, 'future'
    yield form, 'plain'
    yield form, 'late'
    if not form.startswith('types.'):
        for q in quoted(form):
            yield q, 'plain'


def run(name, which, form, style):
    if style == 'late' and form.startswith('types.') is False and False:
        return
    want = reference(name, which)
    got = behaviour(declare(form, style))
    for v, a, b in zip([*VALUES, 'missing'], got, want):
        eq(a, b, f'{form!r} ({style}) for {v!r}')
    return digest(got)


def forms(thorough):
    def cases():
        for name, (req, optional) in FORMS.items():
            for which, fs in ((0, req), (1, optional)):
                for form in fs:
                    for f, style in styles(form):
                        yield ([name, which, f, style],
                               lambda a=(name, which, f, style): run(*a))
    return cases


LINKS = {
    'one-many': (
        ['types.objof("P").linkto', 'Annotated[Optional[P], linkto]',
         'Optional[Annotated[P, linkto]]', 'Annotated[P, linkto] | None',
         'Annotated[P | None, linkto]'],
        ['types.listof("C").linkedby("p").nonnull',
         "Annotated[Optional[list[C]], linkedby('p')]",
         "Annotated[list[C] | None, linkedby('p')]",
         "Optional[Annotated[List[C], linkedby('p')]]"]),
    'one-one': (
        ['types.objof("P").linkto', 'Annotated[Optional[P], linkto]'],
        ['types.objof("C").linkedby("p")',
         "Annotated[Optional[C], linkedby('p')]",
         "Annotated[C, linkedby('p')] | None"]),
    'many-many': (
        ['types.listof("P").linkedthru("cs").nonnull',
         "Annotated[Optional[list[P]], linkedthru('cs')]",
         "Optional[Annotated[List[P], linkedthru('cs')]]",
         "Annotated[list[P] | None, linkedthru('cs')]"],
        ['types.listof("C").linkedthru("p").nonnull',
         "Annotated[Optional[list[C]], linkedthru('p')]",
         "Annotated[list[C], linkedthru('p')] | None"]),
}
LINKS['many-local'] = (
    ['types.listof("P").linkto', 'Annotated[Optional[list[P]], linkto]',
     'Annotated[list[P] | None, linkto]', 'Annotated[List[P], linkto] | None',
     'Optional[Annotated[list[P], linkto]]'],
    ['types.listof("C").linkedby("p").nonnull',
     "Annotated[Optional[list[C]], linkedby('p')]"])
LINKS['many-local-required'] = (
    ['types.listof("P").linkto.required', 'Annotated[list[P], linkto]',
     'Annotated[List[P], linkto]'],
    ['types.listof("C").nonnull.linkedby("p").required',
     "Annotated[list[C], linkedby('p')]"])
# the same links, required
LINKS['required'] = (
    ['types.objof("P").linkto.required', 'Annotated[P, linkto]'],
    ['types.listof("C").nonnull.linkedby("p").required',
     "Annotated[list[C], linkedby('p')]",
     "Annotated[List[C], linkedby('p')]"])
LINKS['required-one'] = (
    ['types.objof("P").linkto.required', 'Annotated[P, linkto]'],
    ['types.objof("C").linkedby("p").required',
     "Annotated[C, linkedby('p')]"])
LHEAD = '''{future}
from typing import *
from jsonclasses import jsonclass, types, linkto, linkedby, linkedthru
'''
CC = '''
@jsonclass(class_graph=G)
class C:
    id: int = types.int.primary
    p: {c}
'''
PP = '''
@jsonclass(class_graph=G)
class P:
    id: int = types.int.primary
    cs: {p}
'''


def link(c, p, order, style='future'):
    if style == 'plain':
        c, p = [re.sub(r'\b([CP])\b', r"'\1'", f)
                if not f.startswith('types') else f for f in (c, p)]
        c, p = [re.sub(r"('[CP]') \| None", r'Optional[\1]', f)
                for f in (c, p)]
    ns = {'__name__': __name__,
          'G': f'verif-c23-{next(COUNT)}'}
    parts = [CC.format(c='Any = ' + c if c.startswith('types') else c),
             PP.format(p='Any = ' + p if p.startswith('types') else p)]
    src = LHEAD.format(future='from __future__ import annotations'
                       if style == 'future' else '')
    exec(compile(src + ''.join(parts[::order]), '<verif-c23>', 'exec',
                 dont_inherit=True), ns)
    return ns['C'], ns['P']


def links_behaviour(C, P):
    out = []
    for make in [lambda: C(id=1, p={'id': 2}), lambda: C(id=1, p=[{'id': 2}]),
                 lambda: P(id=2, cs=[{'id': 1}, {'id': 3}]),
                 lambda: P(id=2, cs={'id': 1}), lambda: C(id=1, p_id=7),
                 lambda: C(id=1, pId=7), lambda: P(id=2),
                 lambda: C(id=1), lambda: C(id=1, p=None),
                 lambda: P(id=2, cs=[]), lambda: P(id=2, cs='x')]:
        o = attempt(make)
        if isinstance(o, list):
            out.append(o)
            continue
        out.append([attempt(lambda: o.validate().tojson()),
                    attempt(o.tojson),
                    attempt(lambda: o.tojson(reverse_relationship=True))])
    return out


def links(thorough):
    def run(kind, c, p, order, style):
        key = 'link', kind
        cs, ps = LINKS[kind]
        if key not in REF:
            REF[key] = links_behaviour(*link(cs[0], ps[0], 1))
        eq(links_behaviour(*link(c, p, order, style)), REF[key], f'{c} / {p}')

    def cases():
        for kind, (cs, ps) in LINKS.items():
            for c, p, order, style in product(cs, ps, (1, -1),
                                              ('future', 'plain')):
                yield [kind, c, p, order, style], \
                    lambda a=(kind, c, p, order, style): run(*a)
    return cases


def scenarios(tier):
    return [*enums(12, 'forms', forms(tier == 'thorough')),
            *enums(2, 'links', links(tier == 'thorough'))]
