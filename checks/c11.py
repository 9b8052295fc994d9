"""C11: JSON output fed back as input reproduces the object."""
from __future__ import annotations
from datetime import date, datetime, timedelta, timezone
from enum import Enum as PyEnum
from itertools import combinations, permutations, product
from json import dumps, loads
from typing import Any, Optional
from jsonclasses import jsonclass, jsonenum, types
from mc.core import Enum, Mismatch, enums, eq, expect

TZ = timezone(timedelta(hours=5, minutes=30))
TZW = timezone(timedelta(hours=-8))


def custom(k):
    return 'x-' + k.replace('_', '-')


def camel(s):
    head, *rest = s.split('_')
    return head + ''.join(r.capitalize() for r in rest)


CFG = {'camel': ({}, camel),
       'plain': ({'camelize_json_keys': False}, str),
       'identical': ({'output_key_strategy': 'identical'}, str),
       'camelize': ({'output_key_strategy': 'camelize'}, camel),
       'custom': ({'output_key_strategy': custom}, custom)}


class Color(PyEnum):
    RED = 1
    DARK_BLUE = 'blue'
    OFF = 0


def declare(name, kw):
    g = 'verif-c11-' + name
    deco = jsonclass(class_graph=g, **kw)
    jsonenum(class_graph=g)(PyEnum('Shade', {'PALE': 10, 'DEEP': 20}))

    class All:
        id: str = types.str.primary
        str_val: str = types.str
        int_val: int = types.int
        float_val: float = types.float
        bool_val: bool = types.bool
        date_val: date = types.date
        time_val: datetime = types.datetime
        enum_name: Color = types.enum(Color)
        enum_lname: Color = types.enum(Color).inputlname.outputlname
        enum_value: Color = types.enum(Color).inputvalue.outputvalue
        enum_all: Color = types.enum(Color).inputall.outputvalue
        enum_all2: Color = types.enum(Color).inputall.outputlname
        named_enum: Shade = types.enum('Shade')
        any_val: Any = types.any
        list_int: list[int] = types.listof(int)
        list_date: list[date] = types.listof(types.date)
        list_time: list = types.listof(types.datetime)
        list_enum: list = types.listof(types.enum(Color))
        dict_str: dict = types.dictof(str)
        dict_time: dict = types.dictof(types.datetime)
        nest_ld: list = types.listof(types.dictof(types.listof(types.date)))
        nest_dl: dict = types.dictof(types.listof(types.dictof(types.int)))
        uni: Any = types.union([types.date, types.int, types.str])
        uni_list: Any = types.union([types.listof(int), types.bool])
        emb_obj: Sub = types.objof('Sub')
        emb_list: list = types.listof('Sub')
        emb_dict: dict = types.dictof('Sub')
        anno_list: Optional[list[Optional[str]]]
        write_once: str = types.str.writeonce
        non_null: str = types.str.writenonnull
        nonnull_list: list = types.listof(int).nonnull
        null_list: list = types.listof(types.int.nullable)
        null_dict: dict = types.dictof(types.str.nullable)
        null_dates: list = types.listof(types.date.nullable)
        null_times: dict = types.dictof(types.datetime.nullable)
        null_enums: dict = types.dictof(types.enum(Color).nullable)
        null_subs: list = types.listof(types.objof('Sub').nullable)
        null_subd: dict = types.dictof(types.objof('Sub').nullable)
        null_nest: dict = types.dictof(types.listof(
            types.int.nullable).nullable)
        null_nest2: list = types.listof(types.dictof(
            types.bool.nullable).nullable)
        uni_items: list = types.listof(types.union([types.datetime, types.int,
                                                    types.str]))
        uni_dict: dict = types.dictof(types.union([types.bool, types.float]))

    class Sub:
        two_words: str
        when_at: datetime = types.datetime
        sub_list: list[Sub] = types.listof('Sub')
        color: Color = types.enum(Color)

    class Author:
        id: str = types.str.primary
        pen_name: str = types.str
        articles: list[Article] = types.listof('Article').linkedby('author')
        best_one: Best = types.objof('Best').linkedby('by_author')

    class Article:
        id: str = types.str.primary
        title: str = types.str
        author: Author = types.objof('Author').linkto
        main_tag: Tag = types.objof('Tag').linkto
        all_tags: list[Tag] = types.listof('Tag').linkto

    class Best:
        id: str = types.str.primary
        by_author: Author = types.objof('Author').linkto

    class Tag:
        id: str = types.str.primary
        label: str = types.str
    return {c.__name__: deco(c) for c in (All, Sub, Author, Article, Best, Tag)}


K = {n: declare(n, kw) for n, (kw, _) in CFG.items()}
T0 = datetime(2020, 2, 29, 23, 59, 59, 987654, tzinfo=timezone.utc)
TIMES = [T0, T0.replace(microsecond=0), T0.replace(microsecond=1000),
         T0.replace(microsecond=999999), datetime(1, 1, 1, tzinfo=timezone.utc),
         datetime(9999, 12, 31, 23, 59, 59, tzinfo=timezone.utc),
         datetime(2021, 6, 1, 3, 0, tzinfo=TZ),
         datetime(2021, 6, 1, 20, 30, 15, 250000, tzinfo=TZW),
         datetime(2022, 1, 1, 0, 0), datetime(2022, 1, 1, 1, 2, 3, 500000)]
DATES = [date(1, 1, 1), date(2020, 2, 29), date(9999, 12, 31)]
COLORS = list(Color)


def sub(k, **kw):
    return ('Sub', kw)


VALUES = {
    'str_val': ['', 'a', '日本', 'a.b', '2020-01-01', 'null', '"\\'],
    'int_val': [0, -1, 1, 2 ** 70],
    'float_val': [0.0, -1.5, 1e300, 0.1, 2.0],
    'bool_val': [True, False],
    'date_val': DATES, 'time_val': TIMES,
    'enum_name': COLORS, 'enum_lname': COLORS, 'enum_value': COLORS,
    'enum_all': COLORS, 'enum_all2': COLORS, 'named_enum': ['PALE', 'DEEP'],
    'any_val': [0, False, '', 'x', 1.5, [], {}, [1, [2, {'a_b': None}]],
                {'a_b': {'cD': [1]}}],
    'list_int': [[], [0], [1, 2, 3]],
    'list_date': [[], DATES], 'list_time': [TIMES[:3], TIMES[3:]],
    'list_enum': [[], COLORS], 'dict_str': [{}, {'a_b': 'x', 'cD': ''},
                                            {'': 'e', 'a.b': 'f'}],
    'dict_time': [{'my_key': TIMES[2]}],
    'nest_ld': [[], [{}], [{'a_k': DATES}, {'b': []}]],
    'nest_dl': [{}, {'a': []}, {'a_b': [{'c_d': 1}, {}], 'e': []}],
    'uni': [DATES[1], 0, 7, 'text', ''],
    'uni_list': [[], [1, 2], True, False],
    'emb_obj': [('Sub', {}), ('Sub', {'two_words': 'w', 'color': Color.OFF}),
                ('Sub', {'when_at': TIMES[0],
                         'sub_list': [('Sub', {'two_words': 'deep'})]})],
    'emb_list': [[], [('Sub', {}), ('Sub', {'two_words': 'x'})]],
    'emb_dict': [{}, {'k_k': ('Sub', {'color': Color.RED, 'sub_list': []})}],
    'anno_list': [[], ['a', None, '']],
    'write_once': ['', 'w'], 'non_null': ['', 'n'], 'nonnull_list': [[], [1]],
    'id': ['k', ''],
    'null_list': [[None], [0, None, 1]],
    'null_dict': [{'a': None}, {'a_b': None, 'c': '', 'd': 'x'}],
    'null_dates': [[None, DATES[0], None]],
    'null_times': [{'a': None, 'b': TIMES[0]}],
    'null_enums': [{'x': Color.OFF, 'y': None}],
    'null_subs': [[None], [('Sub', {}), None, ('Sub', {'two_words': 'q'})]],
    'null_subd': [{'a': None, 'b': ('Sub', {'sub_list': []})}],
    'null_nest': [{'a': None, 'b': [None], 'c': []}, {'a': [1, None]}],
    'null_nest2': [[None, {'a': None}, {}], [{'b': False}]],
    'uni_items': [[TIMES[0], 0, '', 'x', 5], []],
    'uni_dict': [{'a': True, 'b': 0.0, 'c': False, 'd': 1.5}],
}


def real(k, v):
    if isinstance(v, tuple):
        o = k[v[0]]()
        o.update(**{n: real(k, x) for n, x in v[1].items()})
        return o
    if isinstance(v, list):
        return [real(k, x) for x in v]
    if isinstance(v, dict):
        return {n: real(k, x) for n, x in v.items()}
    return v


def norm(v, json_datetime=False):
    """Comparable value; datetimes as UTC milliseconds."""
    if hasattr(v, 'tojson') and hasattr(v.__class__, 'cdef'):
        return {f.name: norm(getattr(v, f.name)) for f in v.cdef.fields}
    if isinstance(v, datetime):
        if v.tzinfo is None:
            v = v.replace(tzinfo=timezone.utc)
        v = v.astimezone(timezone.utc)
        return ('T', v.replace(microsecond=v.microsecond // 1000 * 1000))
    if isinstance(v, list):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {n: norm(x) for n, x in v.items()}
    return v


def snapshot(o):
    return {f.name: norm(getattr(o, f.name)) for f in o.__class__.cdef.fields}


def check_trip(cfg, vals, null):
    k, key = K[cfg], CFG[cfg][1]
    vals = dict(vals)
    if 'named_enum' in vals:
        E = k['All'].cdef.jconf.cgraph.fetch_enum('Shade')
        vals['named_enum'] = E[vals['named_enum']]
    o = k['All']()
    o.update(**{n: real(k, v) for n, v in vals.items()})
    want = snapshot(o)
    j = o.tojson(output_null=null)
    wire = loads(dumps(j))
    eq(wire, j, 'output is not plain JSON')
    names = {f.name for f in k['All'].cdef.fields}
    legal = {key(n) for n in names}
    expect(set(j) <= legal, f'output keys {set(j) - legal}')
    for n, v in vals.items():
        expect(key(n) in j, f'{n} missing in the output')
    for form in ('json', 'python', 'set', 'mixed'):
        inp = dict(wire)
        back = {key(n): n for n in names}
        if form == 'python':
            inp = {back[n]: v for n, v in inp.items()}
        if form == 'mixed':
            inp = {back[n] if i % 2 else n: v
                   for i, (n, v) in enumerate(inp.items())}
        p = k['All']().set(**inp) if form == 'set' else k['All'](**inp)
        eq(snapshot(p), want, f'values after a round trip ({form}) of {j}')
        eq(p.tojson(output_null=null), j, f'second output ({form})')
        if form == 'json':
            eq(p.is_valid, o.is_valid, 'validity')
    return repr(j)


def single_cases(cfg):
    def cases():
        for null in (False, True):
            yield [null], lambda null=null: check_trip(cfg, {}, null)
            for n, vs in VALUES.items():
                for i, v in enumerate(vs):
                    yield [null, n, i], lambda n=n, v=v, null=null: \
                        check_trip(cfg, {n: v}, null)
    return cases


def pair_cases(cfg, n):
    def cases():
        for a, b in combinations(VALUES, 2):
            for i, j in product(range(len(VALUES[a])), range(len(VALUES[b]))):
                if (i + j) % n:
                    continue
                yield [a, i, b, j], lambda a=a, b=b, i=i, j=j: check_trip(
                    cfg, {a: VALUES[a][i], b: VALUES[b][j]}, False)
    return cases


def graph(o, seen=None):
    """Every object reachable, with its values and keys."""
    seen = {} if seen is None else seen
    tag = (o.__class__.__name__, o.id)
    if tag in seen:
        return seen
    row = seen[tag] = {}
    for f in o.__class__.cdef.fields:
        v = getattr(o, f.name)
        if isinstance(v, list):
            row[f.name] = [x.id for x in v]
            for x in v:
                graph(x, seen)
        elif hasattr(v.__class__, 'cdef'):
            row[f.name] = v.id
            graph(v, seen)
        else:
            row[f.name] = v
        if f.name in ('author', 'main_tag', 'by_author'):
            row[f.name + '_id'] = getattr(o, f.name + '_id')
        if f.name == 'all_tags':
            row['all_tag_ids'] = sorted(o.all_tag_ids or [])
    return seen


def link_cases():
    for cfg in CFG:
        for bits in product((0, 1, 2), repeat=4):
            for null in (False, True):
                def go(cfg=cfg, bits=bits, null=null):
                    k = K[cfg]
                    na, best, main, tags = bits
                    au = k['Author'](id='a', pen_name='P')
                    arts = [k['Article'](id=f'r{i}', title=f't{i}')
                            for i in range(na)]
                    au.articles = arts
                    if best:
                        au.best_one = k['Best'](id='b')
                    if arts and main:
                        if main == 1:
                            arts[0].main_tag = k['Tag'](id='m', label='L')
                        else:
                            arts[0].main_tag_id = 'm'
                    if arts and tags:
                        if tags == 1:
                            arts[-1].all_tags = [k['Tag'](id='x'),
                                                 k['Tag'](id='y')]
                        else:
                            arts[-1].all_tag_ids = ['x', 'y']
                    j = au.tojson(output_null=null)
                    eq(loads(dumps(j)), j, 'output is not plain JSON')
                    p = k['Author'](**loads(dumps(j)))
                    g, h = graph(p), graph(au)
                    for d in (g, h):
                        for row in d.values():
                            for n in ('articles', 'all_tags'):
                                if n in row and not row[n]:
                                    row[n] = None
                    eq(g, h, f'linked objects after a round trip of {j}')
                    eq(p.tojson(output_null=null), j, 'second output')
                    return repr(j)
                yield [cfg, list(bits), null], go
        for start in ('article', 'best'):
            for main, tags, par in product((0, 1, 2), repeat=3):
                for null in (False, True):
                    def go(cfg=cfg, start=start, main=main, tags=tags,
                           par=par, null=null):
                        k = K[cfg]
                        pf = 'author' if start == 'article' else 'by_author'
                        o = k['Article' if start == 'article' else 'Best'](
                            id='o')
                        if par == 1:
                            setattr(o, pf, k['Author'](id='a', pen_name='P'))
                        elif par == 2:
                            setattr(o, pf + '_id', 'a')
                        if start == 'article':
                            if main == 1:
                                o.main_tag = k['Tag'](id='m', label='L')
                            elif main == 2:
                                o.main_tag_id = 'm'
                            if tags == 1:
                                o.all_tags = [k['Tag'](id='x', label='1')]
                            elif tags == 2:
                                o.all_tag_ids = ['x', 'y']
                        j = o.tojson(output_null=null)
                        p = o.__class__(**loads(dumps(j)))
                        eq(getattr(p, pf + '_id'), 'a' if par else None,
                           'parent key')
                        if par == 1:
                            eq(getattr(p, pf).pen_name, 'P', 'parent')
                        if start == 'article':
                            eq(p.main_tag_id, 'm' if main else None, 'key')
                            eq(list(p.all_tag_ids or []),
                               [[], ['x'], ['x', 'y']][tags], 'keys')
                            if main == 1:
                                eq(p.main_tag.label, 'L', 'tag')
                            if tags == 1:
                                eq([t.label for t in p.all_tags], ['1'],
                                   'tags')
                        j2 = p.tojson(output_null=null)
                        drop = [d.pop(CFG[cfg][1]('all_tags'), None) or None
                                for d in (j, j2)]
                        eq(drop[1], drop[0], 'second output')
                        eq(j2, j, 'second output')
                    yield [cfg, start, main, tags, par, null], go


def make_keys(name, kw, pt):
    deco = jsonclass(class_graph=f'verif-c11-keys-{name}-{pt}', **kw)
    pk = getattr(types, pt).primary

    class Owner:
        owner_id_no: Any = pk
        kept_things: Any = types.listof('Thing').linkedby('the_owner')

    class Thing:
        thing_no: Any = pk
        the_owner: Any = types.objof('Owner').linkto
        all_owners: Any = types.listof('Owner').linkto
    return deco(Owner), deco(Thing)


KEYS = {(n, pt): make_keys(n, kw, pt) for n, (kw, _) in CFG.items()
        for pt in ('int', 'str')}
PKS = {'int': [None, 0, 1, -1], 'str': [None, '', '0', 'a']}


def key_cases():
    """Falsy primary and reference keys survive, loaded or not."""
    def run(cfg, pt, one, many, loaded, null):
        owner, thing = KEYS[cfg, pt]
        t = thing(thing_no=PKS[pt][1])
        if loaded:
            made = {k: owner(owner_id_no=k) for k in {*many, one}
                    if k is not None}
            if one is not None:
                t.the_owner = made[one]
            t.all_owners = [made[k] for k in many]
        else:
            if one is not None:
                t.the_owner_id = one
            t.all_owner_ids = list(many)
        j = t.tojson(output_null=null)
        eq(loads(dumps(j)), j, 'output is not plain JSON')
        name = CFG[cfg][1]
        for n, want in (('thing_no', PKS[pt][1]), ('the_owner_id', one)):
            expect(null or want is not None or name(n) not in j, n)
            eq(j.get(name(n)), want, n)
        eq(j[name('all_owner_ids')], list(many), 'keys')
        p = thing(**loads(dumps(j)))
        eq(p.thing_no, PKS[pt][1], 'primary key')
        eq(p.the_owner_id, one, 'reference key')
        eq(list(p.all_owner_ids or []), list(many), 'reference keys')
        j2 = p.tojson(output_null=null)
        many_name = name('all_owners')
        for d in (j, j2):
            if not d.get(many_name):
                d.pop(many_name, None)
        eq(j2, j, 'second output')

    for cfg, pt in KEYS:
        lists = [c for r in range(3)
                 for c in permutations(PKS[pt][1:], r)]
        for one, many, loaded, null in product(
                PKS[pt], lists, (False, True), (False, True)):
            yield [cfg, pt, one, many, loaded, null], \
                lambda a=(cfg, pt, one, many, loaded, null): run(*a)


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for cfg in CFG:
        out.append(Enum('single/' + cfg, single_cases(cfg)))
        if deep or cfg in ('camel',):
            out += enums(8, 'pairs/' + cfg, pair_cases(cfg, 1))
    out += enums(3, 'links', link_cases)
    out += enums(2, 'keys', key_cases)
    return out
