"""C09: JSON output contains every readable field and no protected one."""
from __future__ import annotations
from datetime import date
from enum import Enum as PyEnum
from itertools import count, product
from json import dumps, loads
from typing import Any
from jsonclasses import jsonclass, types, JSONEncoder
from mc.core import Enum, enums, eq, expect

G = 'verif-c09'
N = count()
FIELDS = ['free_val', 'ro_val', 'wo_val', 'in_val', 'tmp_val', 'pre_wo',
          'pre_tmp', 'calc_wo']


def camel(s):
    head, *rest = s.split('_')
    return head + ''.join(r.capitalize() for r in rest)


def declare(graph, null):
    """The same classes with output_null off / on."""

    class Sec:
        free_val: Any = types.any
        ro_val: Any = types.any.readonly
        wo_val: Any = types.any.writeonly
        in_val: Any = types.any.internal
        tmp_val: Any = types.any.temp
        pre_wo: Any = types.writeonly.any.writeonce
        pre_tmp: Any = types.temp.writeonly.any
        calc_wo: Any = types.any.getter(lambda o: o.free_val).writeonly
        once_val: str = types.str.writeonce
        keep_val: str = types.str.writenonnull

    class Tgt:
        id: str = types.str.primary
        name: str

    class Outer:
        id: str = types.str.primary
        emb_obj: Sec = types.objof('Sec')
        emb_list: list[Sec] = types.listof('Sec')
        emb_dict: dict[str, Sec] = types.dictof('Sec')
        deep: dict = types.dictof(types.listof(types.dictof('Sec')))
        uni: Any = types.union([types.str, types.objof('Sec')])
        wo_obj: Sec = types.objof('Sec').writeonly
        wo_list: list[Sec] = types.listof('Sec').writeonly
        in_dict: dict[str, Sec] = types.dictof('Sec').internal
        tmp_list: list[Sec] = types.listof('Sec').temp
        link_one: LinkOne = types.objof('LinkOne').linkedby('outer')
        link_many: list[LinkMany] = types.listof('LinkMany').linkedby('outer')
        wo_link: WoLink = types.objof('WoLink').linkedby('outer').writeonly

    class LinkOne:
        id: str = types.str.primary
        outer: Outer = types.objof('Outer').linkto
        emb: Sec = types.objof('Sec')
        wo_val: str = types.str.writeonly

    class LinkMany:
        id: str = types.str.primary
        wo_val: str = types.str.writeonly
        emb: Sec = types.objof('Sec')
        outer: Outer = types.objof('Outer').linkto
        secret_ref: Tgt = types.objof('Tgt').linkto.writeonly
        secret_refs: list[Tgt] = types.listof('Tgt').linkto.writeonly

    class WoLink:
        id: str = types.str.primary
        outer: Outer = types.objof('Outer').linkto

    class Refs:
        id: str = types.str.primary
        free_ref: Tgt = types.objof('Tgt').linkto
        ro_ref: Tgt = types.objof('Tgt').linkto.readonly
        wo_ref: Tgt = types.objof('Tgt').linkto.writeonly
        in_ref: Tgt = types.objof('Tgt').linkto.internal
        free_tags: list[Tgt] = types.listof('Tgt').linkto
        wo_tags: list[Tgt] = types.listof('Tgt').linkto.writeonly

    return {c.__name__: jsonclass(class_graph=graph, output_null=null)(c)
            for c in (Sec, Tgt, Outer, LinkOne, LinkMany, WoLink, Refs)}


K = {False: declare(G + '-off', False), True: declare(G + '-on', True)}


def visible(field, reveal):
    if 'tmp' in field:
        return False
    return reveal or not ('wo' in field.split('_') or
                          field.startswith('in_'))


def expected_sec(vals, reveal, nulls):
    out = {}
    for n in FIELDS + ['once_val', 'keep_val']:
        v = vals.get(n) if n != 'calc_wo' else vals.get('free_val')
        if visible(n, reveal) and (nulls or v is not None):
            out[camel(n)] = v
    return out


def options():
    for reveal, null in product((False, True), (None, False, True)):
        yield reveal, null


def call(o, reveal, null, **kw):
    if reveal:
        kw['ignore_writeonly'] = True
    if null is not None:
        kw['output_null'] = null
    return o.tojson(**kw)


def make(k, vals):
    o = k['Sec']()
    o.update(**vals)
    return o


POS = ['root', 'emb_obj', 'emb_list', 'emb_dict', 'deep', 'uni', 'link_one',
       'link_many', 'link_many2']


def place(k, pos, sec):
    if pos == 'root':
        return sec
    o = k['Outer'](id='o')
    if pos in ('emb_obj', 'uni'):
        o.update(**{pos: sec})
    elif pos == 'emb_list':
        o.emb_list = [k['Sec'](), sec]
    elif pos == 'emb_dict':
        o.emb_dict = {'a_b': sec}
    elif pos == 'deep':
        o.deep = {'k': [{'z': sec}]}
    elif pos == 'link_one':
        x = k['LinkOne'](id='l', wo_val='s')
        x.emb = sec
        o.link_one = x
    else:
        x = k['LinkMany'](id='l', wo_val='s')
        x.emb = sec
        o.link_many = [k['LinkMany'](id='m', wo_val='s'), x] \
            if pos == 'link_many2' else [x]
    return o


def find(pos, j):
    path = {'root': [], 'emb_obj': ['embObj'], 'uni': ['uni'],
            'emb_list': ['embList', 1], 'emb_dict': ['embDict', 'a_b'],
            'deep': ['deep', 'k', 0, 'z'], 'link_one': ['linkOne', 'emb'],
            'link_many': ['linkMany', 0, 'emb'],
            'link_many2': ['linkMany', 1, 'emb']}[pos]
    for p in path:
        j = j[p]
    return j


def leaks(j, path=''):
    """Every string that only protected fields hold must not appear."""
    if isinstance(j, dict):
        for k, v in j.items():
            yield from leaks(v, f'{path}.{k}')
    elif isinstance(j, list):
        for i, v in enumerate(j):
            yield from leaks(v, f'{path}.{i}')
    elif isinstance(j, str) and j.startswith('SECRET'):
        yield path


def position_cases(pos):
    def cases():
        names = FIELDS[:-1]
        for dflt in (False, True):
            k = K[dflt]
            for mask in product((0, 1), repeat=len(names)):
                for reveal, null in options():
                    def go(k=k, dflt=dflt, mask=mask, reveal=reveal,
                           null=null):
                        vals = {n: f'v-{n}' for n, m in zip(names, mask) if m}
                        o = place(k, pos, make(k, vals))
                        nulls = dflt if null is None else null
                        j = call(o, reveal, null)
                        eq(find(pos, j), expected_sec(vals, reveal, nulls),
                           f'output at {pos} with {vals}')
                        return repr(j)
                    yield [dflt, list(mask), reveal, null], go
    return cases


def value_cases():
    """Each protected field with every kind of value, at every position."""
    values = [0, False, '', 'SECRET', ['SECRET'], {'a': 'SECRET'}, [], {},
              [['SECRET'], {'b': ['SECRET']}], 1.5]
    for pos in POS:
        for dflt in (False, True):
            for n in FIELDS[:-1]:
                for i, v in enumerate(values):
                    for reveal, null in options():
                        def go(pos=pos, dflt=dflt, n=n, v=v, reveal=reveal,
                               null=null):
                            k = K[dflt]
                            o = place(k, pos, make(k, {n: v}))
                            j = call(o, reveal, null)
                            nulls = dflt if null is None else null
                            eq(find(pos, j),
                               expected_sec({n: v}, reveal, nulls),
                               f'{n} = {v!r} at {pos}')
                            if not visible(n, reveal):
                                expect(not list(leaks(j)),
                                       f'{list(leaks(j))} leak {n}')
                        yield [pos, dflt, n, i, reveal, null], go


def container_cases():
    """Protected containers and references of objects."""
    names = ['wo_obj', 'wo_list', 'in_dict', 'tmp_list', 'wo_link']
    for dflt in (False, True):
        for mask in product((0, 1), repeat=len(names)):
            for rr in (False, True):
                for reveal, null in options():
                    def go(dflt=dflt, mask=mask, reveal=reveal, null=null,
                           rr=rr):
                        k = K[dflt]
                        o = k['Outer'](id='o')

                        def sec():
                            return make(k, {'free_val': 'SECRET'})
                        mk = {'wo_obj': sec, 'wo_list': lambda: [sec()],
                              'in_dict': lambda: {'k': sec()},
                              'tmp_list': lambda: [sec()],
                              'wo_link': lambda: k['WoLink'](id='SECRET')}
                        for n, m in zip(names, mask):
                            if m:
                                setattr(o, n, mk[n]())
                        j = call(o, reveal, null, reverse_relationship=rr)
                        nulls = dflt if null is None else null
                        for n, m in zip(names, mask):
                            want = visible(n, reveal) and bool(m or nulls)
                            expect((camel(n) in j) == want,
                                   f'{n} in output: {camel(n) in j}')
                        if not reveal:
                            expect(not list(leaks(j)), f'leak {j}')
                        elif mask[1]:
                            eq(j['woList'], [expected_sec(
                                {'free_val': 'SECRET'}, True, nulls)], 'list')
                    yield [dflt, list(mask), rr, reveal, null], go


def ref_cases():
    """Keys of references follow the rule of the reference."""
    names = ['free_ref', 'ro_ref', 'wo_ref', 'in_ref', 'free_tags', 'wo_tags']
    for dflt in (False, True):
        for states in product(('none', 'key', 'obj'), repeat=len(names)):
            if sum(s != 'none' for s in states) not in (0, 1, 6):
                continue
            for reveal, null in options():
                def go(dflt=dflt, states=states, reveal=reveal, null=null):
                    k = K[dflt]
                    o = k['Refs'](id='r')
                    for n, s in zip(names, states):
                        many = n.endswith('tags')
                        key = (n[:-1] + '_ids') if many else n + '_id'
                        if s == 'key':
                            setattr(o, key, ['K'] if many else 'K')
                        elif s == 'obj':
                            t = k['Tgt'](id='K', name='N')
                            setattr(o, n, [t] if many else t)
                    j = call(o, reveal, null)
                    nulls = dflt if null is None else null
                    for n, s in zip(names, states):
                        many = n.endswith('tags')
                        key = camel((n[:-1] + '_ids') if many else n + '_id')
                        vis = visible(n, reveal)
                        if s == 'none' and many:
                            expect(key not in j or vis, f'{key} in {j}')
                            expect(camel(n) not in j or vis, f'{n} in {j}')
                            continue
                        has = s != 'none'
                        expect((key in j) == (vis and (has or nulls)),
                               f'{key} in {j}')
                        if vis and has:
                            eq(j[key], ['K'] if many else 'K', key)
                        got = j.get(camel(n))
                        if s == 'obj' and vis:
                            w = {'id': 'K', 'name': 'N'}
                            eq(got, [w] if many else w, n)
                        else:
                            expect(not got, f'{n} is {got}')
                yield [dflt, list(states), reveal, null], go


def linked_cases():
    """Keys and fields of objects linked in from the other end."""
    for dflt in (False, True):
        for rr in (False, True):
            for start in ('outer', 'many'):
                for reveal, null in options():
                    def go(dflt=dflt, rr=rr, start=start, reveal=reveal,
                           null=null):
                        k = K[dflt]
                        o = k['Outer'](id='o')
                        m = k['LinkMany'](id='m', wo_val='SECRET')
                        m.secret_ref = k['Tgt'](id='SECRET1')
                        m.secret_refs = [k['Tgt'](id='SECRET2')]
                        o.link_many = [m]
                        j = call(o if start == 'outer' else m, reveal, null,
                                 reverse_relationship=rr)
                        if not reveal:
                            expect(not list(leaks(j)), f'leak in {j}')
                            for n in ('secretRefId', 'secretRefIds', 'woVal'):
                                expect(n not in repr(j), f'{n} in {j}')
                        if start == 'outer':
                            eq(j['linkMany'][0]['id'], 'm', 'linked object')
                            eq(j['linkMany'][0]['outerId'], 'o', 'its key')
                        else:
                            eq(j['outer']['id'], 'o', 'linked object')
                        e = loads(dumps(m, cls=JSONEncoder))
                        expect(not list(leaks(e)), f'encoder leaks {e}')
                        eq(e, loads(dumps(m.tojson())), 'JSON encoder')
                    yield [dflt, rr, start, reveal, null], go


# ---- every kind of field under every rule at every position ----------------

RULES = ['free', 'readonly', 'writeonly', 'internal', 'temp']
KINDS = {
    'f_str': lambda t: t.str, 'f_int': lambda t: t.int,
    'f_bool': lambda t: t.bool, 'f_float': lambda t: t.float,
    'f_date': lambda t: t.date, 'f_any': lambda t: t.any,
    'f_list': lambda t: t.listof(str), 'f_dict': lambda t: t.dictof(str),
    'f_union': lambda t: t.union([types.int, types.str]),
    'f_enum': lambda t: t.enum(Col), 'f_emb': lambda t: t.objof('E'),
    'f_embs': lambda t: t.listof('E'), 'f_embd': lambda t: t.dictof('E'),
    'f_inline': lambda t: t.shape({'a': types.str}) if hasattr(
        t, 'shape') else t.any,
    'k_one': lambda t: t.objof('T').linkto,
    'k_many': lambda t: t.listof('T').linkto,
    'b_one': lambda t: t.objof('T').linkedby('b_one_of'),
    'b_many': lambda t: t.listof('T').linkedby('b_many_of'),
    'x_many': lambda t: t.listof('T').linkedthru('x_many_of'),
}


class Col(PyEnum):
    A = 1


def declare_kinds(rule, front):
    g = f'{G}-kinds-{rule}-{front}'

    def typ(build):
        if rule == 'free':
            return build(types)
        if front:                      # the rule can stand before the type
            return build(getattr(types, rule))
        return getattr(build(types), rule)

    ns = {'__annotations__': {}, 'id': types.str.primary}
    for n, build in KINDS.items():
        if rule == 'temp' and n[0] != 'f':
            continue
        ns[n] = typ(build)
    if rule != 'temp':
        ns['f_calc'] = typ(lambda t: t.str.getter(lambda o: 'SECRET'))
    ns['in_one'] = types.objof('P').linkto
    ns['of_one'] = types.objof('P').linkedby('of_one')
    ns['thru'] = types.listof('P').linkedthru('thru')
    ns['__annotations__'] = {k: Any for k in ns if k != '__annotations__'}
    H = jsonclass(class_graph=g)(type('H', (), ns))

    @jsonclass(class_graph=g)
    class P:
        id: str = types.str.primary
        emb: Any = types.objof('H')
        embs: Any = types.listof('H')
        embd: Any = types.dictof('H')
        uni: Any = types.union([types.int, types.objof('H')])
        of_one: Any = types.objof('H').linkto
        in_one: Any = types.listof('H').linkedby('in_one')
        thru: Any = types.listof('H').linkedthru('thru')
        q: Any = types.objof('Q').linkedby('p')

    @jsonclass(class_graph=g)
    class Q:
        id: str = types.str.primary
        p: Any = types.objof('P').linkto
        emb: Any = types.objof('P')

    @jsonclass(class_graph=g)
    class E:
        val: str = types.str

    @jsonclass(class_graph=g)
    class T:
        id: str = types.str.primary
        b_one_of: Any = types.objof('H').linkto
        b_many_of: Any = types.objof('H').linkto
        x_many_of: Any = types.listof('H').linkedthru('x_many')
    return {'H': H, 'P': P, 'Q': Q, 'E': E, 'T': T, 'names': list(ns)}


def fill(k, o):
    def t():
        return k['T'](id='SECRET%d' % next(N))
    e = k['E']
    vals = {'f_str': 'SECRET', 'f_int': 5, 'f_bool': False, 'f_float': 0.0,
            'f_date': date(2020, 1, 1), 'f_any': {'a': ['SECRET']},
            'f_list': ['SECRET'], 'f_dict': {'a': 'SECRET'},
            'f_union': 'SECRET', 'f_enum': Col.A, 'f_emb': e(val='SECRET'),
            'f_embs': [e(val='SECRET')], 'f_embd': {'x': e(val='SECRET')},
            'f_inline': {'a': 'SECRET'}, 'k_one': t(), 'k_many': [t()],
            'b_one': t(), 'b_many': [t(), t()], 'x_many': [t()]}
    for n, v in vals.items():
        if n in k['names']:
            setattr(o, n, v)


WHERE = {
    'root': [], 'emb': ['emb'], 'embs': ['embs', 0], 'embd': ['embd', 'x'],
    'uni': ['uni'], 'of_one': ['ofOne'], 'in_one': ['inOne', 0],
    'thru': ['thru', 0], 'q-emb-emb': ['emb', 'emb'],
    'q-emb-of_one': ['emb', 'ofOne'], 'q-p-emb': ['p', 'emb'],
    'q-p-of_one': ['p', 'ofOne'], 'q-p-in_one': ['p', 'inOne', 0],
    'q-p-thru': ['p', 'thru', 0],
}


def where(k, pos, h):
    if pos == 'root':
        return h
    p = k['P'](id='p')
    last = pos.split('-')[-1]
    v = {'embs': [h], 'embd': {'x': h}, 'in_one': [h], 'thru': [h]}.get(
        last, h)
    setattr(p, last, v)
    if not pos.startswith('q-'):
        return p
    q = k['Q'](id='q')
    setattr(q, pos.split('-')[1], p)
    return q


def kind_cases(front):
    def cases():
        for rule in RULES:
            if rule == 'free' and front:
                continue
            k = declare_kinds(rule, front)
            for pos, path in WHERE.items():
                for filled in (True, False):
                    for rr in (False, True):
                        for reveal, null in options():
                            yield [rule, pos, filled, rr, reveal, null], \
                                kind_case(k, rule, pos, path, filled, rr,
                                          reveal, null)
    return cases


def kind_case(k, rule, pos, path, filled, rr, reveal, null):
    def go():
        h = k['H'](id='h')
        if filled:
            fill(k, h)
        j = call(where(k, pos, h), reveal, null, reverse_relationship=rr)
        at = j
        for p in path:
            at = at[p]
        shown = rule in ('free', 'readonly') or (reveal and rule != 'temp')
        if not shown:
            expect(not list(leaks(j)), f'{list(leaks(j))} leak at {pos}')
        for n in k['names']:
            if n[0] not in 'fkbx' or n[1] != '_':
                continue
            has = filled or n == 'f_calc' or bool(null)
            keys = {'k_one': ['kOne', 'kOneId'],
                    'k_many': ['kMany', 'kManyIds']}.get(n, [camel(n)])
            for key in keys:
                if n[0] in 'kbx' and shown and not filled:
                    continue               # empty lists may be shown
                expect((key in at) == (shown and has),
                       f'{key} of a {rule} field is '
                       f'{"shown" if key in at else "missing"} at {pos}')
                if shown and has and key in at and n[0] == 'f' and filled:
                    expect(at[key] is not None, f'{key} is null')
        return repr(j)
    return go


def scenarios(tier):
    out = [Enum('fields/' + p, position_cases(p)) for p in POS]
    out += [*enums(3, 'values', value_cases), Enum('containers', container_cases),
            Enum('references', ref_cases), Enum('linked', linked_cases),
            Enum('kinds/rule-last', kind_cases(False)),
            Enum('kinds/rule-first', kind_cases(True))]
    return out
