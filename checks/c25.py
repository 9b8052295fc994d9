"""C25: operators are assigned and checked as declared."""
from __future__ import annotations
from itertools import product
from typing import Any
from jsonclasses import jsonclass, types
from jsonclasses.excs import ValidationException
from mc.core import enums, eq, expect

G = 'verif-c25'


@jsonclass(class_graph=G)
class User:
    id: int = types.int.primary
    boss: Any = types.objof('User').linkto
    owned: Any = types.listof('Team').linkedby('owner')

    def __bool__(self):     # whether an operator counts is up to the class
        return False


@jsonclass(class_graph=G)
class Team:
    id: int = types.int.primary
    name: Any = types.str
    org: Any = types.objof('Org').linkto
    owner: Any = types.objof('User').linkto.asopd
    head: Any = types.objof('User').linkto.asop(lambda o: o.boss)
    both: Any = types.objof('User').linkto.asop(
        lambda o, t: o if t.name == 'self' else o.boss)
    free: Any = types.objof('User').linkto


@jsonclass(class_graph=G)
class Org:
    id: int = types.int.primary
    teams: Any = types.listof('Team').linkedby('org')
    main: Any = types.objof('Team')
    owner: Any = types.objof('User').linkto


@jsonclass(class_graph=G, ref_name_strategy=lambda f: f.name + '_key')
class Memo:
    id: int = types.int.primary
    owner: Any = types.objof('User').linkto.asopd.required
    writer: Any = types.objof('User').asopd.linkto


FIELDS = ['owner', 'head', 'both']


def people():
    boss = {i: User(id=i) for i in (10, 20)}
    return {i: User(id=i, boss=boss[i * 10]) for i in (1, 2)} | boss


class Model:
    """Keys and objects of the three assigned references of a team."""

    def __init__(self):
        self.key = dict.fromkeys(FIELDS + ['free'])
        self.obj = dict.fromkeys(FIELDS + ['free'])
        self.new = True
        self.changed = set()
        self.name = None
        self.op = None

    def put(self, f, key, obj=None):
        if key == self.key[f] and obj is None:
            return
        if obj is not None and self.obj[f] == obj:
            return
        self.key[f], self.obj[f] = key, obj
        if not self.new:
            self.changed.add(f)

    def opby(self, u):
        self.op = u
        if u is None or not self.new:
            return
        self.put('owner', u)
        self.put('head', u * 10)
        self.put('both', u if self.name == 'self' else u * 10)

    def errors(self):
        return {f for f in FIELDS if self.key[f] is None
                and (self.new or f in self.changed)}


OPS = ['op1', 'op2', 'opNone', 'save', 'name', 'self', 'owner=None',
       'owner=2', 'owner_id=None', 'owner_id=2', 'head_id=1', 'free=1',
       'setfree']


def apply(o, m, people, op):
    if op in ('op1', 'op2'):
        u = int(op[-1])
        expect(o.opby(people[u]) is o, 'opby returns the object')
        m.opby(u)
    elif op == 'opNone':
        o.opby(None)
        m.opby(None)
    elif op == 'save':
        o._mark_unmodified()
        m.new, m.changed = False, set()
    elif op in ('name', 'self'):
        o.name = op
        if m.name != op and not m.new:
            m.changed.add('name')
        m.name = op
    elif op == 'owner=None':
        if m.obj['owner'] is not None:
            o.owner = None
            m.put('owner', None)
    elif op == 'owner=2':
        o.owner = people[2]
        m.put('owner', 2, 2)
    elif op == 'owner_id=None':
        o.owner_id = None
        m.put('owner', None)
    elif op == 'owner_id=2':
        if m.key['owner'] != 2:
            o.owner_id = 2
            m.put('owner', 2)
    elif op == 'head_id=1':
        o.head_id = 1
        m.put('head', 1)
    elif op == 'free=1':
        o.free = people[1]
        m.put('free', 1, 1)
    elif op == 'setfree':
        o.set(free_id=2)
        m.put('free', 2)


def compare(o, m, where):
    for f in FIELDS + ['free']:
        eq(getattr(o, f + '_id'), m.key[f], f'{where}: key of {f}')
        obj = getattr(o, f)
        eq(None if obj is None else obj.id, m.obj[f], f'{where}: {f}')
    eq(sorted(o.modified_fields), sorted(m.changed), f'{where}: modified')
    eq(o.is_new, m.new, f'{where}: new')
    want = m.errors()
    for kw in ({'all_fields': True}, {}):
        try:
            o.validate(**kw)
            got = {}
        except ValidationException as e:
            got = e.keypath_messages
        if kw:
            eq(set(got), want, f'{where}: reported')
        else:
            expect(bool(got) == bool(want) and set(got) <= want,
                   lambda: f'{where}: reported {got}, expected {want}')
    j = o.tojson()
    for f in FIELDS:
        eq(j.get(f + 'Id'), m.key[f], f'{where}: output key of {f}')


def histories(depth):
    def run(ops):
        p = people()
        o, m = Team(id=100), Model()
        for i, op in enumerate(ops):
            apply(o, m, p, op)
        compare(o, m, ' '.join(ops))

    def cases():
        for n in range(depth + 1):
            for ops in product(OPS, repeat=n):
                yield list(ops), lambda ops=ops: run(ops)
    return cases


def nested(thorough):
    """Teams inside of organisations are checked with their own values."""
    marks = ['none', 'op', 'saved', 'cleared']

    def team(i, mark, p):
        t = Team(id=i)
        if mark != 'none':
            t.opby(p[1])
        if mark in ('saved', 'cleared'):
            t._mark_unmodified()
        if mark == 'cleared':
            t.owner_id = None
        return t

    def bad(mark):
        return {'none': set(FIELDS), 'op': set(), 'saved': set(),
                'cleared': {'owner'}}[mark]

    def run(a, b, main, new, opby):
        p = people()
        org = Org(id=1)
        ts = [team(100, a, p), team(101, b, p)]
        org.teams = ts
        org.main = team(102, main, p)
        if not new:
            org._mark_unmodified()
        if opby:
            org.opby(p[2])
        want = {f'teams.{i}.{f}' for i, m in enumerate([a, b])
                for f in bad(m)}
        if new:
            want |= {f'main.{f}' for f in bad(main)}
        try:
            org.validate(all_fields=True)
            got = set()
        except ValidationException as e:
            got = set(e.keypath_messages)
        eq(got, want, 'reported')
        for t, m in zip([*ts, org.main], [a, b, main]):
            eq([t.owner_id, t.head_id, t.both_id],
               {'none': [None] * 3, 'cleared': [None, 10, 10]}.get(
                   m, [1, 10, 10]), f'keys of a {m} team')
        eq(org.owner_id, None, 'a field without asop')

    def cases():
        for a in product(marks, marks, marks, (True, False), (True, False)):
            yield list(a), lambda a=a: run(*a)
    return cases


def memo(thorough):
    """Another key naming, both orders of the modifiers."""
    def run(ops):
        p = people()
        o = Memo(id=1)
        key, new = None, True
        for op in ops:
            if op == 'save':
                o._mark_unmodified()
                new = False
            elif op is None:
                o.opby(None)
            else:
                o.opby(p[op])
                key = op if new else key
        eq([o.owner_key, o.writer_key], [key, key], 'keys')
        eq(o.is_valid, key is not None, 'valid')
        eq(o.tojson(), {'id': 1} if key is None else
           {'id': 1, 'ownerKey': key, 'writerKey': key}, 'output')

    def cases():
        for n in range(5):
            for ops in product([1, 2, None, 'save'], repeat=n):
                yield list(ops), lambda ops=ops: run(ops)
    return cases


def scenarios(tier):
    t = tier == 'thorough'
    return [*enums(12, 'histories', histories(5 if t else 4)),
            *enums(2, 'nested', nested(t)), *enums(1, 'memo', memo(t))]
