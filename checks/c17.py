"""C17: object permissions are enforced before any effect."""
from __future__ import annotations
from itertools import count, product
from typing import Any
from jsonclasses import jsonclass, types
from jsonclasses.excs import UnauthorizedActionException
from mc.core import Enum, canon, enums, eq, expect

COUNT = count()
LOG = []
ACTIONS = ['create', 'update', 'delete', 'read']
NO = UnauthorizedActionException


def act(o, action):
    if action in ('create', 'update'):
        return o.save()
    if action == 'delete':
        return o.delete()
    return o.tojson()


def rule(kind, tag):
    """(rule, allows the operator 'good', allows the operator 'bad')."""
    def fn(result):
        def f(obj, op):
            LOG.append((tag, obj._id, op))
            return result(op)
        return f
    return {
        'none': (fn(lambda op: None), True, True),
        'true': (fn(lambda op: True), True, True),
        'false': (fn(lambda op: False), False, False),
        'text': (fn(lambda op: 'refused'), False, False),
        'empty': (fn(lambda op: ''), False, False),
        'number': (fn(lambda op: 1), False, False),
        'op': (fn(lambda op: op == 'good'), True, False),
        't-op': (types.getop.eq('good'), True, False),
        't-no': (types.getop.eq('nobody'), False, False),
        't-yes': (types.this.isthis, True, True),
        't-field': (types.this.fval('val').eq(1), True, True),
        't-one': (types.oneisvalid([types.getop.eq('good'),
                                    types.getop.eq('other')]), True, False),
    }[kind]


KINDS = ['none', 'true', 'false', 'text', 'empty', 'number', 'op', 't-op', 't-no',
         't-yes', 't-field', 't-one']


def declare(rules, lists=True):
    """rules: {action: [kind]}"""
    g = f'verif-c17-{next(COUNT)}'
    conf = {}
    for a, kinds in rules.items():
        rs = [rule(k, f'{a}{i}')[0] for i, k in enumerate(kinds)]
        if rs:
            conf['can_' + a] = rs[0] if len(rs) == 1 and not lists else rs
    for a in ACTIONS[:3]:
        conf['on_' + a] = (lambda a: lambda o: LOG.append(('on', a)))(a)

    def valid(v):
        LOG.append(('valid',))

    def hook(v):
        LOG.append(('hook',))
        return v

    @jsonclass(class_graph=g, **conf)
    class A:
        id: Any = types.str.primary
        val: Any = types.int.validate(valid).setonsave(hook)
    A._database_write = lambda self: (LOG.append(('write',)),
                                      self._mark_unmodified())
    A._orm_delete = lambda self: LOG.append(('erase',))
    return A


EFFECTS = {'create': [('on', 'create'), ('valid',), ('hook',), ('write',)],
           'update': [('on', 'update'), ('valid',), ('hook',), ('write',)],
           'delete': [('on', 'delete'), ('erase',)], 'read': []}


def attempt(A, action, op, want, saved=None):
    o = A(id='7', val=2)
    o.val = 1
    if saved if saved is not None else action in ('update', 'delete'):
        o.val = 3
        o._mark_unmodified()
        o.val = 1
    if op is not None:
        o.opby(op)
    del LOG[:]
    before = canon(o)
    try:
        r = act(o, action)
        got = True
    except NO as e:
        got = False
    effects = [e for e in LOG if e[0] in ('on', 'valid', 'hook', 'write',
                                          'erase')]
    asked = [e for e in LOG if e not in effects]
    eq(got, want, f'{action} by {op!r}')
    if got:
        eq(effects, EFFECTS[action], 'effects')
        if action == 'read':
            eq(r, {'id': '7', 'val': 1}, 'output')
        else:
            expect(r is o, 'result')
    else:
        eq(effects, [], f'effects of a refused {action}')
        eq(canon(o), before, 'a refused action changed the object')
    for e in asked:
        expect(e[0].startswith(action), f'{action} asked {e}')
        eq(e[1:], ('7', op), 'rule arguments')
        expect(LOG.index(e) < len(asked), 'asked after effects')
    return got


def verdict(kinds, op):
    if not kinds:
        return True
    if op is None:
        return False
    return all(rule(k, '')[1 if op == 'good' else 2] for k in kinds)


def rule_cases(max_len):
    def cases():
        for n in range(max_len + 1):
            for kinds in product(KINDS, repeat=n):
                for action in ACTIONS:
                    def go(kinds=kinds, action=action):
                        out = []
                        for other in ([], ['false'], ['none']):
                            rules = {a: list(other) for a in ACTIONS}
                            rules[action] = list(kinds)
                            for lists in ((True, False) if len(kinds) == 1
                                          else (True,)):
                                A = declare(rules, lists)
                                for op in (None, 'good', 'bad'):
                                    out.append(attempt(
                                        A, action, op, verdict(kinds, op)))
                        return out
                    yield [action, list(kinds)], go
    return cases


def falsy_cases():
    """Any operator other than none is an operator."""
    for op in (0, '', False, [], 0.0, 'x', {}):
        for action in ACTIONS:
            def go(op=op, action=action):
                A = declare({action: ['true', 't-yes']})
                attempt(A, action, op, True)
                B = declare({action: ['op']})
                attempt(B, action, op, False)
            yield [repr(op), action], go


OPS = ['good', 'bad', 'none', 'save', 'delete', 'read', 'touch']


def history_cases(depth):
    """Histories of one object under changing operators."""
    def cases():
        A = declare({'create': ['op'], 'update': ['t-op', 'true'],
                     'delete': ['none'], 'read': ['t-one']})
        allow = {'create': lambda op: op == 'good',
                 'update': lambda op: op == 'good',
                 'delete': lambda op: op is not None,
                 'read': lambda op: op == 'good'}
        for hist in product(OPS, repeat=depth):
            def go(hist=hist):
                o = A(id='1', val=1)
                op, new, dirty, n = None, True, False, 1
                out = []
                for h in hist:
                    if h in ('good', 'bad', 'none'):
                        op = None if h == 'none' else h
                        o.opby(op)
                        continue
                    if h == 'touch':
                        n += 1
                        o.val = n
                        dirty = not new
                        continue
                    action = {'save': 'create' if new else 'update'}.get(h, h)
                    del LOG[:]
                    before = canon(o)
                    try:
                        act(o, action)
                        got = True
                    except NO:
                        got = False
                    eq(got, allow[action](op), f'{action} by {op} after '
                       f'{hist}')
                    eff = [e for e in LOG if e[0] in (
                        'on', 'valid', 'hook', 'write', 'erase')]
                    want = list(EFFECTS[action])
                    if action == 'update' and not dirty:
                        want = [('on', 'update'), ('write',)]
                    eq(eff, want if got else [], f'effects of {action}')
                    if not got:
                        eq(canon(o), before, 'changed by refused action')
                    elif h == 'save':
                        new = dirty = False
                    out.append(got)
                return out
            yield list(hist), go
    return cases


def object_cases():
    """Rules comparing the operator with objects and references."""
    g = f'verif-c17-{next(COUNT)}'

    @jsonclass(class_graph=g)
    class U:
        id: Any = types.str.primary
        kind: Any = types.str

    @jsonclass(class_graph=g)
    class V:
        id: Any = types.str.primary

    def doc(name, r):
        return jsonclass(class_graph=g, can_read=r)(type(name, (), {
            '__annotations__': {'id': Any, 'owner': Any, 'u': Any},
            '__module__': __name__, 'id': types.str.primary,
            'owner': types.objof('U').linkto, 'u': types.objof('U')}))
    docs = {
        'owner': doc('D1', types.this.fval('owner').isobj(types.getop)),
        'getop': doc('D2', types.getop.isobj(types.this.fval('owner'))),
        'plain': doc('D3', types.getop.isobj(types.this.fval('u'))),
        'class': doc('D4', types.getop.isobjof('U')),
        'either': doc('D5', types.oneisvalid([
            types.getop.isobj(types.this.fval('owner')),
            types.getop.fval('kind').eq('root')])),
    }
    users = {'u1': lambda: U(id='1', kind='x'),
             'u2': lambda: U(id='2', kind='x'),
             'new': lambda: U(kind='x'), 'root': lambda: U(id='9', kind='root'),
             'v1': lambda: V(id='1'), 'null': lambda: None}
    for d, op, own, how in product(docs, users, ['u1', 'new', 'null'],
                                   ['object', 'key', 'same']):
        if d == 'either' and op == 'v1':
            continue
        if how == 'key' and (own != 'u1' or d == 'plain'):
            continue

        def go(d=d, op=op, own=own, how=how):
            D = docs[d]
            o = D(id='d')
            operator = users[op]()
            owner = users[own]()
            if how == 'same' and op == own:
                owner = operator
            if how == 'key':
                o.owner_id = '1'
            elif d == 'plain':
                o.u = owner
            else:
                o.owner = owner
            if operator is None:
                want = False
            else:
                same = own == op == 'u1' or \
                    owner is not None and owner is operator
                want = {'class': op not in ('v1', 'null'),
                        'either': same or op == 'root'}.get(d, same)
            if operator is not None:
                o.opby(operator)
            try:
                o.tojson()
                got = True
            except NO:
                got = False
            eq(got, want, f'{d}: operator {op} owner {own} by {how}')
        yield [d, op, own, how], go


def this_cases():
    """Only the object itself may change itself."""
    g = f'verif-c17-{next(COUNT)}'

    @jsonclass(class_graph=g, can_update=types.getop.isthis,
               can_delete=types.getop.isobj(types.this))
    class U:
        id: Any = types.str.primary

    @jsonclass(class_graph=g)
    class V:
        id: Any = types.str.primary
    mk = {'self': lambda o: o, 'twin': lambda o: U(id=o.id),
          'other': lambda o: U(id='other'), 'new': lambda o: U(),
          'v': lambda o: V(id=o.id), 'null': lambda o: None}
    for who, pk, action in product(mk, ('1', None), ('update', 'delete')):
        def go(who=who, pk=pk, action=action):
            o = U(id=pk) if pk else U()
            o._mark_unmodified()
            op = mk[who](o)
            if op is not None:
                o.opby(op)
            want = who == 'self' or who == 'twin' and pk is not None
            try:
                act(o, action)
                got = True
            except NO:
                got = False
            eq(got, want, f'{action} by {who} of {pk}')
        yield [who, pk, action], go


CALLS = {
    'save': [{}, {'skip_validation': True}, {'validate_all_fields': True}],
    'delete': [{}],
    'tojson': [{}, {'ignore_writeonly': True}, {'output_null': True},
               {'reverse_relationship': True}],
}
STATES = {
    'plain': lambda o: None, 'dirty': lambda o: setattr(o, 'val', 4),
    'picked': lambda o: o.pick(['id']), 'picked-none': lambda o: o.pick([]),
    'omitted': lambda o: o.omit(['val']),
    'partial': lambda o: setattr(o, '_is_partial', True) or setattr(
        o, '_partial_picks', ['id']),
    'deleted': lambda o: setattr(o, '_is_deleted', True),
    'keyless': lambda o: setattr(o, 'id', None),
    'null': lambda o: setattr(o, 'val', None),
}


def state_cases():
    """The rules hold in every state of the object and form of the call."""
    for new, state, call in product((True, False), STATES, CALLS):
        for kinds in ([], ['true'], ['op'], ['t-op'], ['false'],
                      ['op', 'true'], ['t-no'], ['none', 'empty']):
            def go(new=new, state=state, call=call, kinds=kinds):
                action = {'save': 'create' if new else 'update',
                          'delete': 'delete', 'tojson': 'read'}[call]
                A = declare({action: kinds})
                out = []
                for op, kw in product((None, 'good', 'bad'), CALLS[call]):
                    o = A(id='7', val=2)
                    if not new:
                        o._mark_unmodified()
                    STATES[state](o)
                    if op is not None:
                        o.opby(op)
                    before = canon(o)
                    del LOG[:]
                    try:
                        getattr(o, call)(**kw)
                        got = True
                    except NO:
                        got = False
                    eq(got, verdict(kinds, op),
                       f'{call} {kw} of {state} object by {op}')
                    eff = [e for e in LOG if e[0] in (
                        'on', 'valid', 'hook', 'write', 'erase')]
                    if not got:
                        eq(eff, [], 'effects of a refused action')
                        eq(canon(o), before, 'changed by a refused action')
                    elif call != 'tojson':
                        expect(eff[-1] in (('write',), ('erase',)), 'effect')
                    out.append(got)
                return out
            yield [new, state, call, kinds], go


def linked_cases():
    """Objects saved along with others are guarded like any other."""
    g = f'verif-c17-{next(COUNT)}'
    wrote = []

    def rule_(o, op):
        LOG.append((o.id, op))
        return op == 'good'

    @jsonclass(class_graph=g, can_create=rule_, can_update=rule_,
               can_delete=rule_, can_read=rule_)
    class P:
        id: Any = types.str.primary
        kids: Any = types.listof('K').linkedby('p')

    @jsonclass(class_graph=g)
    class K:
        id: Any = types.str.primary
        p: Any = types.objof('P').linkto
    P._database_write = lambda self: wrote.append(self.id)
    K._database_write = lambda self: wrote.append(self.id)
    for new, op, call, n, lost in product((True, False), (None, 'good', 'bad'),
                                          CALLS, (0, 1, 2), (0, 1)):
        def go(new=new, op=op, call=call, n=n, lost=lost):
            p = P(id='p')
            p.kids = [K(id=f'k{i}') for i in range(n + lost)]
            for x in (p, *p.kids):
                if not new:
                    x._mark_unmodified()
            if lost:
                p.kids.pop()
            if op is not None:
                p.opby(op)
            del LOG[:], wrote[:]
            before = canon(p)
            try:
                getattr(p, call)()
                got = True
            except NO:
                got = False
            eq(got, op == 'good', f'{call} by {op}')
            eq(set(LOG), {('p', op)} if op is not None else set(), 'asked')
            if not got:
                eq((wrote, canon(p)), ([], before), 'effects when refused')
            elif call == 'save':
                eq(wrote[0], 'p', 'written')
        yield [new, op, call, n, lost], go


def scenarios(tier):
    s = [*enums(6, 'rules', rule_cases(2)), Enum('falsy', falsy_cases),
         *enums(4, 'histories', history_cases(5)),
         Enum('objects', object_cases), Enum('this', this_cases),
         Enum('states', state_cases), Enum('linked', linked_cases)]
    if tier == 'thorough':
        s += [*enums(12, 'rules-3', rule_cases(3)),
              *enums(12, 'histories-6', history_cases(6))]
    return s
