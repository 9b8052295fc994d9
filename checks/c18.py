"""C18: field permissions guard exactly their field and action."""
from __future__ import annotations
from datetime import date
from enum import Enum as PyEnum
from itertools import combinations, count, product
from typing import Any
from jsonclasses import jsonclass, types
from jsonclasses.excs import ValidationException
from mc.core import Enum, canon, enums, eq, expect

COUNT = count()
ASKED = []


class Tone(PyEnum):
    A = 1
    B = 2


#: field kinds: chain, first value, second value, output of each
KINDS = {
    'int': (lambda: types.int, 5, 6, 5, 6),
    'zero': (lambda: types.int, 0, 1, 0, 1),
    'str': (lambda: types.str, 'x', '', 'x', ''),
    'bool': (lambda: types.bool, False, True, False, True),
    'list': (lambda: types.listof(int), [1], [], [1], []),
    'dict': (lambda: types.dictof(types.int), {'k': 1}, {}, {'k': 1}, {}),
    'any': (lambda: types.any, 'q', [0], 'q', [0]),
    'enum': (lambda: types.enum(Tone), Tone.A, Tone.B, 'A', 'B'),
    'date': (lambda: types.date, date(2020, 1, 1), date(2020, 1, 2),
             '2020-01-01T00:00:00.000Z', '2020-01-02T00:00:00.000Z'),
}


def checkers(tag):
    """form -> (checker, verdict(op, owner kind, value))."""
    def note(*a):
        ASKED.append((tag, *a))

    def f1(op):
        note(op)
        return op == 'good'

    def f2(op, owner):
        note(op, owner.mark)
        return op == 'good' and owner.mark == 'mine'

    def f3(op, owner, val):
        note(op, owner.mark, repr(val))
        return None if op == 'good' else 'refused'

    def f4(op, owner, val, ctx):
        note(op, owner.mark, repr(val))
        expect(ctx.owner is owner and ctx.operator == op, 'context')
        return op == 'good'

    def never(op):
        note(op)
        return ''

    def always(op):
        note(op)
    good = lambda op, mark: op == 'good'              # noqa: E731
    mine = lambda op, mark: op == 'good' and mark == 'mine'  # noqa: E731
    return {
        'f1': (f1, good), 'f2': (f2, mine), 'f3': (f3, good),
        'f4': (f4, good), 'never': (never, lambda op, m: False),
        'always': (always, lambda op, m: True),
        't-op': (types.getop.eq('good'), good),
        't-mark': (types.this.fval('mark').eq('mine'),
                   lambda op, m: m == 'mine'),
        't-both': (types.validate(types.getop.eq('good')).validate(
            types.this.fval('mark').eq('mine')), mine),
    }


FORMS = list(checkers('x'))


def chain_of(kind, spec):
    """spec: {'canc': form, ...}"""
    chain = KINDS[kind][0]()
    for rule, form in spec.items():
        chain = getattr(chain, rule)(checkers(rule)[form][0])
    return chain


def declare(chain, pos):
    g = f'verif-c18-{next(COUNT)}'
    wrote = []

    @jsonclass(class_graph=g)
    class In:
        id: Any = types.str.primary
        mark: Any = types.str
        val: Any = chain
        free: Any = types.str

    @jsonclass(class_graph=g)
    class Leaf:
        id: Any = types.str.primary
        mark: Any = types.str
        val: Any = chain
        free: Any = types.str
        r: Any = types.objof('R').linkto

    @jsonclass(class_graph=g)
    class R:
        id: Any = types.str.primary
        mark: Any = types.str
        val: Any = chain if pos == 'root' else types.any
        free: Any = types.str
        one: Any = types.objof('In')
        lst: Any = types.listof('In')
        dct: Any = types.dictof(types.objof('In'))
        ref: Any = types.objof('In2').linkto
        kids: Any = types.listof('Leaf').linkedby('r')

    @jsonclass(class_graph=g)
    class In2:
        id: Any = types.str.primary
        mark: Any = types.str
        val: Any = chain
        free: Any = types.str
    R._database_write = lambda self: wrote.append(self)
    return R, In, Leaf, In2, wrote


PATHS = {'root': '', 'one': 'one.', 'lst': 'lst.0.', 'dct': 'dct.k.',
         'ref': 'ref.', 'kids': 'kids.0.'}


def build(classes, pos):
    """(root, guarded object) to be put at the position."""
    R, In, Leaf, In2, _ = classes
    r = R(id='r', mark='root')
    if pos == 'root':
        return r, r
    return r, {'kids': Leaf, 'ref': In2}.get(pos, In)(id='i')


def attach(r, o, pos):
    if pos == 'root':
        return
    if pos == 'one':
        r.one = o
    elif pos == 'lst':
        r.lst = [o]
    elif pos == 'dct':
        r.dct = {'k': o}
    elif pos == 'ref':
        r.ref = o
    else:
        r.kids = [o]


def reach(js, pos):
    if pos == 'root':
        return js
    if pos in ('lst', 'kids'):
        return js[pos][0]
    return js['dct']['k'] if pos == 'dct' else js[pos]


def failing(o):
    before = canon(o)
    try:
        o.validate(all_fields=True)
        got = []
    except ValidationException as e:
        got = sorted(e.keypath_messages)
    eq(canon(o), before, 'validation changed the object')
    eq(o.is_valid, not got, 'is_valid')
    return got


def case(kind, spec, pos):
    def go():
        classes = declare(chain_of(kind, spec), pos)
        wrote = classes[-1]
        _, v1, v2, j1, j2 = KINDS[kind]
        out = []
        for op, mark, state, root in product(
                (None, 'good', 'bad', 0), ('mine', 'theirs'),
                ('new', 'clean', 'val', 'free', 'back', 'list', 'null'),
                ('same', 'new', 'saved')):
            if root != 'same' and (pos == 'root' or mark == 'theirs'):
                continue
            if pos in ('one', 'lst', 'dct') and state != 'new' \
                    and root == 'same':
                continue        # changes inside are not seen from outside
            if op == 0 and (root != 'same' or state not in ('new', 'null')):
                continue
            if state == 'list' and kind not in ('list', 'dict'):
                continue
            r, o = build(classes, pos)
            if root == 'saved':
                r._mark_unmodified()
            else:
                attach(r, o, pos)
            if mark == 'mine' and pos == 'root':
                o.mark = 'mine'
            else:
                o.mark = mark
            o.val = v1
            o.free = 'f'
            now, jnow = v1, j1
            if state != 'new':
                o._mark_unmodified()
                if root == 'same':
                    r._mark_unmodified()
            if state == 'val':
                o.val = v2
                now, jnow = v2, j2
            elif state == 'null':
                o.val = now = jnow = None
            elif state == 'free':
                o.free = 'g'
            elif state == 'back':
                o.val = v2
                o.val = v1
            elif state == 'list':
                if kind == 'list':
                    o.val.append(9)
                    now = jnow = [1, 9]
                else:
                    o.val['z'] = 9
                    now = jnow = {'k': 1, 'z': 9}
            if root == 'saved':
                attach(r, o, pos)
            if op is None and state in ('new', 'val', 'back'):
                r.opby('good')      # an operator who left
            r.opby(op)
            verdict = {k: op is not None and checkers('')[f][1](op, o.mark)
                       for k, f in spec.items()}
            write = [k for k in spec if k in ('canc', 'canw')] \
                if state == 'new' else [k for k in spec if k in (
                    'canu', 'canw')] if state in ('val', 'back', 'list', 'null') \
                else []
            ok = all(verdict[k] for k in write)
            path = PATHS[pos] + 'val'
            del ASKED[:]
            eq(failing(r), [] if ok else [path],
               f'{spec} {state} at {pos}, root {root} by {op!r} on {o.mark}')
            for a in ASKED:
                expect(a[0] in write, f'{a[0]} was asked on {state}')
                eq(a[1], op, 'operator')
                if len(a) > 2:
                    eq(a[2], o.mark, 'owner')
                if len(a) > 3:
                    eq(a[3], repr(now), 'value')
            del wrote[:]
            try:
                r.save()
                got = True
            except ValidationException:
                got = False
            eq((got, len(wrote)), (ok, int(ok)), 'save')
            # reading
            seen = 'canr' not in spec or verdict['canr']
            del ASKED[:]
            js = reach(r.tojson(), pos)
            eq(js.get('val', 'missing'), jnow if seen and jnow is not None else
               'missing',
               f'output by {op!r}')
            eq((js['free'], js.get('mark')), (o.free, o.mark), 'other fields')
            for a in ASKED:
                eq(a[0], 'canr', 'asked when reading')
                eq(a[1], op, 'operator')
            nul = reach(r.tojson(output_null=True), pos)
            eq(nul['val'], jnow if seen else None, 'output with nulls')
            eq(o.val, now, 'value')
            out.append((ok, seen))
        return out
    return go


def form_cases():
    for kind in ('int', 'list'):
        for rule in ('canc', 'canu', 'canw', 'canr'):
            for form in FORMS:
                for pos in PATHS:
                    spec = {rule: form}
                    yield [kind, spec, pos], case(kind, spec, pos)


def kind_cases():
    for kind in KINDS:
        for rule in ('canc', 'canu', 'canw', 'canr'):
            for form in ('f3', 't-op'):
                for pos in ('root', 'kids', 'lst'):
                    spec = {rule: form}
                    yield [kind, spec, pos], case(kind, spec, pos)


def combo_cases():
    rules = ['canc', 'canu', 'canw', 'canr']
    forms = ['f1', 'never', 'always', 't-mark']
    for n in (2, 3):
        for names in combinations(rules, n):
            for fs in product(forms, repeat=n):
                spec = dict(zip(names, fs))
                for pos in ('root', 'kids'):
                    yield [spec, pos], case('int', spec, pos)


def scenarios(tier):
    s = [*enums(8, 'forms', form_cases), *enums(8, 'kinds', kind_cases),
         *enums(8, 'combinations', combo_cases)]
    if tier == 'thorough':
        def more():
            for kind in KINDS:
                for rule in ('canc', 'canu', 'canw', 'canr'):
                    for form in FORMS:
                        for pos in PATHS:
                            spec = {rule: form}
                            yield [kind, spec, pos], case(kind, spec, pos)
        s += enums(12, 'everything', more)
    return s
