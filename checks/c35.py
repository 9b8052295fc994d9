"""C35: custom functions are told the right value, owner, root and path."""
from __future__ import annotations
from itertools import combinations, product
from typing import Any
from jsonclasses import jsonclass, types
from mc.core import digest, enums, eq, expect

SEEN: list = []
HELD = object()


def see(value, ctx, owner=HELD, operator=HELD):
    SEEN.append({
        'value': value, 'ctx value': ctx.val, 'owner': ctx.owner,
        'owner given': ctx.owner if owner is HELD else owner,
        'operator': ctx.operator,
        'operator given': ctx.operator if operator is HELD else operator,
        'root': ctx.root, 'path': ctx.skeypathr, 'out': ctx.sfkeypathr,
        'parts': tuple(ctx.keypathr),
        'cdefs': (ctx.cdefroot, ctx.cdefowner),
        'confs': (ctx.jconfroot, ctx.jconfowner)})


def keep(v, ctx):
    see(v, ctx)
    return v


def yes(v, ctx):
    see(v, ctx)
    return True


def low(owner, ctx):
    see(ctx.val, ctx, owner)
    return -100


def nothing(owner, ctx):
    see(ctx.val, ctx, owner)
    return 0


def old_new(old, new, ctx):
    see(new, ctx)
    return True


def may(op, owner, v, ctx):
    see(v, ctx, owner, op)
    return True


probe = types.transform(keep)
# hook -> (chain, the step that runs it, where it can stand)
HOOKS = {
    'transform': (lambda t: t.transform(keep), 'set', 'all'),
    'second transform': (lambda t: t.add(0).transform(keep).add(0), 'set',
                         'all'),
    'eager': (lambda t: t.validate(yes).transform(lambda v: v), 'set', 'all'),
    'default': (lambda t: t.default(3).transform(keep), 'set', 'fields'),
    'default limit': (lambda t: t.default(lambda: 3).add(nothing), 'set',
                      'fields'),
    'parameter': (lambda t: t.add(nothing), 'set', 'all'),
    'validate': (lambda t: t.validate(yes), 'validate', 'all'),
    'message': (lambda t: t.vmsg(yes, 'bad'), 'validate', 'all'),
    'validate chain': (lambda t: t.validate(probe), 'validate', 'all'),
    'one of': (lambda t: t.oneisvalid([yes]), 'validate', 'all'),
    'one of chains': (lambda t: t.oneisvalid([probe]), 'validate', 'all'),
    'limit': (lambda t: t.min(low), 'validate', 'all'),
    'compare': (lambda t: t.compare(old_new), 'validate', 'changed'),
    'may write': (lambda t: t.canc(may).canu(may), 'validate', 'operator'),
    'may write chain': (lambda t: t.canc(probe).canu(probe), 'validate', 'operator'),
    'on save': (lambda t: t.setonsave(probe), 'save', 'all'),
    'forced on save': (lambda t: t.fsetonsave(probe), 'save', 'all'),
    'after save': (lambda t: t.setonsave(lambda v: v).validate(yes), 'save',
                   'all'),
    'on write': (lambda t: t.onwrite(keep), 'save', 'fields'),
    'on update': (lambda t: t.onupdate(old_new), 'save', 'changed'),
    'format': (lambda t: t.fmt(keep), 'tojson', 'all'),
    'format chain': (lambda t: t.fmt(probe), 'tojson', 'all'),
    'may read': (lambda t: t.canr(may), 'tojson', 'operator'),
    'may read chain': (lambda t: t.canr(probe), 'tojson', 'operator'),
}
FAMILIES: dict = {}


def family(hook):
    if hook not in FAMILIES:
        chain, _, where = HOOKS[hook]
        g = 'verif-c35-' + hook
        t = chain(types.int)
        item = types.int if where in ('fields', 'changed') else t

        @jsonclass(class_graph=g)
        class Part:
            my_f: Any = t
            my_items: Any = types.listof(item)
            by_key: Any = types.dictof(item)
            nested: Any = types.listof(types.dictof(item))
            my_union: Any = types.union([item])
            union_list: Any = types.union([types.listof(item)])
            my_inner: Any = types.objof('Part')
            my_inners: Any = types.listof('Part')

        @jsonclass(class_graph=g)
        class Base:
            my_f: Any = t
            my_part: Any = types.objof('Part')
            my_parts: Any = types.listof('Part')
            key_parts: Any = types.dictof('Part')
            my_link: Any = types.objof('Linked').linkto
            my_links: Any = types.listof('Linked').linkedby('my_home')

        @jsonclass(class_graph=g)
        class Whole(Base):
            my_items: Any = types.listof(item)
            by_key: Any = types.dictof(item)
            nested: Any = types.listof(types.dictof(item))
            my_union: Any = types.union([item])
            union_list: Any = types.union([types.listof(item)])

        @jsonclass(class_graph=g)
        class Linked:
            id: Any = types.int.primary
            my_f: Any = t
            my_items: Any = types.listof(item)
            my_home: Any = types.objof('Base').linkto
            base: Any = types.objof('Base').linkedby('my_link')
        FAMILIES[hook] = Whole
    return FAMILIES[hook]


def data(n):
    """Input with numbers from n on."""
    return {'my_f': n, 'my_items': [n + 1, n + 2],
            'by_key': {'k_1': n + 3, 'k': n + 4},
            'nested': [{'j_j': n + 5}, {'j_j': n + 6, 'l': n + 7}],
            'my_union': n + 8, 'union_list': [n + 9, n]}


SHAPES = {
    'plain': lambda: data(1),
    'part': lambda: {'my_part': data(10)},
    'deep': lambda: {'my_part': {**data(10), 'my_inner': data(20)}},
    'deeper': lambda: {'my_part': {'my_inner': {**data(
        20), 'my_inners': [data(30), data(40)]}}},
    'list': lambda: {'my_parts': [data(10), data(20)]},
    'list deep': lambda: {'my_parts': [{'my_inner': data(30)}, data(20)]},
    'dict': lambda: {'key_parts': {'k_1': data(10), 'k': {
        **data(20), 'my_inners': [data(30)]}}},
    'link': lambda: {'my_link': {'id': 1, 'my_f': 5, 'my_items': [6]}},
    'links': lambda: {'my_links': [{'id': 3, 'my_f': 5, 'my_items': [6]},
                                   {'id': 4, 'my_f': 7, 'my_items': [8]}]},
    'both': lambda: {**data(1), 'my_part': data(10), 'my_parts': [data(20)]},
}


def camel(k):
    a, *b = k.split('_')
    return a + ''.join(x.title() for x in b)


def leaves(obj, path=(), out=(), done=None):
    """(path, output path, owner, value) of every number below an object."""
    done = set() if done is None else done
    if id(obj) in done:
        return
    done.add(id(obj))

    def walk(v, p, o):
        if type(v) is int or v is None:
            yield p, o, obj, v
        elif isinstance(v, list):
            for i, x in enumerate(v):
                yield from walk(x, (*p, i), (*o, i))
        elif isinstance(v, dict):
            for k, x in v.items():
                yield from walk(x, (*p, k), (*o, k))
        elif hasattr(v, 'cdef'):
            yield from leaves(v, p, o, done)
    for f in type(obj).cdef.fields:
        if f.name != 'id' and f.name not in ('my_home', 'base'):
            yield from walk(getattr(obj, f.name), (*path, f.name),
                            (*out, camel(f.name)))


def check(root, hook, expected, label):
    """Every call fits a leaf, and every expected leaf was asked about."""
    table = {'.'.join(map(str, p)): (p, o, w, v) for p, o, w, v in
             leaves(root)}
    asked = set()
    for s in SEEN:
        expect(s['path'] in table, f'{label}: asked about {s["path"]!r}')
        p, o, owner, v = table[s['path']]
        what = f'{label}: at {s["path"]} '
        expect(s['owner'] is owner and s['owner given'] is owner,
               what + f'the owner is {type(s["owner"]).__name__}')
        expect(s['root'] is root, what + 'another root')
        eq((s['value'], s['ctx value']), (v, v), what + 'value')
        eq((s['operator'], s['operator given']),
           (root._operator, root._operator), what + 'operator')
        eq(s['out'], '.'.join(map(str, o)), what + 'output path')
        eq(s['parts'], p, what + 'path parts')
        expect(s['cdefs'] == (type(root).cdef, type(owner).cdef) and
               s['confs'][0] is type(root).cdef.jconf and
               s['confs'][1] is type(owner).cdef.jconf,
               what + 'definitions')
        if s['value'] is not None:
            asked.add(s['path'])
    want = {k for k, (p, _, _, v) in table.items()
            if expected(p) and v is not None}
    if HOOKS[hook][2] == 'changed':   # nested ones of changed objects
        expect(asked <= want and (asked or not want), f'{label}: asked about '
               f'{asked} of {want}')
    else:
        eq(sorted(asked), sorted(want), f'{label}: asked about')


def run(hook, shape, operator, state, start):
    _, step, where = HOOKS[hook]
    cls = family(hook)

    def expected(p):
        if where in ('fields', 'changed'):
            return p[-1] == 'my_f'
        return True
    if where == 'operator':
        operator = operator or 'someone'
    src = SHAPES[shape]()
    if hook.startswith('default') and state != 'constructed':
        def expected(p):            # the root has its default already
            return p[-1] == 'my_f' and (len(p) > 1 or 'my_f' in src)
    del SEEN[:]
    if state == 'constructed':
        root = cls(**src)
        if step == 'set':
            check(root, hook, expected, 'constructor')
        root.opby(operator)
    else:
        root = cls()
        if operator is not None:
            root.opby(operator)
        if state == 'replaced':
            root.set(**SHAPES['both']())
            for k in SHAPES['both']():
                setattr(root, k, None)
            root._mark_unmodified()
        del SEEN[:]
        root.set(**src)
        if step == 'set':
            check(root, hook, expected, 'set')
    if step == 'set':
        return digest([s['path'] for s in SEEN])
    if start == 'part':
        root = root.my_part
        if root is None:
            return
        root.opby(operator)
    elif start == 'item':
        if not root.my_parts:
            return
        root = root.my_parts[-1]
        root.opby(operator)
    if where == 'changed':
        for _, _, owner, v in [*leaves(root)]:
            if v is not None:
                owner._mark_unmodified()
        for p, _, owner, v in [*leaves(root)]:
            if p[-1] == 'my_f' and v is not None:
                owner.my_f = v + 1
                owner.my_f = v
                owner.my_f = v + 2
    del SEEN[:]
    if step == 'validate':
        root.validate(all_fields=True)
    elif step == 'save':
        root._set_on_save()
    else:
        root.tojson()
    check(root, hook, expected, step)
    return digest([s['path'] for s in SEEN])


for _a, _b in combinations([*SHAPES], 2):
    SHAPES[f'{_a} + {_b}'] = lambda a=SHAPES[_a], b=SHAPES[_b]: {**a(), **b()}


def hook_cases(joined=False):
    for c in product(HOOKS, [k for k in SHAPES if ('+' in k) == joined],
                     (None, 'someone', ('op', 2)),
                     ('constructed', 'set', 'replaced'),
                     ('root', 'part', 'item')):
        if HOOKS[c[0]][1] == 'set' and c[4] != 'root':
            continue
        yield list(map(str, c)), lambda c=c: run(*c)


def scenarios(tier):
    s = enums(4, 'hooks', hook_cases)
    if tier == 'thorough':
        s += enums(16, 'joined', lambda: hook_cases(True))
    return s
