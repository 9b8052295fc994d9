"""C08: untrusted input (building, set, nested objects, keys, key paths) never
writes protected fields; everything else in the same input is written."""
from __future__ import annotations
from itertools import product
from typing import Any
from jsonclasses import jsonclass, types
from mc.core import Bfs, Enum, Mismatch, canon, eq, expect

G = 'verif-c08'


@jsonclass(class_graph=G)
class Rules:
    id: str = types.str.primary
    ro_val: Any = types.any.readonly
    in_val: Any = types.any.internal
    once_val: Any = types.any.writeonce
    keep_val: Any = types.any.writenonnull
    free_val: Any = types.any
    ro_def: str = types.str.readonly.default('d')
    in_def: str = types.str.internal.default('d')


@jsonclass(class_graph=G)
class Outer:
    id: str = types.str.primary
    emb_obj: Rules = types.objof('Rules')
    emb_list: list[Rules] = types.listof('Rules')
    emb_dict: dict[str, Rules] = types.dictof('Rules')
    deep_list: list = types.listof(types.listof('Rules'))
    ro_emb: Rules = types.objof('Rules').readonly
    once_emb: Rules = types.objof('Rules').writeonce
    keep_emb: Rules = types.objof('Rules').writenonnull
    in_list: list[str] = types.listof(str).internal
    ro_list: list[str] = types.listof(str).readonly
    ro_dict: dict[str, str] = types.dictof(str).readonly
    once_list: list[str] = types.listof(str).writeonce
    once_dict: dict[str, str] = types.dictof(str).writeonce
    keep_list: list[str] = types.listof(str).writenonnull
    free_list: list[str] = types.listof(str)


@jsonclass(class_graph=G)
class Owner:
    id: str = types.str.primary
    ro_val: str = types.str.readonly
    in_val: str = types.str.internal
    once_val: str = types.str.writeonce
    keep_val: str = types.str.writenonnull
    free_val: str = types.str
    items: list[Item] = types.listof('Item').linkedby('owner')


@jsonclass(class_graph=G)
class Item:
    id: str = types.str.primary
    ro_val: str = types.str.readonly
    in_val: str = types.str.internal
    once_val: str = types.str.writeonce
    keep_val: str = types.str.writenonnull
    free_val: str = types.str
    owner: Owner = types.objof('Owner').linkto


@jsonclass(class_graph=G)
class Tgt:
    id: str = types.str.primary
    name: str


@jsonclass(class_graph=G)
class IntTgt:
    id: int = types.int.primary
    name: str


@jsonclass(class_graph=G)
class Refs:
    id: str = types.str.primary
    ro_ref: Tgt = types.objof('Tgt').linkto.readonly
    in_ref: Tgt = types.objof('Tgt').linkto.internal
    once_ref: Tgt = types.objof('Tgt').linkto.writeonce
    keep_ref: Tgt = types.objof('Tgt').linkto.writenonnull
    free_ref: Tgt = types.objof('Tgt').linkto
    ro_tags: list[Tgt] = types.listof('Tgt').linkto.readonly
    once_tags: list[Tgt] = types.listof('Tgt').linkto.writeonce
    free_tags: list[Tgt] = types.listof('Tgt').linkto
    once_num: IntTgt = types.objof('IntTgt').linkto.writeonce
    ro_num: IntTgt = types.objof('IntTgt').linkto.readonly


@jsonclass(class_graph=G)
class Par:
    id: str = types.str.primary
    ro_kids: list[Kid] = types.listof('Kid').linkedby('ro_par').readonly
    kids: list[Kid] = types.listof('Kid').linkedby('par')
    ro_one: One = types.objof('One').linkedby('ro_par').readonly


@jsonclass(class_graph=G)
class Kid:
    id: str = types.str.primary
    ro_par: Par = types.objof('Par').linkto.readonly
    par: Par = types.objof('Par').linkto


@jsonclass(class_graph=G)
class One:
    id: str = types.str.primary
    ro_par: Par = types.objof('Par').linkto


RULES = ['ro_val', 'in_val', 'once_val', 'keep_val', 'free_val']


def camel(s):
    head, *rest = s.split('_')
    return head + ''.join(r.capitalize() for r in rest)


def model_write(cur, name, value):
    """cur: dict of field values; the documented rule of the field."""
    rule = name.split('_')[0]
    if rule in ('ro', 'in'):
        return
    if rule == 'once' and cur[name] is not None:
        return
    if rule == 'keep' and value is None:
        return
    cur[name] = value


def state(o, names=RULES):
    return {n: getattr(o, n) for n in names}


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


class World:
    dead = False


class FlatSys:
    """Histories of batch writes to one object with every rule."""

    def __init__(self, values, seedv=None):
        self.values = values
        self.seedv = seedv

    def build(self):
        w = World()
        w.o = Rules()
        w.m = dict.fromkeys(RULES)
        if self.seedv:
            w.o.update(**self.seedv)
            w.m.update(self.seedv)
        w.d = ['d', 'd']
        return w

    def ops(self, w):
        out = []
        for n in RULES + ['ro_def', 'in_def']:
            for k in range(len(self.values)):
                out.append(('set', n, k))
                out.append(('set', camel(n), k))
        for k in range(len(self.values)):
            out.append(('all', 0, k))
            out.append(('all', 1, k))
            for j in range(len(self.values)):
                out.append(('both', j, k))
            out += [('update', n, k) for n in RULES]
        return out

    def step(self, w, op):
        kind, a, k = op
        v = self.values[k]
        if kind == 'set':
            r = w.o.set(**{a: v})
            expect(r is w.o, 'set did not return the object')
            for n in RULES:
                if a in (n, camel(n)):
                    model_write(w.m, n, v)
        elif kind == 'all':
            f = camel if a else str
            w.o.set(**{f(n): v for n in RULES})
            for n in RULES:
                model_write(w.m, n, v)
        elif kind == 'both':       # both casings of every name at once
            u = self.values[a]
            w.o.set(**{n: u for n in RULES}, **{camel(n): v for n in RULES})
            got = state(w.o)
            for n in RULES:
                before = dict(w.m)
                alts = []
                for x in (u, v):
                    m = dict(before)
                    model_write(m, n, x)
                    alts.append(m[n])
                if n == 'keep_val':        # the non-null one may win
                    alts += [x for x in (u, v) if x is not None]
                expect(any(plain(got[n]) == plain(x) for x in alts),
                       f'{n} became {got[n]!r} from {before[n]!r} with input '
                       f'{u!r} / {v!r}')
                w.m[n] = plain(got[n])
        elif kind == 'update':
            w.o.update(**{a: v})
            w.m[a] = v
        eq(plain(state(w.o)), w.m, f'after {op}')
        eq([w.o.ro_def, w.o.in_def], w.d, f'defaults after {op}')

    def key(self, w):
        return canon(w.o), repr(w.m)


class RefSys:
    """Histories of object and key writes to references with every rule."""
    ONE = ['ro_ref', 'in_ref', 'once_ref', 'keep_ref', 'free_ref']
    MANY = ['ro_tags', 'once_tags', 'free_tags']

    def __init__(self, saved):
        self.saved = saved

    def build(self):
        w = World()
        w.o = Refs(id='r')
        w.m = {n: (None, False) for n in self.ONE}     # key, loaded
        w.m.update({n: ((), False) for n in self.MANY})
        if self.saved:
            w.o._mark_unmodified()
        return w

    def ops(self, w):
        out = []
        for n in self.ONE:
            for c in (0, 1):
                for v in ('1', '2', None):
                    out.append(('key', n, v, c))
                out.append(('obj', n, '1', c))
                out.append(('obj', n, '2', c))
                key, loaded = w.m[n]
                if loaded or key is None or n[:2] in ('ro', 'in'):
                    out.append(('obj', n, None, c))
            out.append(('trust', n, '3', 0))
        for n in self.MANY:
            for c in (0, 1):
                out.append(('keys', n, ('1', '2'), c))
                out.append(('keys', n, ('3',), c))
                out.append(('objs', n, ('1',), c))
                out.append(('objs', n, ('2', '3'), c))
            out.append(('trusts', n, ('4',), 0))
        return out

    def step(self, w, op):
        kind, n, v, c = op
        f = camel if c else str
        kname = n[:-1] + '_ids' if n in self.MANY else n + '_id'
        key, loaded = w.m[n]
        rule = n.split('_')[0]
        deny = (rule in ('ro', 'in') or rule == 'once' and bool(key)
                or rule == 'keep' and v is None)
        if kind == 'key':
            w.o.set(**{f(kname): v})
            if not deny and v is not None:
                w.m[n] = (v, loaded and key == v)
        elif kind == 'obj':
            w.o.set(**{f(n): None if v is None else {'id': v}})
            if not deny:
                w.m[n] = (v, v is not None)
        elif kind == 'trust':
            w.o.update(**{kname: v})
            w.m[n] = (v, loaded and key == v)
        elif kind == 'keys':
            w.o.set(**{f(kname): list(v)})
            if not deny:
                w.m[n] = (v, False)
        elif kind == 'objs':
            w.o.set(**{f(n): [{'id': x} for x in v]})
            if not deny:
                w.m[n] = (v, True)
        elif kind == 'trusts':
            w.o.update(**{kname: list(v)})
            w.m[n] = (v, False)
        for n in self.ONE:
            key, loaded = w.m[n]
            eq(getattr(w.o, n + '_id'), key, f'{n} key after {op}')
            t = getattr(w.o, n)
            if loaded:
                expect(t is not None and t.id == key, f'{n} after {op}: {t}')
            else:
                expect(t is None or t.id == key, f'{n} after {op}: {t}')
        for n in self.MANY:
            keys, loaded = w.m[n]
            eq(sorted(getattr(w.o, n[:-1] + '_ids') or []), sorted(keys),
               f'{n} keys after {op}')
            ts = getattr(w.o, n) or []
            expect({t.id for t in ts} <= set(keys), f'{n} after {op}: {ts}')

    def key(self, w):
        return canon(w.o), repr(w.m)


VALS = [None, 'a', 'b']


def subsets():
    """Every way to give the five rule fields: absent, null or a value."""
    for combo in product(('-', None, 'a'), repeat=5):
        yield {n: v for n, v in zip(RULES, combo) if v != '-'}


def expected(given, base=None):
    m = dict(base) if base else dict.fromkeys(RULES)
    for n, v in given.items():
        model_write(m, n, v)
    return m


def wrap(pos, d):
    return {'emb_obj': {'emb_obj': d}, 'emb_list': {'emb_list': [{}, d]},
            'emb_dict': {'emb_dict': {'k': d}},
            'deep_list': {'deep_list': [[d], []]},
            'keep_emb': {'keep_emb': d}, 'once_emb': {'once_emb': d}}[pos]


def fetch(pos, o):
    if pos == 'emb_list':
        return o.emb_list[1]
    if pos == 'emb_dict':
        return o.emb_dict['k']
    if pos == 'deep_list':
        return o.deep_list[0][0]
    return getattr(o, pos)


POS = ['emb_obj', 'emb_list', 'emb_dict', 'deep_list', 'keep_emb', 'once_emb']


def nested_cases():
    for pos in POS:
        for entry in ('build', 'set'):
            for c in (0, 1):
                for given in subsets():
                    def go(pos=pos, entry=entry, c=c, given=given):
                        f = camel if c else str
                        d = {f(k): v for k, v in given.items()}
                        d[f('ro_def')] = 'x'
                        inp = {f(k): v for k, v in wrap(pos, d).items()}
                        if entry == 'build':
                            o = Outer(**inp)
                        else:
                            o = Outer()
                            o.set(**inp)
                        s = fetch(pos, o)
                        expect(isinstance(s, Rules), f'{pos} is {s!r}')
                        eq(state(s), expected(given), f'{pos} {entry} {inp}')
                        if entry == 'build':   # (set does not fill defaults)
                            eq(s.ro_def, 'd', 'default of a read only field')
                        else:
                            expect(s.ro_def in (None, 'd'),
                                   f'read only field became {s.ro_def!r}')
                        return repr((pos, entry, given))
                    yield [pos, entry, c, sorted(map(str, given.items()))], go


def build_cases():
    """Building a flat object from every subset of keys."""
    for c in (0, 1):
        for given in subsets():
            def go(c=c, given=given):
                f = camel if c else str
                o = Rules(**{f(k): v for k, v in given.items()},
                          **{f('ro_def'): 'x', f('in_def'): 'x'})
                eq(state(o), expected(given), f'built from {given}')
                eq([o.ro_def, o.in_def], ['d', 'd'], 'defaults')
                o.update(**{n: 't' for n in RULES}, ro_def='t', in_def='t')
                eq(state(o), dict.fromkeys(RULES, 't'), 'trusted update')
                eq([o.ro_def, o.in_def], ['t', 't'], 'trusted update')
                return repr(given)
            yield [c, sorted(map(str, given.items()))], go


def dup_cases():
    """The same object occurs several times in one input."""
    few = [{}, {'once_val': 'a'}, {'once_val': 'b'}, {'once_val': None},
           {'keep_val': 'a'}, {'keep_val': None}, {'free_val': 'a'},
           {'free_val': None}, {'ro_val': 'a', 'in_val': 'a'},
           {n: 'a' for n in RULES}, {n: 'b' for n in RULES},
           {n: None for n in RULES}]
    for shape in ('siblings', 'root-nested', 'sibling-nested'):
        for entry in ('build', 'set'):
            for i, a in enumerate(few):
                for j, b in enumerate(few):
                    def go(shape=shape, entry=entry, a=a, b=b):
                        if shape == 'siblings':
                            inp = {'id': 'o', 'items': [
                                {'id': '1', **a}, {'id': '1', **b}]}
                        elif shape == 'root-nested':
                            inp = {'id': 'o', **a, 'items': [
                                {'id': '1', 'owner': {'id': 'o', **b}}]}
                        else:
                            inp = {'id': 'o', 'items': [
                                {'id': '2', 'owner': {'id': 'o', 'items': [
                                    {'id': '1', **a}]}}, {'id': '1', **b}]}
                        if entry == 'build':
                            o = Owner(**inp)
                        else:
                            o = Owner()
                            o.set(**inp)
                        if shape == 'root-nested':
                            t = o
                        else:
                            t = [x for x in o.items if x.id == '1'][0]
                        m = expected(b, expected(a))
                        eq(state(t), m, f'{shape} {entry} {inp}')
                        return repr((shape, m))
                    yield [shape, entry, i, j], go


def rule_positions():
    """Containers, embedded objects and foreign references under each rule,
    with and without a previous value."""
    lists = {'ro_list': [['x'], [], None], 'in_list': [['x'], [], None],
             'once_list': [['x'], ['y'], [], None],
             'keep_list': [['x'], ['y'], [], None],
             'free_list': [['x'], [], None],
             'ro_dict': [{'a': 'x'}, {}, None],
             'once_dict': [{'a': 'x'}, {'b': 'y'}, {}, None]}
    for n, vals in lists.items():
        for prev in vals + [None]:
            for seq in product(vals, repeat=2):
                for c in (0, 1):
                    def go(n=n, prev=prev, seq=seq, c=c):
                        f = camel if c else str
                        o = Outer()
                        o.update(**{n: prev})
                        m = {n: prev}
                        for v in seq:
                            o.set(**{f(n): v})
                            model_write(m, n, v)
                            eq(plain(getattr(o, n)), m[n],
                               f'{n} from {prev!r} by {seq!r}')
                        return repr((n, m))
                    yield [n, prev, list(seq), c], go
    for n in ('ro_emb', 'once_emb', 'keep_emb'):
        for prev in (None, 'p'):
            for seq in product(('x', 'y', None), repeat=2):
                def go(n=n, prev=prev, seq=seq):
                    o = Outer()
                    if prev:
                        o.update(**{n: Rules(free_val=prev)})
                    m = {n: prev}
                    for v in seq:
                        o.set(**{n: v and {'free_val': v}})
                        model_write(m, n, v)
                        e = getattr(o, n)
                        eq(e and e.free_val, m[n], f'{n} by {seq!r}')
                    return repr((n, m))
                yield [n, prev, list(seq)], go
    for c in (0, 1):
        for prev in (0, 1):
            for inp in ([], [{'id': 'n'}], None):
                for n in ('ro_kids', 'ro_one'):
                    def go(c=c, prev=prev, inp=inp, n=n):
                        o = Par(id='p')
                        k = Kid(id='k') if n == 'ro_kids' else One(id='k')
                        if prev:
                            setattr(o, n, [k] if n == 'ro_kids' else k)
                        v = inp if n == 'ro_kids' else (inp and inp[0])
                        o.set(**{camel(n) if c else n: v})
                        now = getattr(o, n)
                        now = now or [] if n == 'ro_kids' else \
                            [now] if now else []
                        expect([x.id for x in now] == ['k'] * prev,
                               f'{n} became {now} by {v!r}')
                        if not prev:
                            b = Par(id='q', **{camel(n) if c else n: v})
                            expect(not getattr(b, n), f'built {n} from {v!r}')
                    yield [n, c, prev, repr(inp)], go
    for n in ('once_num', 'ro_num'):
        for first, second in product((0, 1, 2), repeat=2):
            for forms in product((0, 1), repeat=2):
                def go(n=n, first=first, second=second, forms=forms):
                    o = Refs(id='r')
                    want = None
                    for v, form in zip((first, second), forms):
                        o.set(**({n: {'id': v}} if form
                                 else {n + '_id': v}))
                        if n == 'once_num' and want is None:
                            want = v
                        eq(getattr(o, n + '_id'), want, f'{n} := {v}')
                yield [n, first, second, list(forms)], go
    for c in (0, 1):
        for key in ('ro_par_id', 'ro_par', 'par_id', 'par'):
            for depth in (0, 1):
                def go(c=c, key=key, depth=depth):
                    f = camel if c else str
                    v = 'z' if key.endswith('_id') else {'id': 'z'}
                    if depth:
                        root = Par(id='p', kids=[{'id': 'k', f(key): v}])
                        k = root.kids[0]
                        if key[:2] == 'ro':
                            expect(k.par is root, 'kid lost its parent')
                    else:
                        k = Kid(id='k', **{f(key): v})
                    if key[:2] == 'ro':
                        eq((k.ro_par, k.ro_par_id), (None, None), key)
                    elif not depth:
                        eq(k.par_id, 'z', key)
                yield ['key', c, key, depth], go


def keypath_cases():
    """Key paths obey the rules of every field they go through."""
    for n in ('ro_list', 'in_list', 'once_list', 'keep_list', 'free_list'):
        for path in ('{}.0', '{}[0]'):
            for entry in ('set', 'set2'):
                def go(n=n, path=path, entry=entry):
                    o = Outer()
                    o.update(**{n: ['x']})
                    if entry == 'set2':
                        o._mark_unmodified()
                    o.set(**{path.format(n): 'hacked', 'free_list': ['z']}
                          if n != 'free_list' else
                          {path.format(n): 'hacked'})
                    ok = n in ('keep_list', 'free_list')
                    eq(plain(getattr(o, n)), ['hacked' if ok else 'x'],
                       path.format(n))
                    if n != 'free_list':
                        eq(plain(o.free_list), ['z'], 'other field')
                yield [n, path, entry], go
    for n in ('ro_dict', 'once_dict'):
        for path in ('{}.a', '{}[a]', '{}.new'):
            def go(n=n, path=path):
                o = Outer()
                o.update(**{n: {'a': 'x'}})
                o.set(**{path.format(n): 'hacked'})
                eq(plain(getattr(o, n)), {'a': 'x'}, path.format(n))
            yield [n, path], go
    g = 'verif-c08-deep'

    @jsonclass(class_graph=g)
    class Inner:
        v: Any = types.str
        ro: Any = types.str.readonly
        once: Any = types.str.writeonce
        box: Any = types.dictof(types.listof(str))
        ro_box: Any = types.dictof(types.listof(str)).readonly
        once_box: Any = types.dictof(types.listof(str)).writeonce

    @jsonclass(class_graph=g)
    class Deep:
        x: Any = types.dictof(types.any)
        ro_x: Any = types.dictof(types.any).readonly
        once_x: Any = types.dictof(types.any).writeonce
        o: Any = types.objof('Inner')
        ro_o: Any = types.objof('Inner').readonly
        in_o: Any = types.objof('Inner').internal
        once_o: Any = types.objof('Inner').writeonce
        os: Any = types.listof('Inner')
        ro_os: Any = types.listof('Inner').readonly
        once_os: Any = types.listof('Inner').writeonce
        ds: Any = types.dictof(types.listof('Inner'))
        ro_ds: Any = types.dictof(types.listof('Inner')).readonly

    def fresh():
        def inner():
            return Inner().update(v='v', ro='v', once='v', box={'k': ['v']},
                                  ro_box={'k': ['v']}, once_box={'k': ['v']})
        return Deep().update(
            o=inner(), ro_o=inner(), in_o=inner(), once_o=inner(),
            os=[inner()], ro_os=[inner()], once_os=[inner()],
            ds={'k': [inner()]}, ro_ds={'k': [inner()]})
    for f, n, saved in product(
            ('o', 'ro_o', 'in_o', 'once_o', 'os.0', 'ro_os.0', 'once_os.0',
             'ds.k.0', 'ro_ds.k.0'),
            ('v', 'ro', 'once', 'box.k', 'box.k.0', 'ro_box.k', 'ro_box.k.0',
             'ro_box.new', 'once_box.k.0', 'once_box.new'), (0, 1)):
        def go(f=f, n=n, saved=saved):
            o, path = fresh(), f'{f}.{n}'
            if saved:
                o._mark_unmodified()
            v = ['w'] if n.endswith(('.k', '.new')) else 'w'
            o.set(**{path: v})
            want = fresh()
            if not path.startswith(('ro', 'in', 'once')) and \
                    n[:2] not in ('ro', 'on'):
                at = want
                keys = path.split('.')
                for k in keys[:-1]:
                    at = getattr(at, k) if hasattr(at, 'update') and not \
                        isinstance(at, dict) else \
                        at[int(k)] if isinstance(at, list) else at[k]
                if isinstance(at, list):
                    at[int(keys[-1])] = v
                elif isinstance(at, dict):
                    at[keys[-1]] = v
                else:
                    setattr(at, keys[-1], v)
            eq(repr(o), repr(want), f'{path} := {v!r}')
        yield ['deep', f, n, saved], go
    for n, held in product(('x', 'ro_x', 'once_x'),
                           ({}, {'a': None}, {'a': 0}, {'a': 'x'})):
        for k in ('a', 'new'):
            def go(n=n, held=held, k=k):
                o = Deep()
                o.update(**{n: dict(held)})
                o.set(**{f'{n}.{k}': 'hacked'})
                eq(plain(getattr(o, n)), {**held, k: 'hacked'} if n == 'x'
                   else held, f'{n}.{k}')
            yield ['falsy', n, repr(held), k], go
    for pos, path in (('emb_obj', 'emb_obj'), ('emb_list', 'emb_list.1'),
                      ('emb_list', 'emb_list[1]'), ('emb_dict', 'emb_dict.k'),
                      ('deep_list', 'deep_list.0.0'), ('ro_emb', 'ro_emb'),
                      ('once_emb', 'once_emb'), ('keep_emb', 'keep_emb')):
        for n in RULES:
            for prev in (None, 'p'):
                for v in ('v', None):
                    def go(pos=pos, path=path, n=n, prev=prev, v=v):
                        o = Outer()
                        s = Rules()
                        s.update(**{n: prev})
                        o.update(**(wrap(pos, s) if pos != 'ro_emb'
                                    else {'ro_emb': s}))
                        if pos == 'emb_list':
                            o.emb_list[0] = Rules()
                        o.set(**{f'{path}.{n}': v})
                        m = {n: prev}
                        if pos not in ('ro_emb', 'once_emb'):
                            model_write(m, n, v)
                        eq(getattr(s, n), m[n], f'{path}.{n} := {v!r}')
                    yield [pos, path, n, prev, v], go


def scenarios(tier):
    deep = tier == 'thorough'
    out = [
        Bfs('flat/str', FlatSys([None, 'a', 'b']), 3 + deep),
        Bfs('flat/falsy', FlatSys([None, 0, '', 'x']), 2 + deep),
        Bfs('flat/false', FlatSys([None, False, 'x']), 2 + deep),
        Bfs('flat/containers', FlatSys([None, [], {}, ['x'], {'y': [1]}]),
            2 + deep),
        Bfs('flat/protected-values', FlatSys(
            [None, 'a', 'b'], {n: 's' for n in RULES}), 3),
        Bfs('refs/new', RefSys(False), 2 + deep),
        Bfs('refs/saved', RefSys(True), 2 + deep),
        Enum('nested', nested_cases), Enum('build', build_cases),
        Enum('duplicates', dup_cases), Enum('positions', rule_positions),
        Enum('keypaths', keypath_cases),
    ]
    for s in out[:4]:
        s.weight = 2
    return out
