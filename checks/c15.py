"""C15: validation reports every failing path, or exactly the first."""
from __future__ import annotations
from itertools import combinations, count, product
from typing import Any
from jsonclasses import jsonclass, types
from jsonclasses.excs import ValidationException
from mc.core import Enum, canon, enums, eq, expect

COUNT = count()
#: spots in the order validation meets them
SPOTS = ['aNum', 'bReq', 'emb.inVal', 'emb.more.0', 'emb.more.1',
         'embs.0.inVal', 'embs.1.inVal', 'dct.k_1.inVal', 'lst.0.1', 'lst.1.0', 'un',
         'ref.leafVal', 'ref.sub.inVal', 'refs.0.leafVal', 'refs.1.leafVal',
         'tmp', 'zEnd']


class World:
    def __init__(self, every=None, each=None):
        g = f'verif-c15-{next(COUNT)}'
        kws = [{} if e is None else {'validate_all_fields': e}
               for e in each or [every] * 4]

        @jsonclass(class_graph=g, **kws[0])
        class Inner:
            in_val: Any = types.int.required
            more: Any = types.listof(types.str)

        @jsonclass(class_graph=g, **kws[1])
        class H:
            id: Any = types.str.primary
            a_num: Any = types.int.gt(0)
            b_req: Any = types.str.required
            emb: Any = types.objof('Inner')
            embs: Any = types.listof('Inner')
            dct: Any = types.dictof(types.objof('Inner'))
            lst: Any = types.listof(types.listof(types.int))
            un: Any = types.union([types.int, types.str])
            ref: Any = types.objof('Leaf').linkto
            refs: Any = types.listof('Leaf2').linkedby('h')
            tmp: Any = types.int.temp
            z_end: Any = types.str.maxlength(3)

        @jsonclass(class_graph=g, **kws[2])
        class Leaf:
            id: Any = types.str.primary
            leaf_val: Any = types.int.validate(lambda v: v < 10)
            sub: Any = types.objof('Inner')

        @jsonclass(class_graph=g, **kws[3])
        class Leaf2:
            id: Any = types.str.primary
            leaf_val: Any = types.str.match('^a')
            h: Any = types.objof('H').linkto
        self.Inner, self.H, self.Leaf, self.Leaf2 = Inner, H, Leaf, Leaf2

    def inner(self, bad, more=(False, False)):
        i = self.Inner()
        i.update(in_val='x' if bad else 5, more=[3 if m else 'a'
                                                 for m in more])
        return i

    def fields(self, bad):
        """Values of the plain fields with the given spots invalid."""
        b = lambda s: s in bad              # noqa: E731
        return {
            'a_num': -1 if b('aNum') else 3,
            'b_req': None if b('bReq') else 'q',
            'emb': self.inner(b('emb.inVal'), (b('emb.more.0'),
                                               b('emb.more.1'))),
            'embs': [self.inner(b('embs.0.inVal')),
                     self.inner(b('embs.1.inVal'))],
            'dct': {'ok': self.inner(False),
                    'k_1': self.inner(b('dct.k_1.inVal'))},
            'lst': [[1, '2' if b('lst.0.1') else 2],
                    [None if b('lst.1.0') else 1], []],
            'un': 1.5 if b('un') else 's', 'tmp': 'x' if b('tmp') else 4,
            'z_end': 'abcd' if b('zEnd') else 'abc'}

    def leaves(self, bad):
        leaf = self.Leaf(id='l')
        leaf.update(leaf_val=11 if 'ref.leafVal' in bad else 1,
                    sub=self.inner('ref.sub.inVal' in bad))
        more = []
        for i in (0, 1):
            x = self.Leaf2(id=f'm{i}')
            x.update(leaf_val='b' if f'refs.{i}.leafVal' in bad else 'a')
            more.append(x)
        return leaf, more

    def make(self, bad):
        o = self.H(id='h')
        leaf, more = self.leaves(bad)
        o.update(**self.fields(bad))
        o.ref = leaf
        o.refs = more
        return o


def run(o, every):
    before = canon(o)
    try:
        expect(o.validate(all_fields=every) is o, 'validate returns self')
        got = []
    except ValidationException as e:
        got = list(e.keypath_messages)
        expect(got and all(type(m) is str and m for m in
                           e.keypath_messages.values()), 'empty report')
    eq(canon(o), before, 'validation changed the object')
    return got


def judge(o, want, default=None):
    eq(sorted(run(o, True)), sorted(want), 'all failing paths')
    eq(run(o, False), want[:1], 'first failing path')
    if default is not None:
        eq(sorted(run(o, None)), sorted(want if default else want[:1]),
           'class default')
    eq(o.is_valid, not want, 'is_valid')
    eq(sorted(run(o, True)), sorted(want), 'second validation')


def subset_cases(lo, hi):
    def cases():
        ws = {e: World(e) for e in (True, False)}
        for n in range(lo, hi):
            bits = n if n < 2 ** len(SPOTS) else 0

            def go(bits=bits):
                bad = [s for i, s in enumerate(SPOTS) if bits >> i & 1]
                for e in ((True, False) if bits % 7 == 0
                          else (bool(bits % 2),)):
                    judge(ws[e].make(set(bad)), bad, e)
                return bad[:1]
            yield bits, go
    return cases


#: what validation meets in order: a spot, or the class whose setting decides
#: whether to go on behind the first failing part, and the parts
TREE = (1, ['aNum', 'bReq', (0, ['emb.inVal', (0, ['emb.more.0', 'emb.more.1'])]),
            (1, [(0, ['embs.0.inVal']), (0, ['embs.1.inVal'])]),
            (1, [(0, ['dct.k_1.inVal'])]),
            (1, [(1, ['lst.0.1']), (1, ['lst.1.0'])]), 'un',
            (2, ['ref.leafVal', (0, ['ref.sub.inVal'])]),
            (1, [(3, ['refs.0.leafVal']), (3, ['refs.1.leafVal'])]),
            'tmp', 'zEnd'])


def reported(node, bad, each):
    if isinstance(node, str):
        return [node] if node in bad else []
    out = []
    for part in node[1]:
        out += reported(part, bad, each)
        if out and not each[node[0]]:
            break
    return out


def mixed_cases():
    """Each class has its own setting."""
    for each in product((True, False), repeat=4):
        w = World(each=each)
        for n in (1, 2, 3):
            for bad in combinations(SPOTS, n):
                if n == 3 and not any('.' in b for b in bad[1:]):
                    continue

                def go(bad=set(bad), w=w, each=each):
                    want = reported(TREE, bad, each)
                    eq(sorted(run(w.make(bad), None)), sorted(want),
                       'failing paths by the setting of each class')
                    return want[:1]
                yield [each, bad], go


PLAIN = {'a_num': ['aNum'], 'b_req': ['bReq'], 'emb': ['emb.inVal', 'emb.more.0',
                                                       'emb.more.1'],
         'embs': ['embs.0.inVal', 'embs.1.inVal'], 'dct': ['dct.k_1.inVal'],
         'lst': ['lst.0.1', 'lst.1.0'], 'un': ['un'], 'z_end': ['zEnd']}


def saved_cases():
    """Fields of a saved object count only when they were changed."""
    w = World()
    names = list(PLAIN)
    for touched in product((0, 1, 2), repeat=len(names)):
        if sum(t > 0 for t in touched) > 2 and 0 in touched:
            continue
        for leaf in (0, 1, 2):
            def go(touched=touched, leaf=leaf):
                bad = set(SPOTS) - {'tmp'}
                o = w.make(bad)
                final = w.fields(bad)
                for f, t in zip(names, touched):
                    if t:
                        o.update(**{f: {'b_req': 'other'}.get(f)})
                o._mark_unmodified()
                leaf_ = o.ref
                more = list(o.refs)
                if leaf:
                    if leaf == 2:
                        leaf_.leaf_val = 2
                    for x in (leaf_, *more):
                        x._mark_unmodified()
                    if leaf == 2:
                        leaf_.leaf_val = 12
                want = []
                for f, t in zip(names, touched):
                    if t == 1:
                        o.update(**{f: final[f]})
                    elif t == 2:
                        if f in ('embs', 'lst'):      # build up in place
                            o.update(**{f: []})
                            for x in final[f]:
                                getattr(o, f).append(x)
                        elif f == 'dct':
                            o.update(dct={})
                            for k, x in final[f].items():
                                o.dct[k] = x
                        else:
                            setattr(o, f, final[f])
                    if t:
                        want += PLAIN[f]
                if leaf == 0:
                    want += ['ref.leafVal', 'ref.sub.inVal',
                             'refs.0.leafVal', 'refs.1.leafVal']
                elif leaf == 2:
                    want += ['ref.leafVal']
                want.sort(key=SPOTS.index)
                judge(o, want)
                return want[:1]
            yield [list(touched), leaf], go


def inplace_cases():
    """An in-place change makes the whole field count again."""
    w = World()
    changes = {'lst-in': lambda o: o.lst[2].append(1),
               'lst': lambda o: o.lst.append([1]),
               'lst-pop': lambda o: o.lst.pop(),
               'dct': lambda o: o.dct.update(z=w.inner(False)),
               'dct-del': lambda o: o.dct.pop('ok'),
               'embs': lambda o: o.embs.append(w.inner(False)),
               'embs-rev': lambda o: o.embs.reverse(),
               'none': lambda o: None}
    for n, c in changes.items():
        for bad in ([], ['lst.0.1'], ['dct.k_1.inVal'], ['embs.0.inVal'],
                    ['lst.1.0', 'dct.k_1.inVal', 'embs.0.inVal']):
            def go(n=n, c=c, bad=bad):
                o = w.make(set(bad))
                for x in (o, o.ref, *o.refs):
                    x._mark_unmodified()
                judge(o, [])
                c(o)
                f = n.split('-')[0]
                want = sorted((s for s in bad if s.startswith(f + '.')),
                              key=SPOTS.index)
                if n == 'embs-rev':
                    want = [s.replace('.0.', '.1.') for s in want]
                judge(o, want)
            yield [n, bad], go


class Net:
    """Objects linked in any shape, each valid or not."""

    def __init__(self):
        g = f'verif-c15-{next(COUNT)}'

        @jsonclass(class_graph=g)
        class N:
            id: Any = types.str.primary
            val: Any = types.int.gt(0)
            box: Any = types.listof('N')
            one: Any = types.objof('N')
            end: Any = types.int.lt(100)
        self.N = N


def net_cases(pks):
    net = Net()
    options = [None, 0, 1, 2]
    for links in product(options, repeat=3):
        for boxes in product([(), (0,), (1, 2), (2, 1), (1, 1), (0, 2)],
                             repeat=2):
            for bad in (1, 2, 4, 6, 7):
                def go(links=links, boxes=boxes, bad=bad):
                    ns = [net.N(id=pks[i]) if pks[i] else net.N()
                          for i in range(3)]
                    for i, n in enumerate(ns):
                        n.update(val=-1 if bad >> i & 1 else 1, end=100 if
                                 bad >> i & 1 and i != 1 else 5)
                    for i, t in enumerate(links):
                        if t is not None:
                            ns[i].one = ns[t]
                    for i, b in enumerate(boxes):
                        ns[i].box = [ns[t] for t in b]
                    want, seen = [], set()

                    def visit(i, path):
                        if i in seen:
                            return
                        seen.add(i)
                        if bad >> i & 1:
                            want.append(path + 'val')
                        if i < 2:
                            for k, t in enumerate(boxes[i]):
                                visit(t, f'{path}box.{k}.')
                        if links[i] is not None:
                            visit(links[i], path + 'one.')
                        if bad >> i & 1 and i != 1:
                            want.append(path + 'end')
                    visit(0, '')
                    judge(ns[0], want)
                    return want
                yield [list(links), list(boxes), bad], go


class Unions:
    def __init__(self):
        @jsonclass(class_graph='verif-c15-unions')
        class Base:
            id: Any = types.str.primary
            val: Any = types.int.positive
            box: Any = types.listof(types.union(
                [types.objof('Sub'), types.objof('Base')]))
            one: Any = types.union(
                [types.str.maxlength(2), types.objof('Sub'),
                 types.objof('Base')])
            plain: Any = types.objof('Base')

        @jsonclass(class_graph='verif-c15-unions')
        class Sub(Base):
            more: Any = types.int.positive
        self.classes = [Base, Sub]


def union_cases(pks):
    """Objects held by fields of union type: an object is valid if one of the
    types takes it, whatever the types tried before and wherever else the
    object is."""
    def cases():
        u = Unions()
        for kinds in product((0, 1), repeat=3):
            for links in product(['none', 'one', 'box', 'plain'], repeat=4):
                for bad in range(1, 8):
                    yield [kinds, links, bad], \
                        lambda a=(u, pks, kinds, links, bad): union_case(*a)
    return cases


def union_case(u, pks, kinds, links, bad):
    ns = [u.classes[k](id=pks[i]) if pks[i] else u.classes[k]()
          for i, k in enumerate(kinds)]
    for i, n in enumerate(ns):
        # an invalid object of the subclass fails by its own field
        n.update(**{'more' if kinds[i] else 'val':
                    -1 if bad >> i & 1 else 1})
    out: list = [{}, {}, {}]
    for how, a, b in zip(links, (0, 1, 2, 0), (1, 2, 0, 2)):
        if how == 'box':
            ns[a].box = [*(ns[a].box or []), ns[b]]
            out[a].setdefault('box', []).append(b)
        elif how != 'none':
            setattr(ns[a], how, ns[b])
            out[a][how] = [b]

    def visit(i, path, seen):
        if i in seen:
            return []
        seen.add(i)
        wrong = [path + 'val'] if bad >> i & 1 and not kinds[i] else []
        for k, t in enumerate(out[i].get('box', [])):
            attempt = set(seen)
            if visit(t, '', attempt):
                wrong.append(f'{path}box.{k}')
            else:
                seen |= attempt
        for t in out[i].get('one', []):
            attempt = set(seen)
            if visit(t, '', attempt):
                wrong.append(path + 'one')
            else:
                seen |= attempt
        for t in out[i].get('plain', []):
            wrong += visit(t, path + 'plain.', seen)
        if bad >> i & 1 and kinds[i]:
            wrong.append(path + 'more')
        return wrong
    for i in range(3):
        judge(ns[i], visit(i, '', set()))


def nest_type(shape, leaf):
    t = leaf
    for c in reversed(shape):
        t = types.listof(t) if c == 'L' else types.dictof(t)
    return t


def nest_paths(shape):
    """Keys of every leaf in order."""
    return list(product(*[(0, 1) if c == 'L' else ('k_0', 'k_1')
                          for c in shape]))


def nest_value(shape, bad, at=()):
    if len(at) == len(shape):
        return 9 if at in bad else 1
    if shape[len(at)] == 'L':
        return [nest_value(shape, bad, at + (i,)) for i in (0, 1)]
    return {k: nest_value(shape, bad, at + (k,)) for k in ('k_0', 'k_1')}


def nest_cases(depths):
    """Containers in containers: every set of invalid leaves, every mode, and
    every place at which a saved value is changed afterwards."""
    def cases():
        for d in depths:
            for shape in product('LD', repeat=d):
                for every in (None, True, False):
                    kw = {} if every is None else {
                        'validate_all_fields': every}

                    @jsonclass(class_graph=f'verif-c15-{next(COUNT)}', **kw)
                    class C:
                        v: Any = nest_type(shape, types.int.max(3))
                        w: Any = nest_type(shape, types.int.max(3).required)
                    leaves = nest_paths(shape)
                    sets = range(2 ** len(leaves)) if d < 3 else [
                        1, 2, 3, 4, 5, 0x11, 0x80, 0x81, 0xff, 0x18, 0x60]
                    for bits in sets:
                        yield [''.join(shape), every, bits], nest_case(
                            C, shape, every, bits, leaves)
    return cases


def nest_case(C, shape, every, bits, leaves):
    def name(f, path):
        return '.'.join([f, *map(str, path)])

    def go():
        bad = {p for i, p in enumerate(leaves) if bits >> i & 1}
        wrong = [name('v', p) for p in leaves if p in bad]
        more = [name('w', p) for p in leaves if p in bad]
        o = C()
        o.update(v=nest_value(shape, bad), w=nest_value(shape, set()))
        judge(o, wrong, bool(every))
        o.update(w=nest_value(shape, bad))
        judge(o, wrong + more, bool(every))
        o.update(v=None)
        judge(o, more, bool(every))
        nodes = {p[:i] for p in leaves for i in range(len(shape))}
        for node in sorted(nodes, key=repr):
            for f, report in (('v', wrong), ('w', more)):
                o = C()
                o.update(v=nest_value(shape, bad), w=nest_value(shape, bad))
                o._mark_unmodified()
                judge(o, [], bool(every))
                x = getattr(o, f)
                for k in node:
                    x = x[k]
                if isinstance(x, list):
                    x.append(x.pop())
                else:
                    x['k_1'] = x.pop('k_1')
                judge(o, report, bool(every))
        return len(bad)
    return go


def scenarios(tier):
    full = 2 ** len(SPOTS)
    s = [*enums(6, 'one-two-many', few_cases), *enums(5, 'saved', saved_cases),
         Enum('in-place', inplace_cases),
         *enums(8, 'own-settings', mixed_cases),
         *enums(2, 'unions', union_cases(['1', '2', '3'])),
         *enums(2, 'unions-no-keys', union_cases([None, None, None])),
         *enums(2, 'nested', nest_cases([1, 2])),
         *enums(3, 'nested-deep', nest_cases([3])),
         *enums(4, 'net', lambda: net_cases(['1', '2', '3'])),
         *enums(2, 'net-equal-keys', lambda: net_cases(['1', '1', '1'])),
         *enums(2, 'net-no-keys', lambda: net_cases([None, None, None]))]
    if tier == 'thorough':
        s += enums(16, 'all-subsets', subset_cases(0, full))
    return s


def few_cases():
    """Every subset of up to three invalid spots, and all but one or two."""
    n = len(SPOTS)
    ok = {b for b in range(2 ** n)
          if bin(b).count('1') <= 3 or bin(b).count('1') >= n - 2}
    for bits, go in subset_cases(0, 2 ** n)():
        if bits in ok:
            yield bits, go
