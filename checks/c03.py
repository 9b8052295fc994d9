"""C03: containers held by an object behave exactly like the builtin ones and
keep being tracked at every depth."""
from __future__ import annotations
import copy
from typing import Any
from mc.core import Bfs, Mismatch, canon, enums, eq, expect
from mc.containers import (apply_dict, apply_list, at, dict_ops, list_ops,
                           materialise, mutations, plain, reachable, size)
from jsonclasses import jsonclass, types


@jsonclass(class_graph='vc03')
class Box:
    id: int = types.int.primary.required
    l: list = types.listof(types.int)
    d: dict = types.dictof(types.int)
    ll: list = types.listof(types.listof(types.int))
    ld: list = types.listof(types.dictof(types.int))
    dl: dict = types.dictof(types.listof(types.int))
    dd: dict = types.dictof(types.dictof(types.int))
    a: Any = types.any
    other: list = types.listof(types.int)
    quiet: dict = types.dictof(types.int)


L = lambda *x: ('L', x)                      # noqa: E731
D = lambda **x: ('D', tuple(x.items()))      # noqa: E731


class World:
    pass


class Sys:
    """One field; ops address the field's container or a nested container."""

    def __init__(self, field, start, alphabet, new, via, limit=7):
        self.field, self.start = field, start
        self.alphabet, self.new, self.via = alphabet, new, via
        self.limit = limit

    def build(self):
        w = World()
        start = materialise(self.start)
        kw = {'id': 1, 'other': [1], 'quiet': {'q': 1}}
        if self.via == 'init':
            kw[self.field] = copy.deepcopy(start)
            w.real = Box(**kw)
        else:
            w.real = Box(**kw)
            if self.via == 'assign':
                setattr(w.real, self.field, copy.deepcopy(start))
            elif self.via == 'set':
                w.real.set(**{self.field: copy.deepcopy(start)})
            else:
                w.real.update(**{self.field: copy.deepcopy(start)})
        if not self.new:
            w.real._mark_unmodified()
        w.model = {self.field: start}
        w.log = ()
        return w

    def ops(self, w):
        return [(p, n, a) for p, n, a in self.alphabet
                if reachable(w.model[self.field], p)]

    def step(self, w, op):
        path, name, args = op
        real, f = w.real, self.field
        if not self.new:
            real._mark_unmodified()
        before = plain(w.model[f])
        target = at(w.model[f], path)
        ap = apply_list if isinstance(target, list) else apply_dict
        mres = merr = rres = rerr = None
        try:
            mres = plain(ap(target, name, args))
        except Exception as e:
            merr = type(e).__name__
        w.model[f] = plain(w.model[f])   # value semantics, no aliases
        try:
            rtarget = at(getattr(real, f), path)
            rres = plain(ap(rtarget, name, args))
        except Exception as e:
            rerr = type(e).__name__
        eq(rerr, merr, f'exception of {name}')
        if name != 'popitem' or merr is None:
            eq(rres if not isinstance(rres, tuple) else tuple(rres),
               mres if not isinstance(mres, tuple) else tuple(mres),
               f'result of {name}')
        now = getattr(real, f)
        eq(now, w.model[f], f'content of {f} after {name}')
        if isinstance(now, dict):
            eq(list(now), list(w.model[f]), f'key order after {name}')
        eq(len(now), len(w.model[f]), 'len')
        changed = before != w.model[f]
        mods = {m.split('.')[0] for m in real.modified_fields}
        if self.new:
            expect(not mods and not real.is_modified,
                   f'a new object reports modifications: {mods}')
        else:
            if changed:
                expect(f in mods and real.is_modified,
                       f'{name} at {path!r} changed {f} but modified_fields='
                       f'{real.modified_fields!r}')
            expect(mods <= {f}, f'untouched fields reported: {mods}')
            p = real.persisted_modified_fields
            expect({m.split('.')[0] for m in p} == mods,
                   f'persisted_modified_fields={p!r} but {mods}')
        eq(real.other, [1], 'untouched list')
        eq(real.quiet, {'q': 1}, 'untouched dict')
        if size(w.model[f]) > self.limit:
            w.dead = True

    def key(self, w):
        return canon(w.real)


def at_path(path, ops):
    return [(tuple(path), n, a) for n, a in ops]


def nested_few(depth_items):
    return [('append', (depth_items,)), ('clear', ()), ('pop', ())]


def mutator_cases(deep):
    def cases():
        for start, path, name, args in mutations(deep):
            def go(start=start, path=path, name=name, args=args):
                s = Sys('a', start, (), False, 'init', 99)
                w = s.build()
                s.step(w, (path, name, args))
                return repr(w.model)
            yield [repr(start), repr(path), name, repr(args)], go
    return cases


def scenarios(tier):
    deep = tier == 'thorough'
    out = enums(8 if deep else 3, 'every-mutator', mutator_cases(deep))

    def add(name, field, start, alphabet, depth, limit=7):
        for new in (False, True):
            for via in ('init', 'assign', 'set', 'update'):
                if new and via in ('set', 'update'):
                    continue
                d = depth if (via == 'init' and not new) or deep else max(
                    1, depth - 1)
                sc = Bfs(f'{name}/{"new" if new else "old"}/{via}',
                         Sys(field, start, alphabet, new, via, limit), d)
                sc.weight = 10 if d == depth else 1
                out.append(sc)
    lo, do = list_ops((1, 2)), dict_ops((1, 2))
    add('list', 'l', L(1, 2), at_path([], lo), 4 if deep else 3, 6)
    add('dict', 'd', D(a=1), at_path([], do), 5 if deep else 4)
    inner_l = list_ops((7, 8))
    inner_d = dict_ops((7, 8))
    outer_ll = list_ops((L(5), L(5, 6)), bad=(('L', (99,)),))
    add('list-list', 'll', L(L(1), L(2)),
        at_path([], outer_ll) + at_path([0], inner_l)
        + at_path([-1], nested_few(9)) + at_path([1], nested_few(9)),
        3 if deep else 2, 9)
    add('list-dict', 'ld', L(D(a=1), D(b=2)),
        at_path([], list_ops((D(c=5), D(a=5)), bad=(('D', (('q', 1),)),)))
        + at_path([0], inner_d) + at_path([-1], [('setitem', ('z', 1)),
                                                 ('clear', ())]),
        3 if deep else 2, 9)
    add('dict-list', 'dl', D(a=L(1), b=L(2)),
        at_path([], dict_ops((L(5), L()))) + at_path(['a'], inner_l)
        + at_path(['b'], nested_few(9)) + at_path(['c'], nested_few(9)),
        3 if deep else 2, 9)
    add('dict-dict', 'dd', D(a=D(x=1)),
        at_path([], dict_ops((D(y=5), D()))) + at_path(['a'], inner_d)
        + at_path(['b'], [('setitem', ('z', 1)), ('clear', ())])
        + at_path(['c'], [('setitem', ('z', 1)), ('clear', ())]),
        3 if deep else 2, 9)
    any_alpha = (
        at_path([], [('setitem', ('k', D(m=L(1)))), ('setitem', ('k', L(L(1)))),
                     ('setdefault', ('n', L())), ('delitem', ('k',)),
                     ('update', (D(k=L(D(z=1))),))])
        + at_path(['k'], [('append', (D(z=L()),)), ('append', (L(4),)),
                          ('setitem', ('m', L(3))), ('insert', (0, L(4))),
                          ('setitem', (0, L(6))), ('extend', (L(L(1), L(2)),)),
                          ('iadd', (L(D(y=1)),)), ('pop', ()),
                          ('update', (D(w=D(v=1)),))])
        + at_path(['k', 0], [('append', (5,)), ('setitem', ('z', 5)),
                             ('setitem', (0, 5)), ('clear', ())])
        + at_path(['k', -1], [('append', (6,)), ('setitem', ('z', 6))])
        + at_path(['k', 'm'], [('append', (5,)), ('reverse', ())])
        + at_path(['k', 'w'], [('setitem', ('u', 5)), ('popitem', ())])
        + at_path(['k', 0, 'z'], [('append', (7,))])
        + at_path(['n'], [('append', (5,)), ('append', (L(),))])
        + at_path(['n', 0], [('append', (5,))]))
    add('any', 'a', D(k=L(1)), any_alpha, 4 if deep else 3, 12)
    return out
