"""Relationship worlds: real linked objects plus an independent link model.

A world has a few objects, one or two relationships between them, and an
operation alphabet that covers assignment from both sides and every mutator of
the list side.  The model is a plain symmetric relation with cardinalities.
"""
from __future__ import annotations
import itertools
from typing import Optional
from mc.core import canon, expect, eq
from jsonclasses import jsonclass, types


# ---- classes ---------------------------------------------------------------

@jsonclass(class_graph='vrel')
class OneL:
    id: int = types.int.primary
    tag: str
    b: Optional['OneR'] = types.objof('OneR').linkto


@jsonclass(class_graph='vrel')
class OneR:
    id: int = types.int.primary
    tag: str
    a: Optional[OneL] = types.objof('OneL').linkedby('b')


@jsonclass(class_graph='vrel')
class Owner:
    id: int = types.int.primary
    tag: str
    items: list['Item'] = types.listof('Item').linkedby('owner')


@jsonclass(class_graph='vrel')
class Item:
    id: int = types.int.primary
    tag: str
    owner: Optional[Owner] = types.objof('Owner').linkto


@jsonclass(class_graph='vrel')
class ThruL:
    id: int = types.int.primary
    tag: str
    rs: list['ThruR'] = types.listof('ThruR').linkedthru('ls')


@jsonclass(class_graph='vrel')
class ThruR:
    id: int = types.int.primary
    tag: str
    ls: list[ThruL] = types.listof('ThruL').linkedthru('rs')


@jsonclass(class_graph='vrel')
class Song:
    id: int = types.int.primary
    tag: str
    singers: list['Singer'] = types.listof('Singer').linkto


@jsonclass(class_graph='vrel')
class Singer:
    id: int = types.int.primary
    tag: str
    songs: list[Song] = types.listof('Song').linkedby('singers')


@jsonclass(class_graph='vrel')
class Node:
    id: int = types.int.primary
    tag: str
    parent: Optional['Node'] = types.objof('Node').linkto
    children: list['Node'] = types.listof('Node').linkedby('parent')


@jsonclass(class_graph='vrel')
class User:
    id: int = types.int.primary
    tag: str
    authored: list['Doc'] = types.listof('Doc').linkedby('author')
    edited: list['Doc'] = types.listof('Doc').linkedby('editor')
    pinned: Optional['Doc'] = types.objof('Doc').linkto


@jsonclass(class_graph='vrel')
class Doc:
    id: int = types.int.primary
    tag: str
    author: Optional[User] = types.objof('User').linkto
    editor: Optional[User] = types.objof('User').linkto
    pinner: Optional[User] = types.objof('User').linkedby('pinned')


@jsonclass(class_graph='vrel')
class Shelf:
    id: int = types.int.primary
    tag: str
    books: list['Book'] = types.listof('Book').linkto
    best: Optional['Book'] = types.objof('Book').linkto


@jsonclass(class_graph='vrel')
class Book:
    id: int = types.int.primary
    tag: str


ONE, MANY = 'one', 'many'

# kind -> (objects [(class, count)], relations
#          [(class, field, card, keyname | None, class, field, card, keyname)])
KINDS = {
    '1-1': ([(OneL, 2), (OneR, 2)],
            [(OneL, 'b', ONE, 'b_id', OneR, 'a', ONE, None)]),
    '1-n': ([(Owner, 2), (Item, 3)],
            [(Owner, 'items', MANY, None, Item, 'owner', ONE, 'owner_id')]),
    'n-n-thru': ([(ThruL, 2), (ThruR, 2)],
                 [(ThruL, 'rs', MANY, None, ThruR, 'ls', MANY, None)]),
    'n-n-local': ([(Song, 2), (Singer, 3)],
                  [(Song, 'singers', MANY, 'singer_ids',
                    Singer, 'songs', MANY, None)]),
    'tree': ([(Node, 3)],
             [(Node, 'parent', ONE, 'parent_id',
               Node, 'children', MANY, None)]),
    'multi': ([(User, 2), (Doc, 2)],
              [(User, 'authored', MANY, None, Doc, 'author', ONE, 'author_id'),
               (User, 'edited', MANY, None, Doc, 'editor', ONE, 'editor_id'),
               (User, 'pinned', ONE, 'pinned_id', Doc, 'pinner', ONE, None)]),
    'one-way': ([(Shelf, 2), (Book, 2)],
                [(Shelf, 'best', ONE, 'best_id', Book, None, MANY, None)]),
    'one-sided': ([(Shelf, 2), (Book, 3)],
                  [(Shelf, 'books', MANY, 'book_ids', Book, None, MANY, None),
                   (Shelf, 'best', ONE, 'best_id', Book, None, MANY, None)]),
}


class World:
    def name(self, o):
        return next(n for n, x in self.objs.items() if x is o)


class RelSystem:
    """Base Bfs system; subclasses add the property-specific ``judge``."""

    def __init__(self, kind, new=False, ids=True, rich=True, keys=False,
                 limit_rel=None, via='setattr', counts=None, pre=None,
                 blank=False):
        self.blank = blank          # every second object has no primary key
        self.counts = counts
        self.pre = pre
        self.via = via
        self.kind, self.new, self.ids = kind, new, ids
        self.rich, self.keys = rich, keys
        self.ocfg, self.rels = KINDS[kind]
        if limit_rel is not None:
            self.rels = self.rels[:limit_rel]
        # (class, field) -> (card, keyname, other class, other field, ocard)
        self.fields = {}
        for (c1, f1, d1, k1, c2, f2, d2, k2) in self.rels:
            self.fields[c1, f1] = (d1, k1, c2, f2, d2)
            if f2 is not None:
                self.fields[c2, f2] = (d2, k2, c1, f1, d1)

    # -- world ---------------------------------------------------------------
    def build(self):
        w = World()
        w.objs = {}
        n = 0
        for k, (cls, count) in enumerate(self.ocfg):
            if self.counts:
                count = self.counts[k]
            elif not self.rich and len(self.ocfg) > 1:
                count = min(count, 2)
            for i in range(count):
                name = f'{cls.__name__}{i}'
                kw = {'id': n} if self.ids and not (self.blank and i % 2) \
                    else {}
                w.objs[name] = cls(tag=f't{n}' if self.blank else 't', **kw)
                n += 1
        w.M = {(name, f): [] for name, o in w.objs.items()
               for (c, f) in self.fields if type(o) is c}
        w.U = {k: [] for k in w.M}
        w.touched = None
        if self.pre:
            self.prelink(w)
        if not self.new:
            for o in w.objs.values():
                o._mark_unmodified()
        return w

    def prelink(self, w):
        """Links the objects pairwise (``pairs``) or all to the first of the
        other class (``fan``) before the exploration starts."""
        for (c1, f1, d1, _, c2, _, d2, _) in self.rels:
            a = [n for n, o in w.objs.items() if type(o) is c1]
            b = [n for n, o in w.objs.items() if type(o) is c2]
            if c1 is c2:
                pairs = [(x, a[0]) for x in a[1:]] if self.pre == 'fan' \
                    else [(a[1], a[0])]
            elif self.pre == 'pairs':
                pairs = [*zip(a, b)]
            elif d1 == MANY:
                pairs = [(a[0], y) for y in b]
            elif d2 == MANY:
                pairs = [(x, b[0]) for x in a]
            else:
                pairs = [(a[0], b[-1])]
            for x, y in pairs:
                if y in w.M[x, f1]:
                    continue
                if d1 == ONE:
                    setattr(w.objs[x], f1, w.objs[y])
                else:
                    cur = getattr(w.objs[x], f1) or []
                    setattr(w.objs[x], f1, [*cur, w.objs[y]])
                self.m_link(w, x, f1, y)
        for k in w.U:
            w.U[k] = []
        for o in w.objs.values():
            o._clear_unlinked_object()

    def cls_of(self, name):
        return name.rstrip('0123456789')

    def fdesc(self, w, name, f):
        return self.fields[type(w.objs[name]), f]

    # -- model ---------------------------------------------------------------
    def m_unlink(self, w, x, f, y):
        g = self.fdesc(w, x, f)[3]
        w.M[x, f].remove(y)
        if y not in w.U[x, f]:
            w.U[x, f].append(y)
        if g is None:
            return
        w.M[y, g].remove(x)
        if x not in w.U[y, g]:
            w.U[y, g].append(x)

    def m_link(self, w, x, f, y, pos=None):
        card, _, _, g, ocard = self.fdesc(w, x, f)
        if y in w.M[x, f]:
            return
        if card == ONE:
            for old in list(w.M[x, f]):
                self.m_unlink(w, x, f, old)
        if ocard == ONE:
            for old in list(w.M[y, g]):
                self.m_unlink(w, y, g, old)
        if pos is None:
            pos = len(w.M[x, f])
        w.M[x, f].insert(pos, y)
        if g is not None:
            w.M[y, g].append(x)
        for k, v in (((x, f), y), ((y, g), x)):
            if v in w.U.get(k, ()):
                w.U[k].remove(v)

    def m_assign(self, w, x, f, ys):
        for old in list(w.M[x, f]):
            self.m_unlink(w, x, f, old)
        for y in ys:
            self.m_link(w, x, f, y)

    def m_becomes(self, w, x, f, ys):
        """x.f becomes ys by an in-place change (only differences act)."""
        for old in list(w.M[x, f]):
            if old not in ys:
                self.m_unlink(w, x, f, old)
        for y in ys:
            if y not in w.M[x, f]:
                self.m_link(w, x, f, y)
        w.M[x, f][:] = ys

    # -- alphabet ------------------------------------------------------------
    def ops(self, w):
        out = []
        for (x, f), cur in w.M.items():
            card, key, ocls, g, _ = self.fdesc(w, x, f)
            cands = [n for n, o in w.objs.items()
                     if type(o) is ocls and n != x]
            free = [c for c in cands if c not in cur]
            if card == ONE:
                for y in cands:
                    out.append(('assign', x, f, y))
                out.append(('assign', x, f, None))
                if self.keys and key:
                    out.append(('key', x, f, 99))
                    out.append(('key', x, f, None))
                continue
            for y in free:
                out.append(('append', x, f, y))
                if self.rich:
                    out.append(('insert0', x, f, y))
                    if cur:
                        out.append(('setitem0', x, f, y))
                        out.append(('setitem-1', x, f, y))
                        out.append(('slice01', x, f, y))
            for y in cur:
                out.append(('remove', x, f, y))
            if cur:
                out += [('clear', x, f, None), ('pop', x, f, None)]
                if self.rich:
                    out += [('pop0', x, f, None), ('del0', x, f, None),
                            ('delslice', x, f, None), ('imul0', x, f, None)]
            if self.rich and len(cur) > 1:
                out.append(('reverse', x, f, None))
                out.append(('sort', x, f, None))
            if self.rich and len(free) > 1:
                out.append(('extend', x, f, tuple(free)))
                out.append(('iadd', x, f, tuple(reversed(free))))
                out.append(('extgen', x, f, tuple(free)))
            out.append(('assignl', x, f, ()))
            if cur:
                out.append(('stale', x, f, ()))
                for y in cands[:2]:
                    if cur != [y]:
                        out.append(('stale', x, f, (y,)))
            for r in range(1, min(2, len(cands)) + 1):
                for ys in itertools.permutations(cands, r):
                    out.append(('assignl', x, f, ys))
                    if self.rich and r == 2:
                        out.append(('slice', x, f, ys))
            if self.rich:
                out.append(('assignl', x, f, None))
            if self.keys and key:
                ids = [w.objs[c].id for c in cur]
                for ks in ([], ids[:1], [*reversed(ids)], [*ids, 99],
                           [99, *ids], None):
                    out.append(('keys', x, f, None if ks is None
                                else tuple(ks)))
                if ids:
                    out.append(('keyremove', x, f, ids[0]))
                    out.append(('keyset', x, f, 99))
                if len(ids) > 1:
                    out.append(('keyclear', x, f, None))
                    out.append(('keycut', x, f, 1))
                out.append(('keyappend', x, f, 98))
        return out

    def put(self, o, f, value):
        if self.via == 'setattr':
            setattr(o, f, value)
        elif self.via == 'update':
            o.update(**{f: value})
        else:
            o.set(**{f: value})

    def apply(self, w, op):
        """Applies op to the real objects and to the model."""
        kind, x, f, arg = op
        o = w.objs[x]
        M = w.M
        get = w.objs.get
        cur = list(M[x, f])
        w.order = None
        if kind == 'stale':
            # lists that were replaced don't concern the object anymore
            key = self.fdesc(w, x, f)[1]
            old = getattr(o, f), getattr(o, key) if key else None
            self.apply(w, ('assignl', x, f, arg))
            live = getattr(o, f), getattr(o, key) if key else None
            for h, l, more in ((old[0], live[0], [
                    b for b in w.objs.values()
                    if type(b) is self.fdesc(w, x, f)[2] and b is not o]),
                    (old[1], live[1], [71, 72])):
                if isinstance(h, list) and h is not l:
                    h.reverse()
                    del h[:1]
                    h.extend(m for m in more
                             if not any(m is b for b in h))
                    h.pop()
                    h.clear()
            return
        if kind == 'assign':
            self.put(o, f, None if arg is None else get(arg))
            if arg is None:
                self.m_assign(w, x, f, ())
            elif arg not in cur:
                self.m_link(w, x, f, arg)
            return
        if kind == 'assignl':
            self.put(o, f, None if arg is None else [get(y) for y in arg])
            if arg != tuple(cur):
                self.m_assign(w, x, f, arg or ())
            w.order = (x, f)
            return
        key = self.fdesc(w, x, f)[1]
        if kind == 'key':
            setattr(o, key, arg)
            if cur or arg is not None:
                self.m_assign(w, x, f, ())
            w.pending[x, f] = arg
            return
        if kind.startswith('key'):
            self.apply_keys(w, kind, x, f, key, arg)
            return
        real = getattr(o, f)
        if real is None:
            setattr(o, f, [])
            real = getattr(o, f)
        want = list(cur)
        if kind == 'append':
            real.append(get(arg)); want.append(arg)           # noqa: E702
        elif kind == 'insert0':
            real.insert(0, get(arg)); want.insert(0, arg)     # noqa: E702
        elif kind == 'setitem0':
            real[0] = get(arg); want[0] = arg                 # noqa: E702
        elif kind == 'setitem-1':
            real[-1] = get(arg); want[-1] = arg               # noqa: E702
        elif kind == 'slice01':
            real[0:1] = [get(arg)]; want[0:1] = [arg]         # noqa: E702
        elif kind == 'remove':
            # without ids equal objects are indistinguishable to list.remove
            if self.ids:
                real.remove(get(arg)); want.remove(arg)       # noqa: E702
            else:
                i = want.index(arg)
                del real[i]; del want[i]                      # noqa: E702
        elif kind == 'clear':
            real.clear(); want.clear()                        # noqa: E702
        elif kind == 'pop':
            expect(real.pop() is get(want.pop()), 'pop returned another')
        elif kind == 'pop0':
            expect(real.pop(0) is get(want.pop(0)), 'pop(0) returned another')
        elif kind == 'del0':
            del real[0]; del want[0]                          # noqa: E702
        elif kind == 'delslice':
            del real[0:1]; del want[0:1]                      # noqa: E702
        elif kind == 'imul0':
            real *= 0; want *= 0                              # noqa: E702
        elif kind == 'reverse':
            real.reverse(); want.reverse()                    # noqa: E702
        elif kind == 'sort':
            real.sort(key=w.name, reverse=True)
            want.sort(reverse=True)
        elif kind == 'extend':
            real.extend([get(y) for y in arg]); want += arg   # noqa: E702
        elif kind == 'extgen':
            real.extend(get(y) for y in arg); want += arg     # noqa: E702
        elif kind == 'iadd':
            real += [get(y) for y in arg]; want += arg        # noqa: E702
        elif kind == 'slice':
            real[:] = [get(y) for y in arg]; want = list(arg)  # noqa: E702
        else:
            raise AssertionError(kind)
        self.m_becomes(w, x, f, want)
        w.order = (x, f)

    def apply_keys(self, w, kind, x, f, key, arg):
        raise NotImplementedError

    # -- judging -------------------------------------------------------------
    def partners(self, w, name, f):
        v = getattr(w.objs[name], f)
        if v is None:
            return []
        if isinstance(v, list):
            return [w.name(i) for i in v]
        return [w.name(v)]

    def symmetric(self, w):
        for (x, f), ys in w.M.items():
            got = self.partners(w, x, f)
            if w.order == (x, f):
                expect(got == ys, f'{x}.{f} links {got}, expected {ys}')
            else:
                expect(sorted(got) == sorted(ys),
                       f'{x}.{f} links {got}, expected {ys}')
                ys[:] = got
        # independent of the model: the relation is symmetric
        for (x, f) in w.M:
            g = self.fdesc(w, x, f)[3]
            if g is None:
                continue
            for y in self.partners(w, x, f):
                expect(x in self.partners(w, y, g),
                       f'{x}.{f} links {y} but {y}.{g} does not link {x}')

    def step(self, w, op):
        self.apply(w, op)
        self.judge(w, op)

    def advance(self, w, op):
        self.apply(w, op)
        for (x, f), ys in w.M.items():
            ys[:] = self.partners(w, x, f)

    def judge(self, w, op):
        self.symmetric(w)

    def key(self, w):
        return canon(w.objs), sorted((k, tuple(v)) for k, v in w.U.items())
