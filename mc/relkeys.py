"""Relationship worlds extended with stored reference keys."""
from __future__ import annotations
from mc.core import expect
from mc.rel import MANY, ONE, RelSystem


class KeySystem(RelSystem):
    """Adds direct operations on stored keys.

    ``w.pending[x, f]`` are keys that are stored without a loaded object.
    """

    def __init__(self, kind, **kw):
        kw.setdefault('keys', True)
        super().__init__(kind, **kw)

    def build(self):
        w = super().build()
        w.pending = {(x, f): [] for (x, f) in w.M
                     if self.fdesc(w, x, f)[1]}
        return w

    def ops(self, w):
        out = []
        for op in super().ops(w):
            kind, x, f, arg = op
            if kind.startswith('key'):
                pend = w.pending[x, f]
                if kind == 'key' and arg is None and self.via == 'set':
                    continue
                if kind == 'key' and arg is None and any(
                        w.objs[y].id is None for y in w.M[x, f]):
                    continue        # the key is null already: no change
                if kind == 'keys' and self.via == 'set' and not arg:
                    continue
                if kind == 'keyset' and 99 in pend:
                    continue
                if kind == 'keyappend' and 98 in pend:
                    continue
            out.append(op)
        return out

    def apply(self, w, op):
        kind, x, f, arg = op
        before = {k: list(v) for k, v in w.M.items()}
        self.loose = None
        if (x, f) in w.pending and kind[:3] not in ('ass', 'key', 'sta') \
                and getattr(w.objs[x], f) is None:
            w.pending[x, f] = []        # apply() assigns an empty list first
        super().apply(w, op)
        if kind == 'key':
            w.pending[x, f] = [] if arg is None else [arg]
            w.order = None
        elif kind in ('assign', 'assignl'):
            if (x, f) in w.pending and w.pending[x, f]:
                if list(w.M[x, f]) != before[x, f] or w.M[x, f]:
                    if kind == 'assign' or list(arg or ()) != before[x, f]:
                        w.pending[x, f] = []
                else:
                    # nothing linked before or after: whether an unloaded key
                    # survives is not specified
                    self.loose = (x, f)
        # linking through the other side replaces a single stored key
        for (a, g), pend in w.pending.items():
            if pend and self.fdesc(w, a, g)[0] == ONE and w.M[a, g]:
                pend.clear()
        # unlinking through the other side drops a single stored key too
        return None

    def apply_keys(self, w, kind, x, f, key, arg):
        o = w.objs[x]
        id2 = {w.objs[n].id: n for n in w.M[x, f]}
        cur = list(w.M[x, f])
        pend = w.pending[x, f]
        if kind == 'keys':
            self.put(o, key, None if arg is None else list(arg))
            if self.same_keys(w, x, f, arg):
                return
            self.m_assign(w, x, f, [id2[k] for k in arg or () if k in id2])
            w.pending[x, f] = [k for k in arg or () if k not in id2]
            w.order = (x, f)
            return
        real = getattr(o, key)
        if kind == 'keyremove':
            real.remove(arg)
            self.m_becomes(w, x, f, [n for n in cur if n != id2[arg]])
        elif kind == 'keyset':
            first = w.objs[cur[0]].id
            real[list(real).index(first)] = arg
            self.m_becomes(w, x, f, cur[1:])
            pend.append(arg)
        elif kind == 'keyclear':
            real.clear()
            self.m_becomes(w, x, f, [])
            pend.clear()
        elif kind == 'keycut':
            keep = list(real)[:arg]
            real[arg:] = []
            self.m_becomes(w, x, f, [n for n in cur
                                     if w.objs[n].id in keep])
            pend[:] = [k for k in pend if k in keep]
        elif kind == 'keyappend':
            real.append(arg)
            pend.append(arg)
        w.order = (x, f)

    def same_keys(self, w, x, f, arg):
        """Assigning the keys already stored changes nothing."""
        return w.keys_before[x, f] == list(arg or ()) and arg is not None

    def step(self, w, op):
        w.keys_before = {(x, f): self.stored(w, x, f) for x, f in w.pending}
        super().step(w, op)

    def advance(self, w, op):
        w.keys_before = {(x, f): self.stored(w, x, f) for x, f in w.pending}
        self.apply(w, op)
        self.symmetric(w)
        self.mirrored(w)

    def stored(self, w, x, f):
        v = getattr(w.objs[x], self.fdesc(w, x, f)[1])
        if self.fdesc(w, x, f)[0] == MANY:
            return list(v) if v is not None else []
        return v

    def mirrored(self, w):
        for (x, f), pend in w.pending.items():
            card, key = self.fdesc(w, x, f)[:2]
            got = self.stored(w, x, f)
            ids = [w.objs[y].id for y in self.partners(w, x, f)]
            if card == ONE:
                if ids:
                    want = [ids[0]]
                elif self.loose == (x, f):
                    want = [None, *pend]
                    w.pending[x, f] = [got] if got is not None else []
                else:
                    want = [pend[0] if pend else None]
                expect(got in want, f'{x}.{key} is {got!r}, expected one of '
                       f'{want!r} (linked {ids})')
                continue
            if self.loose == (x, f):
                expect(got in ([], pend), f'{x}.{key} is {got!r}, expected '
                       f'{pend!r} or nothing')
                w.pending[x, f] = list(got)
                continue
            loaded = [k for k in got if k in ids]
            expect(loaded == ids, f'{x}.{key} is {got!r} but the linked '
                   f'objects are {ids!r}')
            rest = [k for k in got if k not in ids]
            expect(sorted(rest) == sorted(pend), f'{x}.{key} is {got!r}, '
                   f'expected linked {ids!r} plus {pend!r}')

    def output(self, w):
        for (x, f) in w.pending:
            card, key = self.fdesc(w, x, f)[:2]
            head, tail = key.rsplit('_', 1)
            jkey = head + tail.capitalize()
            got = w.objs[x].tojson(output_null=True)
            want = self.stored(w, x, f)
            expect(jkey in got and got[jkey] == want,
                   f'{x}.tojson() has {jkey}={got.get(jkey)!r}, stored '
                   f'{want!r}')

    def judge(self, w, op):
        self.symmetric(w)
        self.mirrored(w)
        self.output(w)
