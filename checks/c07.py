"""C07: objects taken out of a relationship are remembered until they are
saved together with the object that lost them."""
from mc.core import Bfs, canon, expect
from mc.rel import KINDS, RelSystem

LOG = []


def _record(self):
    LOG.append(self)
    self._mark_unmodified()


for _objs, _rels in KINDS.values():
    for _cls, _n in _objs:
        _cls._database_write = _record


class Sys(RelSystem):

    def ops(self, w):
        return super().ops(w) + [('save', x, None, None) for x in w.objs]

    def step(self, w, op):
        if op[0] != 'save':
            super().step(w, op)
            return
        self.save(w, op[1], judge=True)
        w.order = None
        self.judge(w, op)

    def advance(self, w, op):
        if op[0] == 'save':
            self.save(w, op[1], judge=False)
        else:
            super().advance(w, op)

    def save(self, w, x, judge):
        want = []

        def model(n):
            want.append(n)
            for (o, f), pool in w.U.items():
                if o == n:
                    for y in list(pool):
                        if y in pool:
                            pool.remove(y)
                            model(y)
        model(x)
        del LOG[:]
        before = canon([self.partners(w, a, f) for a, f in w.M])
        w.objs[x].save()
        got = [w.name(o) for o in LOG]
        if judge:
            expect(set(got) == set(want),
                   f'saving {x} wrote {got}, expected {sorted(set(want))}')
            expect(got and got[0] == x, f'saving {x} wrote {got} first')
            expect(canon([self.partners(w, a, f) for a, f in w.M]) == before,
                   'saving changed a relationship')
            for n in set(got):
                left = {k: v for k, v in w.objs[n].unlinked_objects.items()
                        if v}
                expect(not left, f'{n} still remembers {left!r} after saving')

    def judge(self, w, op):
        self.symmetric(w)
        for (x, f), pool in w.U.items():
            real = w.objs[x].unlinked_objects.get(f) or []
            got = sorted(w.name(o) for o in real)
            expect(got == sorted(pool),
                   f'{x}.unlinked_objects[{f!r}] is {got}, expected '
                   f'{sorted(pool)}')
        for x, o in w.objs.items():
            extra = {f for f, v in o.unlinked_objects.items() if v} - \
                {f for a, f in w.U if a == x}
            expect(not extra, f'{x} remembers objects for {extra}')


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for kind in KINDS:
        for new in (False, True):
            for ids in (True, False):
                if not ids and (kind in ('n-n-local', 'one-sided') or new):
                    continue
                for rich in (True, False):
                    if kind == '1-1' and rich:
                        continue
                    depth = 2 if rich or kind == 'multi' or new else 3
                    depth += (kind == '1-1') + deep
                    if rich and new and not deep:
                        continue
                    counts = {'tree': (2,), 'n-n-local': (1, 2)}.get(kind) \
                        if depth == 3 and not deep else None
                    sc = Bfs(f'{kind}/{"new" if new else "saved"}/'
                             f'{"ids" if ids else "anonymous"}/'
                             f'{"rich" if rich else "lean"}',
                             Sys(kind, new, ids, rich, counts=counts), depth)
                    sc.weight = depth * 3 + rich
                    out.append(sc)
    for kind in KINDS:
        for pre in ('pairs', 'fan'):
            sc = Bfs(f'{kind}/linked-{pre}',
                     Sys(kind, False, True, deep, pre=pre),
                     3 if kind in ('1-1', '1-n') or deep else 2)
            sc.weight = 7
            out.append(sc)
    return out
