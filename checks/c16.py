"""C16: saving and deleting run their steps in order and stop at failure."""
from __future__ import annotations
from itertools import count, product
from typing import Any
from jsonclasses import jsonclass, types
from jsonclasses.excs import (UnauthorizedActionException,
                              ValidationException)
from mc.core import Enum, enums, eq, expect

COUNT = count()
LOG, FAULT = [], {}


class Boom(Exception):
    pass


class Halt(BaseException):
    pass


def step(who, name):
    """One observable step; the fault plan says whether and how it fails."""
    LOG.append((who, name))
    kind = FAULT.get((who, name))
    if kind == 'raise':
        raise Boom()
    if kind == 'halt':
        raise Halt()
    if kind == 'text':
        return 'no way'
    return kind != 'deny'


def rules(action, n):
    def one(i):
        def two(obj, op):
            eq(op, 'op', 'operator of permission rule')
            r = step(obj.name, f'may-{action}-{i}')
            return None if r is True and i % 2 else r
        return two
    fs = [one(i) for i in range(n)]
    return fs[0] if n == 1 else fs


def callbacks(action, n):
    def one(i):
        def plain(obj):
            step(obj.name, f'on-{action}-{i}')

        def with_op(obj, op):
            eq(op, obj._operator, 'operator of callback')
            step(obj.name, f'on-{action}-{i}')
        return with_op if i % 2 else plain
    return [one(i) for i in range(n)]


def make_class(np, nc):
    g = f'verif-c16-{next(COUNT)}'
    conf = {'class_graph': g}
    for a in ('create', 'update', 'delete'):
        if np:
            conf['can_' + a] = rules(a, np)
        if nc:
            conf['on_' + a] = callbacks(a, nc)

    def check(name):
        def v(x, ctx):
            return step(ctx.owner.name, name)
        return v

    def hook(name):
        def h(x):
            step(x, name)
            return x
        return h

    @jsonclass(**conf)
    class A:
        id: Any = types.str.primary
        name: Any = types.any.setonsave(hook('hook0'))
        v: Any = types.int.validate(check('valid0'))
        w: Any = types.int.validate(check('valid1'))
        name2: Any = types.any.setonsave(hook('hook1'))
        bs: Any = types.listof('B').linkedby('a')
        forced: Any = types.any.fsetonsave(hook('forced'))

    @jsonclass(**conf)
    class B:
        id: Any = types.str.primary
        name: Any = types.any.setonsave(hook('hook0'))
        v: Any = types.int.validate(check('valid0'))
        a: Any = types.objof('A').linkto

    def write(self):
        step(self.name, 'write')
        self._mark_unmodified()

    def erase(self):
        step(self.name, 'erase')
        self._is_deleted = True
    for c in (A, B):
        c._database_write = write
        c._orm_delete = erase
    return A, B


def script(kind, np, nc, modified, skip):
    """Steps of one action on object a."""
    out = [f'may-{kind}-{i}' for i in range(np)]
    out += [f'on-{kind}-{i}' for i in range(nc)]
    if kind == 'delete':
        return out + ['erase']
    fresh = kind == 'create'
    if not skip:
        out += ['valid0'] if fresh or modified else []
        out += ['valid1'] if fresh else []
    if fresh or modified:
        out += ['hook0', 'hook1']
    return out + ['forced', 'write']


def faults(np, nc):
    yield None, None
    for kind in ('create', 'update', 'delete'):
        for i in range(np):
            for how in ('deny', 'text', 'raise'):
                yield f'may-{kind}-{i}', how
        for i in range(nc):
            yield f'on-{kind}-{i}', 'raise'
    for n in ('valid0', 'valid1'):
        for how in ('deny', 'text', 'raise'):
            yield n, how
    for n in ('hook0', 'hook1', 'forced', 'write', 'erase'):
        yield n, 'raise'
    yield 'on-create-0', 'halt'
    yield 'write', 'halt'


def history_cases(depth, confs):
    def cases():
        for np, nc in confs:
            A, _ = make_class(np, nc)
            ops = ['touch']
            for name, how in faults(np, nc):
                for act in ('save', 'delete', 'save-skip', 'save-all'):
                    if name and act == 'delete' and not (
                            'delete' in name or name == 'erase'):
                        continue
                    if name and act != 'delete' and (
                            'delete' in name or name == 'erase'):
                        continue
                    if name and act in ('save-skip', 'save-all') and \
                            how != 'raise':
                        continue
                    ops.append((act, name, how))
            for hist in product(ops, repeat=depth):
                if hist.count('touch') > 1 or hist[-1] == 'touch':
                    continue
                yield [np, nc, [h if h == 'touch' else list(h)
                                for h in hist]], history(A, np, nc, hist)
    return cases


def history(A, np, nc, hist):
    def go():
        o = A(id='1')
        o.update(name='a', v=1, w=1, name2='a', forced='a')
        o.opby('op')
        new, modified = True, False
        tick = 1
        out = []
        for h in hist:
            if h == 'touch':
                tick += 1
                o.v = tick
                modified = modified or not new
                continue
            act, fname, how = h
            kind = 'delete' if act == 'delete' else \
                'create' if new else 'update'
            want = script(kind, np, nc, modified, act == 'save-skip')
            FAULT.clear()
            stop = None
            if fname in want:
                FAULT[('a', fname)] = how
                stop = want.index(fname)
                want_log = want[:stop + 1]
                if act == 'save-all' and fname.startswith('valid'):
                    # all fields: the other field is still validated, if a
                    # rule refused; nothing is applied or written
                    if how != 'raise':
                        want_log = want[:want.index('hook0')]
            else:
                want_log = want
            del LOG[:]
            try:
                if act == 'delete':
                    r = o.delete()
                else:
                    r = o.save(skip_validation=act == 'save-skip',
                               validate_all_fields=act == 'save-all')
                expect(r is o, 'action returns the object')
                got = None
            except (Boom, Halt, UnauthorizedActionException,
                    ValidationException) as e:
                got = type(e).__name__
            finally:
                FAULT.clear()
            eq([n for _, n in LOG], want_log, f'steps of {act} failing at '
               f'{fname}')
            if stop is None:
                eq(got, None, 'outcome')
                if act != 'delete':
                    new = modified = False
            else:
                exp = {'raise': 'Boom', 'halt': 'Halt'}.get(how) or (
                    'ValidationException' if fname.startswith('valid')
                    else 'UnauthorizedActionException')
                eq(got, exp, f'failure of {act} at {fname} {how}')
            eq((o.is_new, o.v, o.w, o.name, o.forced),
               (new, tick, 1, 'a', 'a'), 'state')
            eq(o.is_modified, modified, 'modified')
            out.append(got)
        return [out, new, modified]
    return go


def unlinked_cases(n, depth):
    """Lost partners are saved after their owner, and again after a failure."""
    def cases():
        names = ['a', *(f'b{i}' for i in range(n))]
        A, B = make_class(1, 1)
        points = [None]
        for who in names:
            for st in ('may-create-0', 'may-update-0', 'on-create-0',
                       'on-update-0', 'valid0', 'hook0', 'write'):
                points.append((who, st))
        for saved in product((0, 1), repeat=n + 1):
            for lost in range(1, 2 ** n):
                for plan in product(points, repeat=depth):
                    for skip in (False, True):
                        yield [list(saved), lost, skip,
                               [list(p) if p else None for p in plan]], \
                            lost_case(A, B, n, saved, lost, plan, skip)
    return cases


def lost_case(A, B, n, saved, lost, plan, skip):
    def go():
        a = A(id='1')
        a.update(name='a', v=1, w=1, name2='a', forced='a')
        bs = []
        for i in range(n):
            b = B(id=str(i))
            b.update(name=f'b{i}', v=1)
            bs.append(b)
        a.bs = bs
        every = [a, *bs]
        for o, s in zip(every, saved):
            o.opby('op')
            if s:
                o._mark_unmodified()
        gone = [b for i, b in enumerate(bs) if lost >> i & 1]
        for b in gone:
            a.bs.remove(b)
        for p in [*plan, None]:
            FAULT.clear()
            if p:
                FAULT[p] = 'deny' if p[1].startswith(('may', 'valid')) \
                    else 'raise'
            del LOG[:]
            try:
                a.save(skip_validation=skip)
                ok = True
            except (Boom, UnauthorizedActionException, ValidationException):
                ok = False
            FAULT.clear()
            hit = p is not None and p in LOG
            eq(ok, not hit, f'outcome with {p}')
            if hit:
                eq(LOG[-1], p, 'steps after the failure')
            if ok:
                eq([o.name for o in every if any(o.unlinked_objects.values())
                    and (o is a or o in gone)], [], 'still listed')
            # every object that started runs its steps in order
            per = {}
            for who, st in LOG:
                per.setdefault(who, []).append(st)
            for who, sts in per.items():
                order = ['may', 'on-', 'val', 'hoo', 'for', 'wri']
                ranks = [order.index(s[:3]) for s in sts]
                runs, cur, fresh = [], [], []
                for r, st in zip(ranks, sts):
                    if r == 0:
                        cur = []
                        runs.append(cur)
                        fresh.append('create' in st)
                    cur.append(r)
                for r, new in zip(runs, fresh):
                    if r[-1] == 5 and (skip or new):
                        eq(2 in r, not skip, f'{who} is validated: {sts}')
                expect(all(r == sorted(r) for r in runs), f'{who}: {sts}')
                for r in runs[:-1]:
                    expect(r[-1] == 5, f'{who} gave up: {sts}')
            if ok:
                first = LOG.index(('a', 'write'))
                for b in gone:
                    if (b.name, 'write') in LOG:
                        expect(LOG.index((b.name, 'write')) > first,
                               'lost partner written first')
                expect(not any((b.name, 'write') in LOG for b in bs
                               if b not in gone), 'kept partner was written')
                break
        # whatever failed in between, after a success nothing is pending
        for b in gone:
            expect(b.a is None and not b.is_new and not b.is_modified,
                   f'{b.name} was never saved')
        return [ok]
    return go


def told_cases():
    """How to validate is what the caller says, for lost partners too."""
    g = f'verif-c16-{next(COUNT)}'

    @jsonclass(class_graph=g)
    class O:
        id: Any = types.str.primary
        v: Any = types.int.positive
        w: Any = types.int.positive
        one: Any = types.objof('P').linkto
        many: Any = types.listof('P').linkedby('many')

    @jsonclass(class_graph=g)
    class P:
        id: Any = types.str.primary
        v: Any = types.int.positive
        w: Any = types.int.positive
        many: Any = types.objof('O').linkto
        one: Any = types.objof('O').linkedby('one')
    wrote: list = []
    O._database_write = P._database_write = \
        lambda self: wrote.append(self.id) or self._mark_unmodified()
    for field, states, kw, new in product(
            ('one', 'many'), product((0, 1, 2, 3), repeat=2),
            ({}, {'validate_all_fields': False},
             {'validate_all_fields': True}, {'skip_validation': True},
             {'skip_validation': True, 'validate_all_fields': True}),
            (True, False)):
        def go(field=field, states=states, kw=kw, new=new):
            o, p = O(id='o'), P(id='p')
            setattr(o, field, p if field == 'one' else [p])
            if not new:
                o._mark_unmodified()
                p._mark_unmodified()
            for x, s in zip((o, p), states):
                if s & 1:
                    x.v = -1
                if s & 2:
                    x.w = -1
            if field == 'one':
                o.one = None
            else:
                o.many.pop()
            del wrote[:]
            try:
                o.save(**kw)
                got = []
            except ValidationException as e:
                got = list(e.keypath_messages)
            want, done = [], []
            for x, s in zip('op', states):
                bad = [f for f, b in (('v', 1), ('w', 2)) if s & b]
                if bad and not kw.get('skip_validation'):
                    want = bad if kw.get('validate_all_fields') else bad[:1]
                    break
                done.append(x)
            eq(got, want, 'reported')
            eq(sorted(set(wrote)), done, 'written')
            eq(list(o.unlinked_objects.get(field, [])) == [p],
               len(done) < 2, 'the lost partner is still listed')
        yield [field, states, kw, new], go


def callback_cases():
    """Callbacks may change the object before it is validated."""
    for bad in (None, 'create', 'update'):
        def go(bad=bad):
            wrote = []

            def cc(o):
                o.v = -1 if bad == 'create' else 10

            def cu(o, op):
                o.v = -2 if bad == 'update' else 20

            @jsonclass(class_graph=f'verif-c16-{next(COUNT)}', on_create=cc,
                       on_update=[cu])
            class A:
                v: Any = types.int.gt(0)
            A._database_write = lambda self: (wrote.append(self.v),
                                              self._mark_unmodified())
            o = A(v=1)
            try:
                o.save()
                ok = True
            except ValidationException:
                ok = False
            eq((ok, wrote), (bad != 'create', [10] if ok else []), 'create')
            if not ok:
                return
            try:
                o.save()
                ok = True
            except ValidationException:
                ok = False
            eq((ok, wrote), (bad != 'update', [10, 20] if ok else [10]),
               'update')
        yield [bad], go


def scenarios(tier):
    s = [*enums(4, 'histories', history_cases(2, [(1, 1), (2, 2)])),
         Enum('bare', history_cases(2, [(0, 0), (0, 1), (1, 0)])),
         *enums(4, 'unlinked', unlinked_cases(2, 1)),
         Enum('told', told_cases), Enum('callbacks', callback_cases)]
    if tier == 'thorough':
        s += [*enums(12, 'longer', history_cases(3, [(1, 1)])),
              *enums(8, 'longer-bare', history_cases(3, [(0, 1)])),
              *enums(8, 'unlinked-twice', unlinked_cases(2, 2)),
              *enums(8, 'unlinked-three', unlinked_cases(3, 1))]
    return s
