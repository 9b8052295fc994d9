"""C14: chains run each phase exactly once and in order."""
from __future__ import annotations
from itertools import count, product
from typing import Any
from jsonclasses import jsonclass, types
from jsonclasses.excs import ValidationException
from mc.core import Enum, canon, enums, eq, expect

COUNT = count()
LOG = []


def build(word, bad):
    """The chain spelled by the word; validator number bad fails.

    V validate, X transform (eager), Y transform (lazy), S set on save,
    O call on save."""
    chain = types.any
    for i, c in enumerate(word):
        chain = letter(chain, c, i, bad)
    return chain


def letter(chain, c, i, bad):
    def v(x):
        LOG.append(('V', i, repr(x)))
        return i != bad

    def x(v):
        LOG.append(('X', i, repr(v)))
        return ('x', i, v)

    def s(v):
        LOG.append(('S', i, repr(v)))
        return ('s', i, v)

    def o(v):
        LOG.append(('O', i, repr(v)))
    if c == 'V':
        return chain.validate(v)
    if c == 'X':
        return chain.transform(x)
    if c == 'Y':
        return chain.wrapintolist
    if c == 'S':
        return chain.setonsave(s)
    return chain.onsave(o)


class Stop(Exception):
    pass


class Model:
    """The documented phases of one chain."""

    def __init__(self, word, bad):
        self.word, self.bad = word, bad
        fp = word.find('S')
        self.save = len(word) if fp < 0 else fp
        # everything before the last eager element is validated when set
        self.eager = max(word.rfind('X', 0, self.save), 0)
        self.lost = 'X' in word[self.save:] or 'Y' in word[self.save:]

    def step(self, log, i, v):
        """Apply transformer i."""
        if self.word[i] == 'X':
            log.append(('X', i, repr(v)))
            return ('x', i, v)
        if self.word[i] == 'Y':
            return [v]
        return v

    def check(self, log, i, v):
        if self.word[i] == 'V':
            log.append(('V', i, repr(v)))
            if i == self.bad:
                raise Stop()

    def set(self, log, v):
        for i in range(self.eager):
            v = self.step(log, i, v)
            self.check(log, i, v)
        for i in range(self.eager, self.save):
            v = self.step(log, i, v)
        return v

    def validate(self, log, v, every):
        bad = False
        for i in range(self.eager, self.save):
            try:
                self.check(log, i, v)
            except Stop:
                bad = True
                if not every:
                    break
        return bad

    def write(self, log, v):
        for i in range(len(self.word)):
            c = self.word[i]
            if c == 'O':
                log.append(('O', i, repr(v)))
            if i < self.save:
                continue
            if c == 'S':
                log.append(('S', i, repr(v)))
                v = ('s', i, v)
            self.check(log, i, v)
        return v


PLACES = {
    'field': (lambda vs: {'val': vs[0]}, lambda o: [o.val], 1),
    'list': (lambda vs: {'lst': list(vs)}, lambda o: list(o.lst), 2),
    'dict': (lambda vs: {'dct': {'a': vs[0], 'b': vs[1]}},
             lambda o: list(o.dct.values()), 2),
    'deep': (lambda vs: {'deep': {'k': [vs[0], vs[1]]}},
             lambda o: list(o.deep['k']), 2),
    'inner': (lambda vs: {'inner': {'val': vs[0]}},
              lambda o: [o.inner.val], 1),
    'inners': (lambda vs: {'inners': [{'val': vs[0]}, {'val': vs[1]}]},
               lambda o: [i.val for i in o.inners], 2),
}


def declare(chain, place):
    g = f'verif-c14-{next(COUNT)}'
    writes = []

    @jsonclass(class_graph=g)
    class Inner:
        val: Any = chain

    if place == 'field':
        kind = {'val': chain}
    elif place == 'list':
        kind = {'lst': types.listof(chain)}
    elif place == 'dict':
        kind = {'dct': types.dictof(chain)}
    elif place == 'deep':
        kind = {'deep': types.dictof(types.listof(chain))}
    elif place == 'inner':
        kind = {'inner': types.objof('Inner')}
    else:
        kind = {'inners': types.listof(types.objof('Inner'))}
    H = jsonclass(class_graph=g)(type('Holder', (), {
        '__annotations__': dict.fromkeys(kind, Any), '__module__': __name__,
        **kind}))
    H._database_write = lambda self: writes.append(self)
    return H, writes


def strip(log, lost):
    return [e[:2] for e in log] if lost else log


def word_case(word, bad, place):
    def go():
        wrap, read, n = PLACES[place]
        m = Model(word, bad)
        H, writes = declare(build(word, bad), place)
        vs = ['p', 'q'][:n]
        for how in ('init', 'set'):
            # setting
            want, vals, stopped = [], [], False
            try:
                for v in vs:
                    vals.append(m.set(want, v))
            except Stop:
                stopped = True
            o = None if how == 'init' else H()
            del LOG[:]
            before = None if how == 'init' else canon(o)
            try:
                o = H(**wrap(vs)) if how == 'init' else o.set(**wrap(vs))
                got = False
            except ValidationException:
                got = True
            eq(LOG, want, f'calls when set by {how}')
            eq(got, stopped, f'refused when set by {how}')
            if stopped:
                if how == 'set':
                    expect(place.startswith('inner') or canon(o) == before,
                           'a refused value was set')
                continue
            eq(read(o), vals, f'value when set by {how}')
            # validating
            for every in (None, False, True):
                for _ in range(2):
                    want, invalid = [], False
                    for v in vals:
                        if m.validate(want, v, every):
                            invalid = True
                            if not every:
                                break
                    del LOG[:]
                    state = canon(o)
                    try:
                        o.validate(all_fields=every)
                        got = False
                    except ValidationException:
                        got = True
                    eq(LOG, want, f'calls on validation, all={every}')
                    eq(got, invalid, 'validity')
                    eq(canon(o), state, 'validation changed the object')
            # saving
            want, invalid = [], False
            for v in vals:
                if m.validate(want, v, False):
                    invalid = True
                    break
            if invalid:
                out = None
            else:
                out = []
                try:
                    for v in vals:
                        out.append(m.write(want, v))
                except Stop:
                    out, invalid = None, True
            del LOG[:], writes[:]
            try:
                o.save()
                got = False
            except ValidationException:
                got = True
            eq(strip(LOG, m.lost), strip(want, m.lost), 'calls on save')
            eq(got, invalid, 'save refused')
            eq(len(writes), 0 if invalid else 1, 'writes')
            if out is not None and not m.lost:
                eq(read(o), out, 'saved value')
            # saving without validation runs the save phase only
            o = H(**wrap(vs))
            want, out = [], []
            try:
                for v in vals:
                    out.append(m.write(want, v))
                invalid = False
            except Stop:
                invalid = True
            del LOG[:], writes[:]
            try:
                o.save(skip_validation=True)
                got = False
            except ValidationException:
                got = True
            eq(strip(LOG, m.lost), strip(want, m.lost), 'unvalidated save')
            eq((got, len(writes)), (invalid, 0 if invalid else 1),
               'unvalidated save')
            # output runs nothing
            del LOG[:]
            o.tojson()
            eq(LOG, [], 'output ran the chain')
        return [m.eager, m.save, stopped]
    return go


def words(lengths, places, letters='VXYSO'):
    def cases():
        for n in lengths:
            for w in product(letters, repeat=n):
                word = ''.join(w)
                for place in places:
                    yield [word, -1, place], word_case(word, -1, place)
    return cases


def failing(lengths, places):
    def cases():
        for n in lengths:
            for w in product('VXYSO', repeat=n):
                word = ''.join(w)
                for bad in range(n):
                    if word[bad] == 'V':
                        for place in places:
                            yield [word, bad, place], word_case(
                                word, bad, place)
    return cases


class NullModel(Model):
    """Chains in which values become null. N transforms to null (eager), R
    requires a value, Z sets null on save, D sets a value on save."""

    def __init__(self, word):
        self.word, self.bad = word, -1
        self.save = min((i for i, c in enumerate(word) if c in 'ZD'),
                        default=len(word))
        self.eager = max([i for i, c in enumerate(word[:self.save])
                          if c in 'XN'], default=0)

    def step(self, log, i, v):
        if v is None:
            return None
        if self.word[i] == 'N':
            log.append(('N', i, repr(v)))
            return None
        return super().step(log, i, v)

    def check(self, log, i, v):
        if self.word[i] == 'R' and v is None:
            raise Stop()
        if v is not None:
            super().check(log, i, v)

    def write(self, log, v):
        for i in range(self.save, len(self.word)):
            if self.word[i] in 'ZD':
                log.append((self.word[i], i, repr(v)))
                v = None if self.word[i] == 'Z' else 'd'
            self.check(log, i, v)
        return v


def null_chain(word):
    chain = types.any
    for i, c in enumerate(word):
        chain = null_letter(chain, c, i)
    return chain


def null_letter(chain, c, i):
    def n(v):
        LOG.append(('N', i, repr(v)))

    def z(v):
        LOG.append(('Z', i, repr(v)))

    def d(v):
        LOG.append(('D', i, repr(v)))
        return 'd'
    if c == 'R':
        return chain.required
    if c == 'N':
        return chain.transform(n)
    if c == 'Z':
        return chain.setonsave(z)
    if c == 'D':
        return chain.setonsave(d)
    return letter(chain, c, i, -1)


def attempt(f):
    try:
        return False, f()
    except ValidationException:
        return True, None


def null_word_case(word, value, place):
    def go():
        wrap, read, n = PLACES[place]
        m = NullModel(word)
        H, writes = declare(null_chain(word), place)
        want = []
        try:
            val, stopped = m.set(want, value), False
        except Stop:
            stopped = True
        del LOG[:]
        got, o = attempt(lambda: H(**wrap([value])))
        eq((LOG, got), (want, stopped), 'setting')
        if stopped:
            return 'stopped'
        eq(read(o), [val], 'value')
        for every in (False, True):
            want = []
            bad = m.validate(want, val, every)
            del LOG[:]
            state = canon(o)
            got, _ = attempt(lambda: o.validate(all_fields=every))
            eq((LOG, got), (want, bad), f'validation, all={every}')
            eq(canon(o), state, 'validation changed the object')
        want, out = [], None
        bad = m.validate(want, val, False)
        if not bad:
            try:
                out = m.write(want, val)
            except Stop:
                bad = True
        del LOG[:], writes[:]
        got, _ = attempt(o.save)
        eq((LOG, got, len(writes)), (want, bad, 0 if bad else 1), 'saving')
        if not bad:
            eq(read(o), [out], 'saved value')
        return [m.eager, m.save, bad]
    return go


def null_words(lengths, places):
    def cases():
        for n in lengths:
            for w in product('VXNRZD', repeat=n):
                word = ''.join(w)
                m = NullModel(word)
                if any(c in 'XN' for c in word[m.save:]):
                    continue
                for value in (None, 'p'):
                    for place in places:
                        yield [word, value, place], null_word_case(
                            word, value, place)
    return cases


def null_cases():
    """Null runs through the chain without calling anybody."""
    for n in (1, 2, 3):
        for w in product('VXYS', repeat=n):
            word = ''.join(w)

            def go(word=word):
                H, _ = declare(build(word, -1), 'field')
                m = Model(word, -1)
                del LOG[:]
                o = H(val=None)
                o.validate()
                eq((LOG, o.val), ([], None), 'null was processed')
                o.save()
                eq([e[0] for e in LOG if e[0] == 'X'], [], 'transformed null')
                if 'S' in word:
                    expect(o.val is not None, 'save hook skipped null')
                return m.save
            yield [word], go


def scenarios(tier):
    allp = list(PLACES)
    s = [*enums(3, 'short', words([0, 1, 2, 3], allp)),
         *enums(3, 'long', words([4, 5], ['field'], 'VXYS')),
         *enums(4, 'failing', failing([1, 2, 3], allp)),
         *enums(4, 'failing-long', failing([4], ['field', 'list'])),
         *enums(2, 'null-words', null_words([1, 2, 3], ['field', 'inner'])),
         *enums(2, 'null-long', null_words([4], ['field'])),
         Enum('null', null_cases)]
    if tier == 'thorough':
        s += [*enums(12, 'longer', words([4, 5], allp)),
              *enums(12, 'longest', words([6], ['field'])),
              *enums(12, 'failing-longer', failing([4, 5], allp)),
              *enums(8, 'null-longer', null_words([4, 5], ['field',
                                                           'inner']))]
    return s
