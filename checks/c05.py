"""C05: stored reference keys follow the linked objects."""
from __future__ import annotations
from itertools import product
from typing import Any
from jsonclasses import jsonclass, types
from mc.core import Bfs, enums, eq
from mc.relkeys import KeySystem


@jsonclass(class_graph='verif-c05-cmd')
class Shelf:
    id: int = types.int.primary
    v: Any = types.int
    books: Any = types.listof('Book').linkto
    notes: Any = types.listof('Note').linkto
    tags: Any = types.listof('Tag').linkedthru('shelves')


@jsonclass(class_graph='verif-c05-cmd')
class Book:
    id: int = types.int.primary
    shelves: Any = types.listof('Shelf').linkedby('books')


@jsonclass(class_graph='verif-c05-cmd')
class Note:
    id: int = types.int.primary


@jsonclass(class_graph='verif-c05-cmd')
class Tag:
    id: int = types.int.primary
    shelves: Any = types.listof('Shelf').linkedthru('tags')


@jsonclass(class_graph='verif-c05-cmd')
class Room:
    id: int = types.int.primary
    shelf: Any = types.objof('Shelf').linkto


def commands(start, length):
    """Every sequence of adding an absent and removing a present key."""
    def grow(keys, word):
        yield word
        if len(word) < length:
            for k in (1, 2, 3):
                yield from grow(keys - {k} if k in keys else keys | {k},
                                [*word, ('_del' if k in keys else '_add', k)])
    return [w for w in grow(set(start), []) if w]


def command_cases(length):
    """Input which adds and removes keys one by one."""
    def cases():
        for field in ('books', 'notes'):
            for start, loaded in product(
                    ([], [1], [2, 1], [1, 2, 3]), (False, True)):
                for word in commands(start, length):
                    for split in range(len(word)):
                        yield [field, start, loaded, word, split], \
                            lambda a=(field, start, loaded, word, split): \
                            command_case(*a)
            for word in commands([], length):
                for via in ('init', 'room'):
                    yield [field, via, word], \
                        lambda a=(field, word, via): fresh_case(*a)
        for loaded in ([], [1], [1, 2]):
            for word in product(('_add', '_del'), (1, 2, 3), repeat=2):
                yield ['tags', loaded, word], \
                    lambda a=(loaded, word): join_case(*a)
    return cases


KEYS = {'books': 'book_ids', 'notes': 'note_ids'}


def given(word):
    return [{k: v} for k, v in word]


def applied(keys, word):
    keys = list(keys)
    for k, v in word:
        if k == '_add':
            keys.append(v)
        else:
            keys.remove(v)
    return keys


def command_case(field, start, loaded, word, split):
    cls = Book if field == 'books' else Note
    objs = [cls(id=k) for k in start] if loaded else []
    s = Shelf(id=1, v=5)
    if loaded:
        setattr(s, field, objs)
    else:
        setattr(s, KEYS[field], list(start))
    s._mark_unmodified()
    if split:
        s.set(**{field: given(word[:split])})
    s.set(**{field: given(word[split:])})
    want = applied(start, word)
    gone = {v for k, v in word if k == '_del'}
    eq(list(getattr(s, KEYS[field])), want, 'stored keys')
    eq([o.id for o in getattr(s, field) or []],
       [o.id for o in objs if o.id not in gone], 'linked objects')
    for o in objs:
        if field == 'books':
            eq(list(map(id, o.shelves or [])),
               [] if o.id in gone else [id(s)], 'other end')
    eq(s.modified_fields, (field,), 'modified fields')
    eq(s.tojson()[{'books': 'bookIds', 'notes': 'noteIds'}[field]], want,
       'keys in output')


def fresh_case(field, word, via):
    if via == 'init':
        s = Shelf(id=1, **{field: given(word)})
    else:
        s = Room(id=1, shelf={'id': 1, field: given(word)}).shelf
    eq(list(getattr(s, KEYS[field])), applied([], word), 'stored keys')
    eq(list(getattr(s, field) or []), [], 'linked objects')


def join_case(loaded, word):
    word = [(word[0], word[1]), (word[2], word[3])]
    tags = [Tag(id=k) for k in loaded]
    s = Shelf(id=1, tags=None)
    s.tags = tags
    s._mark_unmodified()
    s.set(tags=given(word))
    eq([list(map(id, s.tags)), [list(map(id, t.shelves)) for t in tags]],
       [list(map(id, tags)), [[id(s)] for t in tags]], 'linked objects')
    for name, kind in (('_link_keys', '_add'), ('_unlink_keys', '_del')):
        eq(getattr(s, name).get('tags') or [],
           [v for k, v in word if k == kind], name)


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for kind in ('1-1', '1-n', 'n-n-local', 'tree', 'multi', 'one-sided'):
        for new in (False, True):
            for via in ('setattr', 'update', 'set'):
                if via != 'setattr' and new:
                    continue
                for rich in (True, False):
                    if rich and (kind in ('1-1', 'multi') or via != 'setattr'):
                        continue
                    depth = 3 if kind != 'multi' and not rich and not new \
                        and via == 'setattr' else 2
                    counts = None
                    if not deep and depth == 3:
                        counts = {'n-n-local': (1, 2), 'tree': (2,)}.get(kind)
                    depth += deep
                    if kind == '1-1':
                        depth += 1
                    sc = Bfs(f'{kind}/{"new" if new else "saved"}/{via}/'
                             f'{"rich" if rich else "lean"}',
                             KeySystem(kind, new=new, ids=True, rich=rich,
                                       via=via, counts=counts), depth)
                    sc.weight = depth * 3 + rich
                    out.append(sc)
    for kind in ('1-1', '1-n', 'n-n-local', 'tree', 'multi', 'one-sided'):
        for pre in ('pairs', 'fan'):
            sc = Bfs(f'{kind}/linked-{pre}',
                     KeySystem(kind, new=False, ids=True, rich=deep, pre=pre),
                     2)
            sc.weight = 7
            out.append(sc)
    for kind in ('1-1', '1-n', 'tree', 'multi', 'one-way'):
        for new in (False, True):
            sc = Bfs(f'{kind}/{"new" if new else "saved"}/some-keyless',
                     KeySystem(kind, new=new, ids=True, rich=False,
                               blank=True), 2 + (deep or kind in ('1-1', 'one-way')))
            sc.weight = 7
            out.append(sc)
    out += enums(2, 'commands', command_cases(4 if deep else 3))
    return out
