"""Operation alphabet and builtin reference semantics for owned containers."""
from __future__ import annotations
import copy

# every mutator of list / dict, by name, applied either to the real owned
# container or to a plain builtin container.  One-shot iterables are created
# per application.


def materialise(arg):
    """Arguments are JSON-able; ('gen', [..]) denotes a fresh generator."""
    if isinstance(arg, tuple) and len(arg) == 2 and arg[0] == 'gen':
        return (copy.deepcopy(x) for x in detuple(arg[1]))
    if isinstance(arg, tuple) and len(arg) == 2 and arg[0] == 'tup':
        return tuple(detuple(arg[1]))
    if isinstance(arg, tuple) and len(arg) == 2 and arg[0] == 'D':
        return {k: materialise(v) for k, v in arg[1]}
    if isinstance(arg, tuple) and len(arg) == 2 and arg[0] == 'L':
        return [materialise(v) for v in arg[1]]
    return arg


def detuple(x):
    return [materialise(i) for i in x]


def apply_list(lst, name, args):
    """Returns the result of the operation; raises what the container raises.
    """
    a = [materialise(x) for x in args]
    if name == 'append':
        return lst.append(a[0])
    if name == 'extend':
        return lst.extend(a[0])
    if name == 'extend_self':
        return lst.extend(lst)
    if name == 'insert':
        return lst.insert(a[0], a[1])
    if name == 'remove':
        return lst.remove(a[0])
    if name == 'pop':
        return lst.pop(*a)
    if name == 'clear':
        return lst.clear()
    if name == 'sort':
        return lst.sort(key=repr, reverse=a[0])
    if name == 'sort_tie':
        return lst.sort(key=lambda v: len(repr(v)) % 2, reverse=a[0])
    if name == 'sort_plain':
        return lst.sort(reverse=a[0])
    if name == 'reverse':
        return lst.reverse()
    if name == 'iadd':
        lst += a[0]
        return None
    if name == 'imul':
        lst *= a[0]
        return None
    if name == 'setitem':
        lst[a[0]] = a[1]
        return None
    if name == 'setslice':
        lst[slice(*a[0])] = a[1]
        return None
    if name == 'delitem':
        del lst[a[0]]
        return None
    if name == 'delslice':
        del lst[slice(*a[0])]
        return None
    raise AssertionError(name)


def apply_dict(dct, name, args):
    a = [materialise(x) for x in args]
    if name == 'setitem':
        dct[a[0]] = a[1]
        return None
    if name == 'delitem':
        del dct[a[0]]
        return None
    if name == 'pop':
        return dct.pop(*a)
    if name == 'popitem':
        return dct.popitem()
    if name == 'clear':
        return dct.clear()
    if name == 'setdefault':
        return dct.setdefault(*a)
    if name == 'update':
        return dct.update(a[0])
    if name == 'update_pairs':
        return dct.update([tuple(p) for p in a[0]])
    if name == 'update_gen':
        return dct.update((tuple(p) for p in a[0]))
    if name == 'update_kw':
        return dct.update(**a[0])
    if name == 'update_both':
        return dct.update(a[0], **a[1])
    if name == 'update_none':
        return dct.update()
    if name == 'ior':
        dct |= a[0]
        return None
    if name == 'ior_gen':
        dct |= (tuple(p) for p in a[0])
        return None
    raise AssertionError(name)


def handles(value):
    """Every list and dict reachable inside a value."""
    if isinstance(value, (list, dict)):
        yield value
        for v in value.values() if isinstance(value, dict) else value:
            yield from handles(v)


def poke(before, after):
    """Changes the containers that are no longer part of the object."""
    live = {id(h) for h in after}
    for h in before:
        if id(h) not in live:
            if isinstance(h, dict):
                h['poked'] = [1]
                h.pop('poked')
                h.update(poked=2)
                h.clear()
            else:
                h.append([1])
                h.reverse()
                h[:1] = []
                h.insert(0, 5)
                h.clear()


def list_ops(items, bad=('zz',)):
    """Full mutator alphabet over the given JSON-able item values."""
    i0, i1 = items[0], items[-1]
    ops = []
    for it in items:
        ops.append(('append', (it,)))
    ops += [('extend', (('L', (i0, i1)),)), ('extend', (('L', ()),)),
            ('extend', (('gen', (i1, i0)),)), ('extend', (('tup', (i0,)),)),
            ('extend_self', ())]
    for idx in (0, 1, -1, -9, 9):
        ops.append(('insert', (idx, i1)))
    for it in items:
        ops.append(('remove', (it,)))
    ops.append(('remove', bad))
    for a in ((), (0,), (-1,), (1,), (9,)):
        ops.append(('pop', a))
    ops += [('clear', ()), ('sort', (False,)), ('sort', (True,)),
            ('sort_tie', (False,)), ('sort_tie', (True,)),
            ('sort_plain', (False,)), ('sort_plain', (True,)),
            ('reverse', ())]
    ops += [('iadd', (('L', (i1,)),)), ('iadd', (('gen', (i0, i1)),)),
            ('iadd', (('L', ()),)), ('iadd', (('tup', (i1,)),))]
    ops += [('imul', (0,)), ('imul', (1,)), ('imul', (2,)), ('imul', (-1,))]
    for idx in (0, -1, 1, 9, -9):
        ops.append(('setitem', (idx, i1)))
        ops.append(('delitem', (idx,)))
    for slc in ((0, 1), (None, None), (0, 0), (1, None), (-1, None), (5, 9),
                (2, 0), (-9, 1)):
        ops.append(('setslice', (slc, ('L', (i1, i0)))))
        ops.append(('delslice', (slc,)))
    ops += [('setslice', ((0, 1), ('L', ()))),
            ('setslice', ((None, None), ('gen', (i0, i1)))),
            ('setslice', ((None, None, 2), ('L', (i1,)))),
            ('setslice', ((None, None, -1), ('L', (i1, i0)))),
            ('delslice', ((None, None, 2),)),
            ('delslice', ((None, None, -1),))]
    return ops


def dict_ops(items):
    i0, i1 = items[0], items[-1]
    ops = []
    for k in ('a', 'b'):
        for it in items:
            ops.append(('setitem', (k, it)))
        ops.append(('delitem', (k,)))
        ops.append(('pop', (k,)))
        ops.append(('pop', (k, i0)))
        ops.append(('setdefault', (k, i1)))
        ops.append(('setdefault', (k,)))
    ops += [('pop', ('zz', None)), ('popitem', ()), ('clear', ()),
            ('update', (('D', (('a', i1), ('c', i0))),)),
            ('update', (('D', ()),)),
            ('update_pairs', ((('b', i1),),)),
            ('update_gen', ((('b', i0), ('a', i1)),)),
            ('update_kw', (('D', (('b', i0),)),)),
            ('update_both', (('D', (('a', i0),)), ('D', (('b', i1),)))),
            ('update_none', ()),
            ('ior', (('D', (('b', i1),)),)),
            ('ior_gen', ((('a', i1), ('c', i1)),))]
    return ops


def fix_pairs(args):
    return args


def at(root, path):
    for p in path:
        root = root[p]
    return root


def reachable(root, path):
    try:
        at(root, path)
        return True
    except (IndexError, KeyError, TypeError):
        return False


def plain(x):
    """A plain-builtin deep copy (drops container subclasses)."""
    if isinstance(x, list):
        return [plain(i) for i in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def size(x):
    if isinstance(x, list):
        return len(x) + sum(size(i) for i in x)
    if isinstance(x, dict):
        return len(x) + sum(size(i) for i in x.values())
    return 0


def mutations(deep=False):
    """(start, path, name, args) for every mutator on containers holding every
    kind of item - null, falsy and equal-but-different values included - at
    depth 0, 1 and 2.  Starts are plain values."""
    L = lambda *x: ('L', x)                                   # noqa: E731
    D = lambda **x: ('D', tuple(x.items()))                   # noqa: E731
    items = (None, 0, '', False, 1, 'x', 1.5, L(), D(), L(None), D(a=None))
    pairs = [(a, b) for a in items for b in items] if deep else \
        [(a, b) for i, a in enumerate(items)
         for b in (items[(i + 1) % len(items)], a, 5)]
    wraps = [((), lambda v: v), (('k',), lambda v: D(z=1, k=v)),
             ((0,), lambda v: L(v, None)),
             ((1, 'k'), lambda v: L(0, D(k=v))),
             (('k', 0), lambda v: D(k=L(v, v)))]
    for a, b in pairs:
        for path, wrap in wraps:
            for start in (L(a, b), L(b), L()):
                for name, args in list_ops((a, b)):
                    yield wrap(start), path, name, args
            for start in (D(a=a, b=b), D(b=a), D()):
                for name, args in dict_ops((b, a)):
                    yield wrap(start), path, name, args
            if not deep and path and (a, b) != pairs[0] and a is not None:
                break
