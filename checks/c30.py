"""C30: user configuration lookups return exactly the stored values."""
from __future__ import annotations
import importlib
import json
import os
import shutil
import sys
import tempfile
from itertools import product
import jsonclasses  # noqa: F401
from mc.core import enums, eq, expect

SCRATCH = None


def fresh(tree, raw=None):
    """The configuration object of a new program started in a directory with
    the given config.json (none when ``tree`` is ...)."""
    global SCRATCH
    if SCRATCH is None or SCRATCH[0] != os.getpid():
        SCRATCH = os.getpid(), tempfile.mkdtemp(prefix='verif-c30-')
        import atexit
        from multiprocessing.util import Finalize
        Finalize(None, shutil.rmtree, (SCRATCH[1], True), exitpriority=1)
        atexit.register(shutil.rmtree, SCRATCH[1], True)
    path = os.path.join(SCRATCH[1], 'config.json')
    if os.path.exists(path):
        os.remove(path)
    if tree is not ...:
        with open(path, 'w') as f:
            f.write(raw if raw is not None else json.dumps(tree))
    old = os.getcwd()
    os.chdir(SCRATCH[1])
    try:
        mod = importlib.reload(sys.modules['jsonclasses.uconf'])
        conf = mod.uconf()
        expect(mod.uconf() is conf, 'one configuration per program')
        return conf, mod.UserConf
    finally:
        os.chdir(old)
        shutil.rmtree(path, True)


NAMES = {'dbHost': 'db_host', 'Main': 'main', 'a': 'a', 'b_c': 'b_c',
         '0': '0', 'HTTPPort': 'http_port', 'x1Y': 'x1_y'}


def model(v):
    """What the program should see: normalized keys, environment values."""
    if isinstance(v, dict):
        return {NAMES[k]: model(x) for k, x in v.items()}
    if isinstance(v, list):
        return [model(x) for x in v]
    if v == 'environ["VERIF_C30"]' or v == "environ['VERIF_C30']":
        return 'from env'
    return v


MISSING = object()


def lookup(v, path):
    for p in path:
        if isinstance(v, dict):
            v = v.get(str(p))
        elif isinstance(v, list):
            try:
                v = v[int(p)]
            except (ValueError, IndexError):
                v = None
        else:
            return None
        if v is None:
            return None
    return v


def spellings(path):
    """Every way to write the chain: all groupings into subscripts, dotted
    and bracketed."""
    n = len(path)
    for cuts in product((0, 1), repeat=n - 1):
        groups, cur = [], [path[0]]
        for c, p in zip(cuts, path[1:]):
            if c:
                groups.append(cur)
                cur = [p]
            else:
                cur.append(p)
        groups.append(cur)
        for style in ('.', '['):
            if style == '[' and all(len(g) == 1 for g in groups):
                continue
            yield [g[0] if len(g) == 1 else
                   '.'.join(map(str, g)) if style == '.' else
                   str(g[0]) + ''.join(f'[{x}]' for x in g[1:])
                   for g in groups]


def same(got, want, cls, where):
    if isinstance(want, (dict, list)):
        expect(isinstance(got, cls), f'{where}: got {got!r}')
        keys = want if isinstance(want, dict) else range(len(want))
        for k in keys:
            same(got[k], want[k], cls, f'{where}[{k!r}]')
        expect(got['nothing_here'] is None, f'{where}: unknown key')
        expect(got[len(want)] is None or isinstance(want, dict) and
               str(len(want)) in want, f'{where}: off the end')
    else:
        eq([type(got).__name__, got], [type(want).__name__, want], where)


def all_paths(v, extra, depth):
    yield ()
    if depth == 0:
        return
    if isinstance(v, dict):
        for k in [*v, *extra]:
            for rest in all_paths(v.get(k), extra, depth - 1):
                yield (k, *rest)
    elif isinstance(v, list):
        for i in [*range(len(v)), *(str(j) for j in range(len(v))), len(v),
                  99, -1 if v else 7, *extra]:
            try:
                x = v[int(i)]
            except (ValueError, IndexError):
                x = None
            for rest in all_paths(x, extra, depth - 1):
                yield (i, *rest)
    else:
        for k in ('a', 0):
            yield (k,)


def read(tree):
    os.environ['VERIF_C30'] = 'from env'
    conf, cls = fresh(tree)
    want = model(tree)
    for _ in range(2):
        for path in all_paths(want, ['zz'], 3):
            if not path:
                continue
            expected = lookup(want, path)
            for chain in spellings(path):
                cur = conf
                for k, g in enumerate(chain):
                    if not isinstance(cur, cls):
                        cur = None
                        break
                    got, again = cur[g], cur.get(g)
                    expect(isinstance(again, cls) == isinstance(got, cls) and
                           (isinstance(got, cls) or got == again),
                           'subscript and get() agree')
                    cur = got
                same(cur, expected, cls, f'conf{chain}')
    if isinstance(tree, dict):
        for k in tree:
            if NAMES[k] != k and k not in NAMES.values():
                expect(conf[k] is None, f'{k} is only known as {NAMES[k]}')


LEAVES = [None, True, 0, '', 'v', 1.5, "environ['VERIF_C30']",
          'environ["VERIF_C30"]', 'environ[x]', 'x environ["VERIF_C30"]',
          "environ['VERIF_C30'] x", "environ['VERIF_C30']\\n!",
          [], {}]


def small_trees():
    """One and two level trees over the whole leaf alphabet."""
    def cases():
        for a in LEAVES:
            for k in NAMES:
                yield [k, a], lambda t={k: a}: read(t)
                yield [[k], a], lambda t={k: {'dbHost': a, 'a': 1}}: read(t)
                yield [[[k]], a], lambda t={'a': [{k: a}, a]}: read(t)
                yield [[[[k]]], a], lambda t={'a': [[a, {k: [a]}]]}: read(t)
        for a, b in product(LEAVES, repeat=2):
            yield ['two', a, b], lambda t={'a': a, 'dbHost': b}: read(t)
            yield ['list', a, b], lambda t={'a': [a, b]}: read(t)
            yield ['deep', a, b], \
                lambda t={'Main': {'x1Y': [a, {'HTTPPort': b}]}}: read(t)
    return cases


def trees(depth, width):
    """All trees of the given depth over two leaves and two keys."""
    def gen(d):
        yield 'v'
        yield "environ['VERIF_C30']"
        if d == 0:
            return
        sub = list(gen(d - 1))
        for n in range(width + 1):
            for items in product(sub, repeat=n):
                yield list(items)
                yield dict(zip(['dbHost', '0'], items))

    def cases():
        sub = list(gen(depth - 1))
        for n in range(width + 1):
            for items in product(sub, repeat=n):
                t = dict(zip(['Main', 'a'], items))
                yield t, lambda t=t: read(t)
    return cases


def special():
    """Missing files and undefined environment variables."""
    def missing():
        conf, cls = fresh(...)
        for k in ('a', 'a.b', 'a[0]', 0, 'a.0.b'):
            expect(conf[k] is None and conf.get(k) is None, f'{k} is null')

    def undefined(tree):
        os.environ.pop('VERIF_C30_NO', None)
        try:
            fresh(tree)
        except KeyError as e:
            expect('VERIF_C30_NO' in str(e), 'the error names the variable')
        else:
            raise AssertionError('an undefined variable was accepted')

    def value(v, tree, path):
        os.environ['VERIF_C30'] = v
        conf, cls = fresh(tree)
        eq(conf[path], v, 'the value of the variable, as it is')

    def cases():
        yield 'no file', missing
        for q in ('"', "'"):
            s = f'environ[{q}VERIF_C30_NO{q}]'
            ok = f'environ[{q}VERIF_C30{q}]'
            for k, t in enumerate(({'a': s}, {'a': [s]}, {'a': {'b': s}},
                                   {'a': [{'b': [1, s]}]}, {'a': [[s]]})):
                yield ['undefined', q, k], lambda t=t: undefined(t)
            for v in ('', 'x', "environ['HOME']", '0', 'null', 'a b', '{"a"}'):
                for p, t in (('a', {'a': ok}), ('a.0', {'a': [ok]}),
                             ('a.b', {'a': {'b': ok}}),
                             ('a.0.b.1', {'a': [{'b': [1, ok]}]}),
                             ('a.0.0', {'a': [[ok]]})):
                    yield ['value', q, v, p], \
                        lambda v=v, t=t, p=p: value(v, t, p)
    return cases


def scenarios(tier):
    t = tier == 'thorough'
    return [*enums(2, 'leaves', small_trees()),
            *enums(8, 'trees', trees(3 if t else 2, 2)),
            *enums(1, 'special', special())]
