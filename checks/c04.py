"""C04: both ends of a relationship always agree."""
from mc.core import Bfs
from mc.rel import KINDS, RelSystem


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    for kind in KINDS:
        for new in (False, True):
            for ids in (True, False):
                if kind in ('n-n-local', 'one-sided') and not ids:
                    continue        # local key lists require primary keys
                for rich in (True, False):
                    if kind == '1-1':
                        if rich:
                            continue
                        depth = 6 if deep else 4
                    elif rich:
                        depth = 3 if deep else 2
                    else:
                        depth = 4 if deep else 3
                        if not deep and (new != ids or kind == 'multi'):
                            depth = 2
                    sc = Bfs(f'{kind}/{"new" if new else "saved"}/'
                             f'{"ids" if ids else "anonymous"}/'
                             f'{"rich" if rich else "lean"}',
                             RelSystem(kind, new, ids, rich), depth)
                    sc.weight = depth * (3 if not rich else 2)
                    out.append(sc)
    for kind in KINDS:
        for pre in ('pairs', 'fan'):
            for new in (False, True):
                sc = Bfs(f'{kind}/linked-{pre}/{"new" if new else "saved"}',
                         RelSystem(kind, new, True, deep or kind != 'multi',
                                   pre=pre), 2)
                sc.weight = 7
                out.append(sc)
    for kind in KINDS:
        for via in ('update', 'set'):
            out.append(Bfs(f'{kind}/via-{via}',
                           RelSystem(kind, False, True, False, via=via),
                           3 if deep else 2))
    return out
