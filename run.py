"""Entry point: run.py <PROPERTY> [quick|thorough]  |  run.py --replay FILE"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, HERE]
os.environ['TZ'] = 'UTC'
sys.setrecursionlimit(1000)

from mc import core  # noqa: E402
import json  # noqa: E402


def main(argv):
    if argv[0] == '--replay':
        return core.replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    with open(os.path.join(HERE, 'checks', 'meta.json')) as f:
        meta = json.load(f)[pid]
    budget = float(os.environ.get('VERIF_BUDGET',
                                  '600' if tier == 'quick' else '7200'))
    return core.run_check(pid, 'checks.' + pid.lower(), tier, seed, meta,
                          budget)


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
