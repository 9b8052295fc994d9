"""Builds seeded/<id>/ from the definitions in tools/bugdefs/*.txt.

bugs.py build [ID...]   make the patches, confirm tests pass and demos tell
bugs.py check [ID...]   run the quick check of each bug's property against it

A definition:
    === ID PROPERTY
    needs: ...
    breaks: ...
    @@ path/under/jsonclasses.py
    <<<<
    old text
    ====
    new text
    >>>>
    demo:
    python code; asserts
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, 'seeded')
SCRATCH = '/tmp/x/bugs'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TZ='UTC',
           PYTHONPYCACHEPREFIX='/nonexistent/pycache', PYTHONHASHSEED='0',
           PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
SH = '''#!/bin/bash
# exit 0 when the property holds for the demonstrated case
export PYTHONDONTWRITEBYTECODE=1 TZ=UTC PYTHONPATH="$PWD"
exec timeout 120 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def load():
    bugs = {}
    for path in sorted(glob.glob(os.path.join(HERE, 'bugdefs', '*.txt'))):
        for part in re.split(r'^=== ', open(path).read(), flags=re.M)[1:]:
            head, rest = part.split('\n', 1)
            bid, prop = head.split()
            spec, demo = rest.split('\ndemo:\n', 1)
            needs = re.search(r'^needs: (.*)$', spec, re.M).group(1)
            breaks = re.search(r'^breaks: (.*)$', spec, re.M).group(1)
            edits = []
            fname = None
            for m in re.finditer(r'^@@ (\S+)\n|^<<<<\n(.*?)^====\n(.*?)^>>>>\n?',
                                 spec + '\n', re.M | re.S):
                if m.group(1):
                    fname = m.group(1)
                else:
                    edits.append((fname, m.group(2), m.group(3)))
            assert bid not in bugs, bid
            assert edits, bid
            bugs[bid] = (prop, needs, breaks, edits, demo)
    return bugs


def copy(bid):
    dst = os.path.join(SCRATCH, bid)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(SCRATCH, exist_ok=True)
    subprocess.run(['git', 'clone', '-q', '/repo', dst], check=True)
    return dst


def build(bid, bug):
    prop, needs, breaks, edits, demo = bug
    dst = copy(bid)
    try:
        out = os.path.join(SEEDED, bid)
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, 'demo.py'), 'w') as f:
            f.write(demo.strip() + '\n')
        with open(os.path.join(out, 'demo.sh'), 'w') as f:
            f.write(SH)
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump({'property': prop, 'needs': needs,
                       'what_it_breaks': breaks}, f, indent=1)
        demo_sh = ['bash', os.path.join(out, 'demo.sh')]
        clean = subprocess.run(demo_sh, cwd=dst, env=ENV, text=True,
                               capture_output=True)
        for fname, old, new in edits:
            p = os.path.join(dst, 'jsonclasses', fname)
            s = open(p).read()
            if s.count(old) != 1:
                return f'{bid}: edit of {fname} matches {s.count(old)} times'
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=dst, text=True,
                              capture_output=True).stdout
        with open(os.path.join(out, 'patch.diff'), 'w') as f:
            f.write(diff)
        orig = subprocess.run(['git', 'blame', '-s', '6b0d86d..HEAD'] +
                              ['--', 'jsonclasses/' + edits[0][0]], cwd=dst,
                              text=True, capture_output=True).stdout
        mine = set()
        for fname in {e[0] for e in edits}:
            bl = subprocess.run(['git', 'blame', '-s', '--', 'jsonclasses/' +
                                 fname, ], cwd='/repo', text=True,
                                capture_output=True).stdout.splitlines()
            for line in bl:
                if not line.startswith('^6b0d86d') and '6b0d86d' not in line[:10]:
                    mine.add(re.sub(r'^\S+\s+(\S+\s+)?\d+\) ', '', line))
        removed = [ln[1:] for ln in diff.splitlines()
                   if ln.startswith('-') and not ln.startswith('---')]
        notes = []
        if removed and all(r in mine for r in removed):
            notes.append('only touches lines of our own commits')
        bad = subprocess.run(demo_sh, cwd=dst, env=ENV, text=True,
                             capture_output=True)
        if clean.returncode:
            notes.append('demo fails on the clean tree: ' + clean.stderr[-300:])
        if not bad.returncode:
            notes.append('demo passes with the bug')
        elif 'AssertionError' not in bad.stderr:
            notes.append('(demo dies with: %s)'
                         % bad.stderr.strip().splitlines()[-1:])
        rep = os.path.join(SCRATCH, bid + '.xml')
        subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'pytest_timeout', '-p',
                        'no:cacheprovider', '--timeout=300', '-o',
                        'junit_family=xunit2', '--junitxml=' + rep, 'tests'],
                       cwd=dst, env=dict(ENV, PYTHONPATH=dst + '/tests'),
                       capture_output=True)
        res = os.path.join(SCRATCH, bid + '.json')
        subprocess.run(['python3', '/opt/vp/results.py', res, 'junit:' + rep],
                       capture_output=True)
        passed = set(json.load(open(res))['passed'])
        missing = sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
                         - passed)
        os.unlink(rep)
        os.unlink(res)
        if missing:
            notes.append(f'{len(missing)} tests fail: {missing[:2]}')
        return f'{bid} {prop}: ' + ('; '.join(notes) or 'ok')
    finally:
        shutil.rmtree(dst, ignore_errors=True)


def check(bid, prop):
    dst = copy(bid)
    try:
        r = subprocess.run(['git', 'apply', os.path.join(SEEDED, bid,
                                                         'patch.diff')],
                           cwd=dst, text=True, capture_output=True)
        if r.returncode:
            return f'{bid} {prop}: patch does not apply'
        env = dict(ENV, VERIF_REPO=dst, VERIF_SEED='1',
                   VERIF_EVIDENCE='/tmp/x/ev-' + bid)
        r = subprocess.run(['bash', os.path.join(VERIF, 'check.sh'), prop,
                            'quick'], env=env, text=True, capture_output=True)
        hit = f'VIOLATION property={prop}' in r.stdout
        shutil.rmtree('/tmp/x/ev-' + bid, ignore_errors=True)
        return (f'{bid} {prop}: ' + ('CAUGHT' if hit and r.returncode == 1
                                     else f'MISSED rc={r.returncode}')
                + ('' if hit else ' ' + (r.stdout + r.stderr)[-200:]))
    finally:
        shutil.rmtree(dst, ignore_errors=True)


def main(argv):
    bugs = load()
    ids = argv[1:] or list(bugs)
    ids = [b for b in bugs if any(b == i or b.startswith(i) for i in ids)]
    if argv[0] == 'build':
        with ThreadPoolExecutor(6) as ex:
            for line in ex.map(lambda b: build(b, bugs[b]), ids):
                print(line, flush=True)
    else:
        for b in ids:
            print(check(b, bugs[b][0]), flush=True)


if __name__ == '__main__':
    main(sys.argv[1:])
