"""Writes known-findings.txt from the fix: commits of /repo (run by hand)."""
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = ('C03 C03 C03 C03 C03 C03 C01 C29 C15 C12 C07 C01 C26 C18 C12 C12 C12 C13 '
     'C19 C11 C11 C02 C08 C08 C09 C01 C04 C05 C05 C04 C05 C07').split()
P += open(os.path.join(HERE, 'tools', 'fixes.txt')).read().split()
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse',
                               '--format=%h %s'], text=True).splitlines()
log = [line for line in log if ' fix: ' in line]
assert len(log) == len(P), (len(log), len(P))
with open(os.path.join(HERE, 'known-findings.txt'), 'w') as f:
    f.write('# Genuine defects found by the checks. Repaired ones ("fixed:") '
            'suppress nothing.\n')
    for p, line in zip(P, log):
        h, s = line.split(' fix: ')
        f.write(f'fixed: property={p} {h} {s}\n')
