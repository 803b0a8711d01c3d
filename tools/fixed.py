#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known_findings.txt from the fix commits in /repo and the table below."""
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TABLE = {
    'reserve an idle parallel domain atomically': ('C01', 'two callers could be given the same idle domain'),
    'advance by the register size': ('C04', 'two results of one multi-cell type overlapped or raised KeyError in get_result'),
    'decode a method name that fills': ('C02', 'a 100-character method name killed the shared-memory worker'),
    'do not return the arguments of a failed': ('C03', 'a failed shared-memory request yielded its own arguments as result'),
    'release the reserved parallel domain': ('C03', 'a request that could not be sent kept its domain reserved for ever'),
    'complete a failed piped job also': ('C07', 'with notifications on, get_result of a failed piped request never returned'),
    'close every parallel domain even if one': ('C06', 'close() raised BrokenPipeError after a worker died and left the other workers running'),
    'forget unclaimed jobs when closing': ('C05', 'relaunching after closing with uncollected requests hung or returned stale results'),
    'closing a parallel domain that is not launched': ('C05', 'a second close() raised AttributeError'),
    'ParallelSolver.get_domain initializes': ('C08', 'get_domain() before initialization raised AttributeError'),
}
exec(open(os.path.join(HERE, 'tools', 'fixed_more.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'fixed_more.py')) else None
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
lines = []
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        for k, (p, w) in TABLE.items():
            if k in s:
                lines.append(f'fixed: property={p} {h} {w}')
                break
        else:
            raise SystemExit('no entry for ' + l)
path = os.path.join(HERE, 'known_findings.txt')
keep = []
if os.path.exists(path):
    keep = [x.rstrip('\n') for x in open(path) if not x.startswith('fixed:') and x.strip()]
open(path, 'w').write('\n'.join(keep + lines) + '\n')
print(len(lines), 'fixed,', sum(k.startswith('known:') for k in keep), 'known')
