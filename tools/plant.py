#!/usr/bin/env python3
"""Development aid: confirm a planted bug and write it to seeded/<id>/ (run by hand; no check uses it).

  plant.py SPEC.py [--no-tests] [--checks C01,C02]

SPEC.py defines ID, PROP, EDITS = [(file, old, new)], NEEDS, BREAKS, DEMO (text of demo.py), EXTRA = {name: text}.
The bug is applied to /repo, tests, demo and check are run, and /repo is restored.
"""
import json
import os
import signal
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'


def sh(cmd, timeout=880):
    with open('/tmp/plant_stdout', 'w') as f:
        p = subprocess.Popen(cmd, shell=True, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    p.stdout = open('/tmp/plant_stdout', errors='replace').read()
    return p


def edit(path, old, new):
    with open(path, newline='') as f:
        s = f.read()
    if '\r\n' in s:
        old, new = (x.replace('\r\n', '\n').replace('\n', '\r\n') for x in (old, new))
    assert s.count(old) == 1, (path, s.count(old), old)
    with open(path, 'w', newline='') as f:
        f.write(s.replace(old, new))


def stable():
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base.get('stable') or base.get('tests') or base
    sh('bash /opt/vp/test.sh /tmp/plant_out.json')
    out = json.load(open('/tmp/plant_out.json'))
    return names, out


def main():
    ns = {'EXTRA': {}, 'CHECKS': None}
    exec(open(sys.argv[1]).read(), ns)
    checks = [ns['PROP']]
    for a in sys.argv[2:]:
        if a.startswith('--checks='):
            checks = a.split('=', 1)[1].split(',')
    assert not sh(f'git -C {R} status --porcelain').stdout.strip(), 'repo not clean'
    d = f'{V}/seeded/{ns["ID"]}'
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
    for n, t in ns['EXTRA'].items():
        open(d + '/' + n, 'w').write(t)
    with open(d + '/demo.sh', 'w') as f:
        f.write('#!/bin/bash\nexec timeout 120 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(d + '/meta.json', 'w'), indent=1)
    ok = True
    tmp = f'/tmp/plantdemo'
    sh(f'rm -rf {tmp}; cp -a {d} {tmp}')
    t = time.time()
    p = sh(f'cd {R} && bash {tmp}/demo.sh')
    print('demo clean', p.returncode, '%.1fs' % (time.time() - t))
    if p.returncode:
        ok = False
        print(p.stdout[-1500:])
    try:
        for f, old, new in ns['EDITS']:
            edit(f'{R}/{f}', old, new)
        diff = subprocess.run(['git', '-C', R, 'diff', '--binary'], stdout=subprocess.PIPE).stdout
        open(d + '/patch.diff', 'wb').write(diff)
        t = time.time()
        p = sh(f'cd {R} && bash {tmp}/demo.sh')
        print('demo patched', p.returncode, '%.1fs' % (time.time() - t))
        print(p.stdout[-400:])
        if not p.returncode:
            ok = False
        if '--no-tests' not in sys.argv:
            sh('bash /opt/vp/build.sh')
            p = sh('bash /opt/vp/test.sh /tmp/plant_out.json')
            o = json.load(open('/tmp/plant_out.json'))
            print('tests', {k: (len(v) if isinstance(v, (list, dict)) else v) for k, v in o.items()})
        for c in checks:
            t = time.time()
            p = sh(f'{V}/check.sh {c}')
            l = [x for x in p.stdout.splitlines() if 'VIOLATION' in x]
            print('check', c, 'exit', p.returncode, '%.1fs' % (time.time() - t), l[:1], '' if p.returncode == 1 else p.stdout[-600:])
    finally:
        sh(f'git -C {R} checkout -- .')
    print('OK' if ok else 'NOT OK', ns['ID'])


main()
