#!/usr/bin/env python
"""Determinism of the simulator: the same (property, seed, index) must give the same event history in fresh
interpreters, under different hash seeds, and with or without event recording.

  selftest.py --quick            a few indices per property (part of setup)
  selftest.py [--n N]            many indices per property
  selftest.py --print P LO HI S  (internal) print fingerprints
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def env(hashseed):
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return e


def fingerprints(props, lo, hi, seed, record):
    import random
    from harness import registry
    for prop in props:
        h = registry.get(prop)
        out = []
        for i in range(lo, hi):
            spec = h.gen(random.Random(f'{prop}:{seed}:{i}'), 'quick')
            out.append(h.execute(spec, record=record).fingerprint)
        print(json.dumps([prop, out]), flush=True)


def main():
    if '--print' in sys.argv:
        a = sys.argv[sys.argv.index('--print') + 1:]
        fingerprints(a[0].split(','), int(a[1]), int(a[2]), int(a[3]), a[4] == '1')
        return 0
    props = [c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']]
    n = 6 if '--quick' in sys.argv else int(sys.argv[sys.argv.index('--n') + 1]) if '--n' in sys.argv else 100
    procs = []
    jobs = [(h, r, s) for s in ((1,) if '--quick' in sys.argv else (1, 2, 3)) for h, r in ((0, 0), (7, 1), (123, 0))]
    res = {}
    groups = [props[i::2] for i in range(2)]
    running = []
    for h, r, s in jobs:
        for g in groups:
            if not g:
                continue
            p = subprocess.Popen(['/opt/venv/bin/python', '-W', 'ignore', os.path.abspath(__file__), '--print', ','.join(g),
                                  '0', str(n), str(s), str(r)], env=env(h), stdout=subprocess.PIPE, text=True)
            running.append((h, r, s, p))
            if len(running) >= 6:
                collect(running, res)
    collect(running, res)
    bad = 0
    for s in sorted({j[2] for j in jobs}):
        for prop in props:
            vals = [res.get((h, r, s), {}).get(prop) for h, r, ss in jobs if ss == s]
            if any(v is None for v in vals) or any(v != vals[0] for v in vals):
                d = [i for i in range(n) if vals[0] is None or any(v is None or v[i] != vals[0][i] for v in vals)]
                print(f'NOT DETERMINISTIC: {prop} seed {s} indices {d[:20]}')
                bad += 1
    print(f'selftest: {len(props)} properties, {n} runs each, {len(jobs)} interpreters: '
          f'{"deterministic" if not bad else "FAILED"}')
    return 1 if bad else 0


def collect(running, res):
    for h, r, s, p in running:
        out, _ = p.communicate()
        for line in out.splitlines():
            if line.startswith('["'):
                prop, fps = json.loads(line)
                res.setdefault((h, r, s), {})[prop] = fps
        if p.returncode != 0:
            print(f'interpreter hashseed={h} failed')
    running.clear()


if __name__ == '__main__':
    sys.exit(main())
