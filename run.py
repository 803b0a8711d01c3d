#!/usr/bin/env python
"""Runs the check of one property:  run.py C01 [--replay FILE] [--runs N] [--seed S] [--jobs J]

Exit 0: the property held on every simulated run explored (listed known findings are printed).
Exit 1: a line  VIOLATION property=<id> replay=<path>.
Exit 2: the harness itself failed (never a verdict).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('VERIF_REEXEC') != '1':
    env = dict(os.environ)
    env.update(VERIF_REEXEC='1', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMBA_NUM_THREADS='1')
    env.setdefault('PYTHONHASHSEED', '0')
    env['PYTHONPATH'] = HERE
    py = '/opt/venv/bin/python'
    os.execve(py, [py, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)

import argparse
import collections
import json
import multiprocessing as rmp
import random
import re
import select
import signal
import subprocess
import time
import traceback

sys.path.insert(0, HERE)
REPO = '/repo'
WALL_PER_RUN = 90.0


def say(*a):
    print(*a, flush=True)


def load(prop):
    from harness import registry
    return registry.get(prop)


def known(prop):
    path = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: '):
                d = json.loads(line[len('known: '):])
                if d['property'] == prop:
                    out.append(d)
    return out


def match_known(kf, v):
    for d in kf:
        if d['class'] == v[0] and re.search(d['match'], v[1]):
            return d
    return None


def run_spec(h, spec, record=False):
    """Execute one spec. An exception that escapes from /repo code is a violation; one that starts in the harness
    is a harness failure."""
    try:
        return h.execute(spec, record=record)
    except Exception as e:
        for f in reversed(traceback.extract_tb(e.__traceback__)):
            name = os.path.realpath(f.filename)
            if name.startswith(REPO + '/'):
                from harness.common import Outcome
                what = f'{type(e).__name__}: {e} ({name[len(REPO) + 1:]}:{f.name})'
                return Outcome([('raises', what[:600])], {}, {}, what, 0, 0., False, None, [])
            if name.startswith(os.path.realpath(HERE) + '/'):
                raise
        raise


def spec_for(h, prop, seed, idx, tier):
    rng = random.Random(f'{prop}:{seed}:{idx}')
    return h.gen(rng, tier)


# ------------------------------------------------------------------------------------------------ worker
def worker(prop, seed, tier, w, jobs, n, wfd, beat, stop_at, deadline, kf):
    out = os.fdopen(wfd, 'w', buffering=1)
    h = load(prop)
    agg = {'runs': 0, 'steps': 0, 'simtime': 0.0, 'faults': collections.Counter(), 'stats': collections.Counter(),
           'fps': set(), 'nontrivial': 0, 'known': collections.Counter(), 'redo': 0, 'redo_diff': 0,
           'harness': [], 'maxima': {}}
    idx = w
    import gc
    while idx < n and time.time() < deadline:
        if idx >= stop_at.value:
            break
        beat[w] = (idx + 1) * 1.0
        beat[jobs + w] = time.time()
        spec = spec_for(h, prop, seed, idx, tier)
        try:
            r = run_spec(h, spec)
            if agg['runs'] < 4:
                r2 = run_spec(h, spec_for(h, prop, seed, idx, tier))
                agg['redo'] += 1
                if r2.fingerprint != r.fingerprint:
                    agg['redo_diff'] += 1
                    agg.setdefault('redo_idx', []).append(idx)
        except BaseException as e:
            agg['harness'].append([idx, f'{type(e).__name__}: {e}', traceback.format_exc()[-2000:]])
            if len(agg['harness']) > 5:
                break
            idx += jobs
            continue
        agg['runs'] += 1
        agg['steps'] += r.steps
        agg['simtime'] += r.simtime
        agg['faults'].update(r.faults)
        for kk, v in r.stats.items():
            if kk.startswith('max '):
                agg['maxima'][kk] = max(agg['maxima'].get(kk, 0), v)
            else:
                agg['stats'][kk] += v
        if r.nontrivial:
            agg['nontrivial'] += 1
            agg['fps'].add(r.fingerprint)
        new = []
        for v in r.violations:
            d = match_known(kf, v)
            if d is None:
                new.append(v)
            else:
                agg['known'][d['what']] += 1
        if new:
            out.write(json.dumps({'violation': [idx, new[:5]]}) + '\n')
            with stop_at.get_lock():
                if idx < stop_at.value:
                    stop_at.value = idx
        if agg['runs'] % 50 == 0:
            gc.collect()
        idx += jobs
    beat[w] = 0.0
    agg['fps'] = sorted(agg['fps'])
    out.write(json.dumps({'agg': agg}) + '\n')
    out.close()
    os._exit(0)


def explore(prop, seed, tier, n, jobs, wall, kf):
    beat = rmp.Array('d', [0.0] * (2 * jobs), lock=False)
    stop_at = rmp.Value('l', n)
    deadline = time.time() + wall
    procs, fds = {}, {}
    sys.stdout.flush()
    for w in range(jobs):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in fds:
                os.close(fd)
            try:
                worker(prop, seed, tier, w, jobs, n, wfd, beat, stop_at, deadline, kf)
            except BaseException:
                traceback.print_exc()
            os._exit(3)
        os.close(wfd)
        procs[w] = pid
        fds[r] = w
    buf = {r: b'' for r in fds}
    aggs, viols, hangs, died = [], [], [], []
    done = set()
    while fds:
        rd, _, _ = select.select(list(fds), [], [], 1.0)
        for r in rd:
            data = os.read(r, 1 << 20)
            if not data:
                w = fds.pop(r)
                os.close(r)
                _, st = os.waitpid(procs[w], 0)
                if w not in done:
                    died.append((w, st))
                continue
            buf[r] += data
            *lines, buf[r] = buf[r].split(b'\n')
            for line in lines:
                d = json.loads(line)
                if 'violation' in d:
                    viols.append(d['violation'])
                else:
                    aggs.append(d['agg'])
                    done.add(fds[r])
        now = time.time()
        for r, w in list(fds.items()):
            if beat[w] > 0 and now - beat[jobs + w] > WALL_PER_RUN:
                hangs.append(int(beat[w]) - 1)
                os.kill(procs[w], signal.SIGKILL)
                beat[w] = 0.0
                done.add(w)
                with stop_at.get_lock():
                    stop_at.value = min(stop_at.value, hangs[-1])
    return aggs, viols, hangs, died


# ------------------------------------------------------------------------------------------------ minimisation
def classes(r, kf):
    return {v[0] for v in r.violations if match_known(kf, v) is None}


def minimise(h, spec, cls, kf, budget):
    end = time.time() + budget
    spec = json.loads(json.dumps(spec))
    tried = 0

    def fails(s):
        nonlocal tried
        tried += 1
        try:
            r = run_spec(h, json.loads(json.dumps(s)))
        except BaseException:
            return None
        return r if cls in classes(r, kf) else None

    best = fails(spec)
    if best is None:
        return spec, None, tried
    # 1. shrink operations, faults and arguments; a schedule is searched anew for each candidate
    progress = True
    while progress and time.time() < end:
        progress = False
        for cand in h.shrink(spec):
            if time.time() > end:
                break
            r = None
            if 'sched_seed' in cand:
                base = cand['sched_seed']
                for t in range(h.retries):
                    cand['sched_seed'] = base if t == 0 else random.Random(f'{base}:{t}').getrandbits(48)
                    r = fails(cand)
                    if r is not None:
                        break
            else:
                r = fails(cand)
            if r is not None:
                spec, best, progress = cand, r, True
                break
    # 2. shrink the schedule: drop recorded decisions that are not needed
    if getattr(best, 'trace', None) is not None:
        tr = [list(x) for x in best.trace]
        s = dict(spec, trace=tr)
        if fails(s) is not None:
            n = 2
            while tr and time.time() < end:
                size = max(1, len(tr) // n)
                hit = False
                for i in range(0, len(tr), size):
                    cand = tr[:i] + tr[i + size:]
                    if fails(dict(spec, trace=cand)) is not None:
                        tr, hit = cand, True
                        n = max(n - 1, 2)
                        break
                    if time.time() > end:
                        break
                if not hit:
                    if size == 1:
                        break
                    n = min(len(tr), n * 2)
            spec = dict(spec, trace=tr)
            best = fails(spec)
    return spec, best, tried


def write_replay(prop, seed, idx, tier, spec, r, cls):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', f'{prop}-s{seed}-i{idx}.json')
    det = [v[1] for v in r.violations if v[0] == cls][0] if r is not None else ''
    with open(path, 'w') as f:
        json.dump({'property': prop, 'seed': seed, 'index': idx, 'tier': tier, 'class': cls, 'detail': det,
                   'fingerprint': r.fingerprint if r is not None else None, 'spec': spec}, f, indent=1)
    return path


def replay(path, quiet=False):
    d = json.load(open(path))
    h = load(d['property'])
    h.prepare()
    if d.get('class') == 'unresponsive':
        return replay_hang(h, d)
    r = run_spec(h, d['spec'], record=True)
    if not quiet:
        say('\n'.join(r.log[-400:]))
    for v in r.violations:
        say(f'  {v[0]}: {v[1]}')
    same = d['class'] in {v[0] for v in r.violations}
    exact = d['fingerprint'] in (None, r.fingerprint)
    say(f'replay: same violation class: {same}; identical event history: {exact}')
    if same:
        say(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0


LINE_BUDGET = 30_000_000


class TooManyLines(BaseException):
    pass


def replay_hang(h, d):
    """Re-run a spec that never came back, counting executed lines of /repo between two scheduling points."""
    import threading
    count = [0]
    hit = []
    from sim.kernel import Kernel
    real_point, real_block = Kernel.point, Kernel.block

    def pt(self, label):
        count[0] = 0
        return real_point(self, label)

    def bl(self, *a, **kw):
        count[0] = 0
        return real_block(self, *a, **kw)
    Kernel.point, Kernel.block = pt, bl

    def local(frame, event, arg):
        if event == 'line':
            count[0] += 1
            if count[0] > LINE_BUDGET:
                if not hit:
                    hit.append(f'{frame.f_code.co_filename}:{frame.f_code.co_name}')
                    say(f'replay: {LINE_BUDGET} lines executed in {hit[0]} without a scheduling point or an end')
                    say(f"VIOLATION property={d['property']} replay={d.get('path', '')}")
                    sys.stdout.flush()
                    os._exit(1)
        return local

    def tr(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(REPO) else None
    threading.settrace(tr)
    sys.settrace(tr)
    run_spec(h, d['spec'])
    sys.settrace(None)
    say('replay: the run came back')
    return 0


# ------------------------------------------------------------------------------------------------ main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--tier')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--index', type=int, help='run one index with its event log')
    a = ap.parse_args()
    prop = a.prop
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    import skdecide
    if not skdecide.__file__.startswith(REPO + '/'):
        say('harness error: skdecide is not imported from /repo')
        return 2
    if a.replay:
        return replay(a.replay)
    h = load(prop)
    try:
        h.prepare()
    except Exception as e:
        say(f'harness error: {e}')
        return 2
    if a.index is not None:
        spec = spec_for(h, prop, seed, a.index, tier)
        say(json.dumps(spec))
        r = run_spec(h, spec, record=True)
        say('\n'.join(r.log))
        say(r.violations, r.stats, r.faults)
        return 0
    t0 = time.time()
    n = a.runs or h.runs[tier]
    jobs = a.jobs or max(1, min(8, os.cpu_count() or 1))
    wall = a.wall or (240.0 if tier == 'quick' else 3000.0)
    kf = known(prop)
    say(f'property={prop} tier={tier} seed={seed} runs={n} jobs={jobs}')
    aggs, viols, hangs, died = explore(prop, seed, tier, n, jobs, wall, kf)
    t_explore = time.time() - t0
    tot = {'runs': 0, 'steps': 0, 'simtime': 0.0, 'nontrivial': 0, 'redo': 0, 'redo_diff': 0}
    faults, stats, knownhits, fps, herr = collections.Counter(), collections.Counter(), collections.Counter(), set(), []
    maxima = {}
    for g in aggs:
        for kk in tot:
            tot[kk] += g[kk]
        faults.update(g['faults'])
        stats.update(g['stats'])
        knownhits.update(g['known'])
        fps.update(g['fps'])
        herr += g['harness']
        for kk, v in g['maxima'].items():
            maxima[kk] = max(maxima.get(kk, 0), v)
    samples = []
    for i in range(3):
        sp = json.dumps(spec_for(h, prop, seed, i, tier))
        samples.append(sp if len(sp) < 1500 else sp[:1500] + '...')
    cov = {
        'evaluations': tot['runs'],
        'distinct_nontrivial': len(fps),
        'rule': h.rule,
        'samples': samples,
        'runs_requested': n,
        'simulated_runs_per_hour': int(tot['runs'] / max(t_explore, 1e-6) * 3600),
        'seeds_per_hour': int(tot['runs'] / max(t_explore, 1e-6) * 3600),
        'scheduling_points_or_events': tot['steps'],
        'simulated_seconds': round(tot['simtime'], 3),
        'faults_injected': dict(sorted(faults.items())),
        'probes': dict(sorted(stats.items())),
        'maxima': maxima,
        'nontrivial_runs': tot['nontrivial'],
        'distinctness_measure': 'distinct blake2b hashes of the whole event history of a run (who ran, what it did)',
        'determinism_rerun': {'runs_executed_twice': tot['redo'], 'different': tot['redo_diff']},
        'real_components': h.real,
        'stubbed_components': h.stub,
        'known_findings_hit': dict(knownhits),
        'harness_errors': len(herr),
    }
    code = 0
    vio = 0
    if viols:
        viols.sort()
        idx, vs = viols[0]
        vio = len(viols)
        spec = spec_for(h, prop, seed, idx, tier)
        cls = vs[0][0]
        say(f'run {idx}: {cls}: {vs[0][1]}')
        spec_m, r, tried = minimise(h, spec, cls, kf, 45.0 if tier == 'quick' else 180.0)
        if r is None:
            # did not fail again on its own: keep the original, recorded by its seed
            path = write_replay(prop, seed, idx, tier, spec, None, cls)
        else:
            path = write_replay(prop, seed, idx, tier, spec_m, r, cls)
        say(f'minimised in {tried} runs: {[v for v in (r.violations if r else []) if v[0] == cls][:1]}')
        try:
            c = subprocess.run([sys.executable, '-W', 'ignore', os.path.abspath(__file__), prop, '--replay', path],
                               env=dict(os.environ, PYTHONHASHSEED='7'), stdout=subprocess.PIPE, timeout=120, text=True)
            cov['replay_in_fresh_process'] = c.stdout.strip().splitlines()[-2:]
        except subprocess.TimeoutExpired:
            cov['replay_in_fresh_process'] = ['timed out']
        say(f'VIOLATION property={prop} replay={path}')
        code = 1
    elif hangs:
        idx = min(hangs)
        spec = spec_for(h, prop, seed, idx, tier)
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', f'{prop}-s{seed}-i{idx}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'index': idx, 'tier': tier, 'class': 'unresponsive',
                       'fingerprint': None, 'path': path, 'spec': spec}, f, indent=1)
        try:
            c = subprocess.run([sys.executable, '-W', 'ignore', os.path.abspath(__file__), prop, '--replay', path],
                               stdout=subprocess.PIPE, timeout=400, text=True)
            rc = c.returncode
            say(c.stdout.strip()[-2000:] if rc != 1 else c.stdout.strip().splitlines()[0])
        except subprocess.TimeoutExpired:
            rc = None
        if rc == 1:
            vio = 1
            say(f'VIOLATION property={prop} replay={path}')
            code = 1
        else:
            say(f'harness error: run {idx} exceeded {WALL_PER_RUN}s but was not confirmed as endless')
            code = 2
    if code == 0 and (herr or died):
        for e in herr[:3]:
            say('harness error in run', e[0], e[1])
            say(e[2])
        for d in died:
            say('worker died', d)
        code = 2
    for d in kf:
        say(f"KNOWN-FINDING: property={prop} {d['what']}")
    if code == 0 and tot['runs'] == 0:
        say('harness error: nothing was run')
        code = 2
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': h.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': vio}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', f'.{prop}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', f'{prop}.json'))
    say(f"{prop}: {tot['runs']} runs, {len(fps)} distinct histories, {tot['steps']} steps, "
        f"{round(time.time() - t0, 1)}s -> exit {code}")
    return code


if __name__ == '__main__':
    sys.exit(main())
