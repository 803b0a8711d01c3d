"""Reference for resource constrained projects: instances and the serial generation of schedules."""


def gen_instance(rng, kind, n=None):
    """kind: 'single', 'multi' or 'calendar'; tasks 1 (start) .. n+2 (end)"""
    n = n or rng.choice([1, 2, 3, 4, 5, 6])
    ren = ['R1', 'R2'][:rng.choice([1, 1, 2])]
    non = ['N1'] if kind == 'multi' and rng.random() < .6 else []
    cap = {r: rng.choice([1, 2, 3, 4]) for r in ren}
    modes = {}
    for t in range(1, n + 3):
        if t in (1, n + 2):
            modes[t] = {1: {'duration': 0, **{r: 0 for r in ren + non}}}
            continue
        modes[t] = {}
        for m in range(1, (rng.choice([1, 2, 3]) if kind == 'multi' else 1) + 1):
            modes[t][m] = {'duration': rng.choice([1, 1, 2, 3, 4]), **{r: rng.randint(0, cap[r]) for r in ren},
                           **{r: rng.randint(0, 3) for r in non}}
    for t in range(2, n + 2):
        if t > 2 and rng.random() < .06:      # milestones
            for d in modes[t].values():
                d.update({r: 0 for r in d})
    succ = {t: [] for t in range(1, n + 3)}
    for t in range(2, n + 2):
        succ[1].append(t)
        for u in range(t + 1, n + 2):
            if rng.random() < .25:
                succ[t].append(u)
        succ[t].append(n + 2)
    succ[1].append(n + 2)
    # task numbers must not be an order of the precedences
    real = list(range(2, n + 2))
    rng.shuffle(real)
    ren_ = {1: 1, n + 2: n + 2, **{t: real[t - 2] for t in range(2, n + 2)}}
    succ = dict(sorted((ren_[t], sorted(ren_[u] for u in us)) for t, us in succ.items()))
    horizon = sum(max(m['duration'] for m in ms.values()) for ms in modes.values())
    for r in non:
        cap[r] = rng.choice([n, 2 * n, 3 * n])
    short = rng.random() < .12
    if short:
        horizon = max(1, horizon // 2)
    inst = {'kind': kind, 'n': n, 'ren': ren, 'non': non, 'modes': modes, 'succ': succ, 'horizon': horizon + 1}
    if kind == 'calendar':
        if not short:
            inst['horizon'] = 3 * horizon + 8
        inst['cap'] = {r: [rng.choice([cap[r], cap[r], cap[r], 0, max(cap[r] - 1, 0)]) for _ in range(inst['horizon'] + 1)] for r in ren}
    else:
        inst['cap'] = cap
    return norm(inst)


def norm(inst):
    """keys as JSON keeps them"""
    return {**inst, 'modes': {str(t): {str(m): d for m, d in ms.items()} for t, ms in inst['modes'].items()},
            'succ': {str(t): us for t, us in inst['succ'].items()}}


def vary(rng, inst):
    """the same project with other durations (and needs)"""
    out = {**inst, 'modes': {t: {m: dict(d) for m, d in ms.items()} for t, ms in inst['modes'].items()}}
    for t, ms in out['modes'].items():
        if t not in ('1', str(inst['n'] + 2)):
            for d in ms.values():
                d['duration'] = max(1, d['duration'] + rng.choice([-1, 0, 1, 2]))
    if inst['kind'] != 'calendar' and rng.random() < .8:
        out['horizon'] = 1 + sum(max(d['duration'] for d in ms.values()) for ms in out['modes'].values())
    return out


def build(inst, numpy_calendar=False):
    import numpy as np
    from skdecide.builders.discrete_optimization.rcpsp import rcpsp_model as M
    cls = {'single': M.SingleModeRCPSPModel, 'multi': M.MultiModeRCPSPModel, 'calendar': M.RCPSPModelCalendar}[inst['kind']]
    cap = {r: (np.array(c) if numpy_calendar else list(c)) if isinstance(c, list) else c for r, c in inst['cap'].items()}
    return cls(resources=cap, non_renewable_resources=list(inst['non']),
               mode_details={int(t): {int(m): dict(d) for m, d in ms.items()} for t, ms in inst['modes'].items()},
               successors={int(t): list(us) for t, us in inst['succ'].items()}, horizon=inst['horizon'], horizon_multiplier=1)


def mode_of(inst, modes, t):
    """what task t takes under these modes (one per real task); modes which do not exist are mode 1"""
    ms = inst['modes'][str(t)]
    m = '1' if t in (1, inst['n'] + 2) else str(modes[t - 2])
    return ms[m if m in ms else '1']


def sgs(inst, perm, modes):
    """start times of the serial schedule generation: tasks one by one, in the order of the permutation as far as the
    precedences allow it, each as early as possible; None if there is none within the horizon"""
    n, H = inst['n'], inst['horizon']
    for r in inst['non']:
        if sum(mode_of(inst, modes, t)[r] for t in range(1, n + 3)) > inst['cap'][r]:
            return None
    left = {r: [inst['cap'][r][t] if isinstance(inst['cap'][r], list) else inst['cap'][r] for t in range(H)] for r in inst['ren']}
    pred = {t: {int(p) for p, us in inst['succ'].items() if t in us} for t in range(1, n + 3)}
    todo, start, end = [1] + [x + 2 for x in perm] + [n + 2], {}, {}
    while todo:
        t = next(t for t in todo if not pred[t] & set(todo))
        d = mode_of(inst, modes, t)
        s = max([end[p] for p in pred[t]], default=0)
        while s + d['duration'] <= H and any(left[r][u] < d[r] for r in left for u in range(s, s + d['duration'])):
            s += 1
        if s + d['duration'] > H:
            return None
        for r in left:
            for u in range(s, s + d['duration']):
                left[r][u] -= d[r]
        start[t], end[t] = s, s + d['duration']
        todo.remove(t)
    return start


def objectives(inst, perm, modes):
    """makespan and mean resource reserve of the generated schedule, or None"""
    start = sgs(inst, perm, modes)
    if start is None:
        return None
    n = inst['n']
    span = start[n + 2]
    res = []
    for r in inst['ren'] + inst['non']:
        c = inst['cap'][r]
        if isinstance(c, list) or r in inst['non']:
            return span, None
        used = sum(mode_of(inst, modes, t)['duration'] * mode_of(inst, modes, t)[r] for t in range(2, n + 2))
        res.append((c - used / span) / c)
    return span, sum(res) / len(res)


def faults_of(inst, start, modes):
    """what is wrong with a schedule, or None"""
    n = inst['n']
    if set(start) != set(range(1, n + 3)):
        return f'tasks {sorted(start)} are scheduled'
    for t, us in inst['succ'].items():
        for u in us:
            if start[u] < start[int(t)] + mode_of(inst, modes, int(t))['duration']:
                return f'{u} starts at {start[u]}, before its predecessor {t} ends'
    if min(start.values()) < 0:
        return 'a task starts before the beginning'
    for r in inst['ren']:
        c = inst['cap'][r]
        for u in range(start[n + 2] + 1):
            use = sum(mode_of(inst, modes, t)[r] for t in start if start[t] <= u < start[t] + mode_of(inst, modes, t)['duration'])
            have = (c[u] if u < len(c) else 0) if isinstance(c, list) else c
            if use > have:
                return f'{use} of {have} {r} are used at {u}'
    for r in inst['non']:
        use = sum(mode_of(inst, modes, t)[r] for t in start)
        if use > inst['cap'][r]:
            return f'{use} of {inst["cap"][r]} {r} are used'
    return None
