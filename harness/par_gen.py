"""Scenario generators for the parallel-domain properties (swarm style: every run draws its own mix)."""
from harness import ptypes as PT

SHM_TYPES = ['Tok', 'Pair', 'Tri', 'Vec', 'int', 'float', 'bool']


def regs(rng, rich=False):
    ts = rng.sample(SHM_TYPES, rng.randint(2, 5 if rich else 4))
    if 'Tok' not in ts:
        ts[0] = 'Tok'
    if rich and 'Pair' not in ts and 'Tri' not in ts:
        ts.append(rng.choice(['Pair', 'Tri']))
    rng.shuffle(ts)
    return [[t, rng.choice([1, 1, 2, 3, 4] if rich else [1, 2, 3])] for t in ts]


def arg(rng, t):
    v = lambda: rng.randrange(1, 900000)
    return {'Tok': lambda: ['Tok', v()], 'Pair': lambda: ['Pair', v(), v()], 'Tri': lambda: ['Tri', v(), v(), v()],
            'Vec': lambda: ['Vec', v(), v(), v()], 'int': lambda: ['int', v()], 'float': lambda: ['float', v()],
            'bool': lambda: ['bool', rng.random() < 0.5], 'str': lambda: ['str', 's%d' % v()],
            'list': lambda: ['list', v(), v()]}[t]()


def args(rng, tr, rg, n):
    if tr == 'pipe':
        return [arg(rng, rng.choice(['Tok', 'Pair', 'int', 'str', 'list', 'bool', 'Tri'])) for _ in range(n)]
    left = {t: c for t, c in rg}
    out = []
    for _ in range(n):
        ts = [t for t in left if left[t] > 0]
        if not ts:
            break
        t = rng.choice(ts)
        left[t] -= 1
        out.append(arg(rng, t))
    return out


def request(rng, tr, rg, p_fail=0.0, rich=False, p_unsend=0.0):
    """One request; failing ones by probability."""
    x = rng.random()
    if x < p_fail:
        m = rng.choice([f for f in PT.FAILING if tr == 'shm' or f not in ('over_result', 'bad_second')])
        via = rng.choice(['launch', 'generic'])
        a = args(rng, tr, rg, rng.randint(0, 3))
        if m == 'fail' and rng.random() < 0.3:
            via = 'call'
        return {'op': 'req', 'm': m, 'via': via, 'args': a, 'k': rng.randrange(4)}
    if x < p_fail + p_unsend:
        a = args(rng, tr, rg, rng.randint(0, 2))
        if tr == 'pipe':
            a.insert(rng.randint(0, len(a)), ['Unsendable', 0])
        else:
            kind = rng.choice(['type', 'many', 'poison', 'name', 'total'])
            if kind == 'type':
                a.insert(rng.randint(0, len(a)), ['Unsendable', 0])
            elif kind == 'many':
                t, c = rng.choice(rg)
                a = [arg(rng, t) for _ in range(c + 1)]
            elif kind == 'poison':
                t = rng.choice([t for t, _ in rg if t in ('Tok', 'Pair')])
                a = args(rng, tr, [r for r in rg if r[0] != t], rng.randint(0, 2))
                a.insert(rng.randint(0, len(a)), ['Tok', PT.POISON] if t == 'Tok' else ['Pair', 5, PT.POISON])
            elif kind == 'total':
                a = []
                for t, c in rg:
                    a += [arg(rng, t) for _ in range(c)]
                a.append(arg(rng, rg[0][0]))
            else:
                return {'op': 'req', 'm': 'n' * rng.choice([101, 150]), 'via': 'launch', 'args': a,
                        'k': rng.randrange(4)}
        return {'op': 'req', 'm': 'echo', 'via': rng.choice(['launch', 'generic', 'call']), 'args': a,
                'k': rng.randrange(4)}
    y = rng.random()
    if y < 0.55:
        m = rng.choice(list(PT.WRAPPERS))
        n = PT.WRAPPERS[m]
        a = args(rng, tr, rg, n)
        if len(a) == n:
            return {'op': 'req', 'm': m, 'via': 'wrapper', 'args': a, 'k': rng.randrange(4)}
    n = rng.choice([0, 1, 1, 2, 2, 3, 4] if not rich else [1, 2, 3, 3, 4, 5, 6])
    a = args(rng, tr, rg, n)
    m = rng.choice(PT.CUSTOM + ['echo', 'two'])
    via = rng.choice(['launch', 'generic'])
    if m in ('echo', 'two', 'mirror') and rng.random() < 0.4:
        via = 'call'
    return {'op': 'req', 'm': m, 'via': via, 'args': a, 'k': rng.randrange(4)}


def client_ops(rng, tr, rg, n, **kw):
    ops = []
    for _ in range(n):
        x = rng.random()
        if x < 0.2:
            ops.append({'op': 'think', 'n': rng.randint(1, 8)})
        if x > 0.85:
            ops.append({'op': 'collect', 'k': rng.randrange(4)})
        ops.append(request(rng, tr, rg, **kw))
    return ops


def clients(rng, slots, tr, rg, nreq=(2, 7), styles=('auto', 'own', 'wake'), nmax=4, contend=False, **kw):
    style = rng.choice(list(styles))
    out = []
    if style == 'own':
        ids = list(range(slots))
        rng.shuffle(ids)
        nc = rng.randint(1, min(slots, nmax))
        parts = [[] for _ in range(nc)]
        for j, s in enumerate(ids):
            parts[j if j < nc else rng.randrange(nc)].append(s)
        for c in range(nc):
            out.append({'id': c, 'style': 'own', 'own': parts[c], 'batch': rng.randint(1, len(parts[c])),
                        'ops': client_ops(rng, tr, rg, rng.randint(*nreq), **kw)})
        return out
    nc = rng.randint(2 if contend else 1, nmax)
    # hold-and-wait: either nobody holds two slots at once, or there are enough slots for everyone
    budget = slots
    batches = [1] * nc
    if nc < slots and rng.random() < 0.5:
        extra = slots - nc
        for j in range(nc):
            g = rng.randint(0, extra)
            batches[j] += g
            extra -= g
    for c in range(nc):
        st = style
        if style in ('auto', 'wake') and rng.random() < 0.3 and 'wake' in styles:
            st = 'wake' if style == 'auto' else 'auto'
        out.append({'id': c, 'style': st, 'batch': batches[c],
                    'ops': client_ops(rng, tr, rg, rng.randint(*nreq), **kw)})
    return out


def base(rng, tr=None, rich=False, slots=None):
    tr = tr or rng.choice(['pipe', 'shm'])
    rg = regs(rng, rich) if tr == 'shm' else None
    s = {'transport': tr, 'slots': slots or rng.choice([1, 2, 2, 3, 3, 4]), 'regs': rg,
         'start': rng.choice(['with', 'explicit', 'lazy']), 'sched_seed': rng.getrandbits(48),
         'fault_seed': rng.getrandbits(32), 'first_args': args(rng, tr, rg, 1), 'faults': []}
    if rng.random() < 0.3:
        s['slow_start'] = rng.randint(1, 6)
    return s


def with_schedule_faults(rng, s):
    if rng.random() < 0.5:
        s['spurious'] = rng.choice([0.01, 0.05, 0.15])
    if rng.random() < 0.4:
        s['jumps'] = rng.choice([0.02, 0.1, 0.3])
    if rng.random() < 0.4:
        s['stalls'] = [{'task': rng.choice(['C0', 'C1', 'W0', 'W1', 'W2', 'main']), 'at': rng.randint(2, 60),
                        'len': rng.choice([20, 80, 250])} for _ in range(rng.randint(1, 2))]
    return s


# ------------------------------------------------------------------ one generator per property
def gen_exclusive(rng, tier):
    s = base(rng, slots=rng.choice([1, 2, 2, 3, 4]))
    s['clients'] = clients(rng, s['slots'], s['transport'], s['regs'], styles=('auto', 'wake'), nmax=5, contend=True,
                           nreq=(2, 6))
    s['notify'] = rng.random() < 0.2
    return with_schedule_faults(rng, s)


def gen_transparent(rng, tier):
    s = base(rng)
    s['clients'] = clients(rng, s['slots'], s['transport'], s['regs'], nreq=(2, 8))
    s['notify'] = rng.random() < 0.3
    return with_schedule_faults(rng, s)


def gen_failing(rng, tier):
    s = base(rng)
    s['clients'] = clients(rng, s['slots'], s['transport'], s['regs'], nreq=(3, 8), p_fail=rng.choice([0.2, 0.4]),
                           p_unsend=rng.choice([0.0, 0.15, 0.3]))
    s['notify'] = rng.random() < 0.25
    return with_schedule_faults(rng, s)


def gen_shm(rng, tier):
    s = base(rng, 'shm', rich=True)
    s['clients'] = clients(rng, s['slots'], 'shm', s['regs'], nreq=(3, 8), rich=True,
                           p_unsend=rng.choice([0, 0, 0.1, 0.2]), p_fail=rng.choice([0, 0, 0.15]))
    return with_schedule_faults(rng, s)


def gen_close(rng, tier):
    s = base(rng)
    mk = lambda: clients(rng, s['slots'], s['transport'], s['regs'], nreq=(1, 4), nmax=3,
                         p_fail=rng.choice([0, 0.2]), p_unsend=rng.choice([0, 0.15]))
    rounds = [mk() for _ in range(rng.choice([1, 1, 2, 3]))]
    for r in rounds:
        for c in r:
            if rng.random() < 0.5:
                c['leave_pending'] = True
                if c['style'] != 'own' and any(x is not c and x['style'] != 'own' for x in r):
                    # a slot left active can starve another automatic client: keep pending ones within capacity
                    if len(r) * max(x['batch'] for x in r) > s['slots']:
                        c['leave_pending'] = False
                c['ops'] = [o for o in c['ops']]
    s['rounds'] = rounds
    s['clients'] = []
    s['exit_exception'] = rng.random() < 0.4
    s['double_close'] = rng.random() < 0.3
    s['notify'] = rng.random() < 0.3
    if rng.random() < 0.15:
        s['factory_fail'] = []
    return with_schedule_faults(rng, s)


def gen_crash(rng, tier):
    s = base(rng, slots=rng.choice([2, 3, 3, 4]))
    tr, rg = s['transport'], s['regs']
    s['start'] = rng.choice(['with', 'explicit'])
    ids = list(range(s['slots']))
    rng.shuffle(ids)
    ncrash = rng.randint(1, max(1, s['slots'] - 1))
    doomed, healthy = ids[:ncrash], ids[ncrash:]
    s['crash'], s['factory_crash'], s['factory_fail'] = [], [], []
    cl = []
    for j, d in enumerate(doomed):
        mode = rng.choice(['call', 'call', 'call', 'start', 'fail'])
        if mode == 'start':
            s['factory_crash'].append(d)
            continue
        if mode == 'fail':
            s['factory_fail'].append(d)
            continue
        call = rng.randint(1, 3)
        s['crash'].append({'slot': d, 'call': call, 'at': rng.randint(1, 2)})
        ops = [request(rng, tr, rg) for _ in range(call - 1)]
        ops.append({'op': 'req', 'm': 'slow', 'via': 'launch', 'args': [], 'abandon': True, 'k': 0})
        cl.append({'id': 100 + j, 'style': 'own', 'own': [d], 'batch': 1, 'ops': ops})
    for j, hslot in enumerate(healthy):
        cl.append({'id': j, 'style': 'own', 'own': [hslot], 'batch': 1,
                   'ops': client_ops(rng, tr, rg, rng.randint(2, 6), p_fail=rng.choice([0, 0.2]))})
    s['clients'] = cl
    s['double_close'] = rng.random() < 0.2
    s['exit_exception'] = rng.random() < 0.3
    if rng.random() < 0.3:
        s['rounds'] = [cl, [{'id': j, 'style': 'own', 'own': [hs], 'batch': 1,
                             'ops': client_ops(rng, tr, rg, rng.randint(1, 3))} for j, hs in enumerate(healthy)]]
    return with_schedule_faults(rng, s)


def gen_notify(rng, tier):
    s = base(rng)
    s['clients'] = clients(rng, s['slots'], s['transport'], s['regs'], nreq=(2, 6), p_fail=rng.choice([0, 0.3, 0.5]),
                           p_unsend=rng.choice([0, 0.1]))
    for c in s['clients']:
        c['pull'] = rng.random() < 0.6
    s['notify'] = rng.random() < 0.9
    return with_schedule_faults(rng, s)


def gen_solver(rng, tier):
    s = base(rng)
    s['solver'] = True
    s['parallel'] = rng.random() < 0.75
    s['start'] = rng.choice(['explicit', 'lazy'])
    s['threads'] = rng.choice([1, 1, 2, 3]) if s['parallel'] else 1
    s['rounds'] = [[{'id': c, 'style': 'auto', 'batch': 1,
                     'ops': client_ops(rng, s['transport'], s['regs'], rng.randint(2, 6),
                                       p_fail=rng.choice([0, 0.2, 0.4]))} for c in range(s['threads'])]
                   for _ in range(rng.choice([1, 1, 2]))]
    s['clients'] = []
    s['notify'] = rng.random() < 0.3
    s['double_close'] = rng.random() < 0.4
    s['pending'] = rng.choice([0, 0, 1, 2])
    return with_schedule_faults(rng, s)
