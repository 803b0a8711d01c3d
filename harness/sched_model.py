"""Scheduling problems from JSON specs: the real skdecide domain, and an independent reference of what it must do.

A spec's numbers are small and its durations integers, so the reference is exact.
"""
import itertools

TOL = 1e-6


# ---------------------------------------------------------------------------------------------- spec accessors
class Prob:
    """A spec with convenient lookups (shared by the reference and the real domain)."""

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec['kind']
        self.tasks = [t['id'] for t in spec['tasks']]
        self.t = {t['id']: t for t in spec['tasks']}
        self.res = {r['name']: r for r in spec['res']}
        self.units = {u['name']: u for u in spec.get('units', [])}
        self.succ = {t['id']: list(t['succ']) for t in spec['tasks']}
        self.pred = {i: [j for j in self.tasks if i in self.succ[j]] for i in self.tasks}
        self.horizon = spec['horizon']
        self.preempt = spec.get('preempt', False)
        self.cond = spec.get('cond', False)
        self.inplace = spec.get('inplace', False)

    def modes(self, i):
        return [m['m'] for m in self.t[i]['modes']]

    def mode(self, i, m):
        for d in self.t[i]['modes']:
            if d['m'] == m:
                return d
        raise KeyError((i, m))

    def durations(self, i, m):
        """list of (duration, probability)"""
        d = self.mode(i, m)['dur']
        return [(d, 1.)] if isinstance(d, int) else [(x, p) for x, p in d]

    def need(self, i, m, r, active):
        v = self.mode(i, m)['use'].get(r, 0)
        if isinstance(v, list):
            return v[active] if active < len(v) else 0
        return v

    def varying(self, i, m):
        return any(isinstance(v, list) for v in self.mode(i, m)['use'].values())

    def cap(self, r, t):
        d = self.res.get(r) or self.units[r]
        c = d['cap']
        for tt, cc in d.get('cal', []):
            if t >= tt:
                c = cc
        return c

    def renewable(self, r):
        return (self.res.get(r) or self.units[r]).get('renew', True)

    def skills(self, i, m):
        return {s: v for s, v in self.mode(i, m).get('skills', {}).items() if v > 0}

    def exist(self, i):
        return self.t[i].get('exist')

    def compl(self, i):
        return self.t[i].get('compl')

    def resume_type(self, i):
        return self.t[i].get('resume', 'Resume')

    def returned(self, i):
        return self.t[i].get('returned', True)

    def preemptive(self, i):
        return self.preempt and self.t[i].get('preempt', False)

    def last_change(self):
        return max([0] + [tt for d in list(self.res.values()) + list(self.units.values())
                          for tt, _ in d.get('cal', [])])


# ---------------------------------------------------------------------------------------------- reference
class RTask:
    __slots__ = ('start', 'end', 'dur', 'elapsed', 'mode', 'paused', 'resumed', 'used', 'first')

    def __init__(self):
        self.start = self.end = self.dur = self.mode = None
        self.elapsed = 0
        self.paused, self.resumed = (), ()
        self.used = {}      # resources held now
        self.first = {}     # resources taken at start

    def copy(self):
        c = RTask.__new__(RTask)
        for k in self.__slots__:
            setattr(c, k, getattr(self, k))
        c.used, c.first = dict(self.used), dict(self.first)
        return c

    def active(self, t):
        if self.start is None:
            return 0
        end = t if self.end is None else min(t, self.end)
        out = 0
        for i, p in enumerate(self.paused):
            out += (self.resumed[i] if i < len(self.resumed) else end) - p
        return end - self.start - out


class RState:
    __slots__ = ('t', 'rem', 'ong', 'com', 'pau', 'used', 'avail', 'tk', 'cond')

    def copy(self):
        c = RState.__new__(RState)
        c.t = self.t
        c.rem, c.ong, c.com, c.pau, c.cond = (set(self.rem), set(self.ong), set(self.com), set(self.pau),
                                              set(self.cond))
        c.used, c.avail = dict(self.used), dict(self.avail)
        c.tk = {i: k.copy() for i, k in self.tk.items()}
        return c

    def progress(self, i):
        k = self.tk[i]
        if k.dur is None:
            return None
        if i in self.com:
            return 1.
        return k.elapsed / k.dur if k.dur else 0.

    def proj(self):
        nz = lambda d: tuple(sorted((r, v) for r, v in d.items() if v))
        return {'t': self.t,
                'remaining': tuple(sorted(self.rem)), 'ongoing': tuple(sorted(self.ong)),
                'complete': tuple(sorted(self.com)), 'paused': tuple(sorted(self.pau)),
                'progress': {i: self.progress(i) for i in self.tk if self.tk[i].dur is not None},
                'mode': {i: k.mode for i, k in self.tk.items() if k.mode is not None},
                'used': nz(self.used), 'avail': tuple(sorted(self.avail.items())),
                'held': {i: nz(k.used) for i, k in self.tk.items() if i in self.ong},
                'start': {i: k.start for i, k in self.tk.items()}, 'end': {i: k.end for i, k in self.tk.items()},
                'duration': {i: k.dur for i, k in self.tk.items()},
                'pauses': {i: (k.paused, k.resumed) for i, k in self.tk.items()},
                'first': {i: nz(k.first) for i, k in self.tk.items()},
                'active': {i: k.active(self.t) for i, k in self.tk.items()},
                'conditions': tuple(sorted(self.cond))}


class Ref:
    def __init__(self, prob):
        self.p = prob

    def initial(self):
        p = self.p
        s = RState()
        s.t = 0
        s.ong, s.com, s.pau, s.cond = set(), set(), set(), set()
        s.rem = {i for i in p.tasks if not p.exist(i)}
        s.avail = {r: p.cap(r, 0) for r in list(p.res) + list(p.units)}
        s.used = {r: 0 for r in s.avail}
        s.tk = {i: RTask() for i in p.tasks}
        return s

    # ---- queries
    def existing(self, s):
        return {i for i in self.p.tasks if not self.p.exist(i) or set(self.p.exist(i)) <= s.cond}

    def prec_ok(self, s, i):
        ex = self.existing(s)
        return all(j in s.com for j in self.p.pred[i] if j in ex)

    def wants(self, s, i, m, units):
        use = {r: self.p.need(i, m, r, s.tk[i].active(s.t)) for r in self.p.res}
        for u in units or ():
            use[u] = 1
        return use

    def fits(self, s, use):
        return all(v <= s.avail[r] - s.used[r] for r, v in use.items())

    def skilled(self, i, m, units):
        need = self.p.skills(i, m)
        have = {k: 0 for k in need}
        for u in units or ():
            for k, v in self.p.units[u].get('skills', {}).items():
                if k in have:
                    have[k] += v
        return all(have[k] >= v for k, v in need.items())

    def acceptable(self, s, a):
        """START / RESUME is carried out (the caller guarantees precedence and phase)."""
        return self.fits(s, self.wants(s, a.task, a.mode, a.units)) and self.skilled(a.task, a.mode, a.units)

    def over(self, s):
        return any(s.used[r] > s.avail[r] for r in s.used)

    def offered(self, s):
        """Exactly the single-task actions an enumerable action space must contain (units excluded)."""
        out = set()
        if not self.over(s):
            for i in s.rem:
                if self.prec_ok(s, i):
                    for m in self.p.modes(i):
                        if self.fits(s, self.wants(s, i, m, None)):
                            out.add(('START', i, m))
            for i in s.pau:
                if self.fits(s, self.wants(s, i, s.tk[i].mode, None)):
                    out.add(('RESUME', i, s.tk[i].mode))
        for i in s.ong:
            if self.p.preemptive(i):
                out.add(('PAUSE', i, None))
        out.add(('TIME_PR', None, None))
        return out

    def goal(self, s):
        return not s.rem and not s.ong and not s.pau

    def possible(self, s):
        for i in s.rem:
            if not any(all(self.p.need(i, m, r, 0) <= s.avail[r] - s.used[r]
                           for r in self.p.res if not self.p.renewable(r)) for m in self.p.modes(i)):
                return False
        return True

    def terminal(self, s):
        return s.t > self.p.horizon or not self.possible(s) or self.goal(s)

    # ---- transitions
    def _take(self, s, i, use):
        for r, v in use.items():
            s.used[r] += v
        s.tk[i].used = dict(use)

    def _give(self, s, i, nonrenewable):
        for r, v in s.tk[i].used.items():
            if self.p.renewable(r) or nonrenewable:
                s.used[r] -= v
        s.tk[i].used = {}

    def _complete(self, s, i, t):
        s.ong.discard(i)
        s.com.add(i)
        self._give(s, i, False)
        s.tk[i].end = t

    def _conditions(self, s, done):
        """[(state, prob)] after the tasks in done drew their conditions."""
        dists = [[(c, p) for c, p in d] for i in done for d in (self.p.compl(i) or [])]
        out = []
        for combo in itertools.product(*dists):
            n = s.copy() if dists else s
            pr = 1.
            for c, p in combo:
                n.cond.add(c)
                pr *= p
            out.append((n, pr))
        return out

    def _enable(self, s):
        known = s.rem | s.ong | s.com | s.pau
        s.rem |= self.existing(s) - known

    def next(self, s, a):
        """[(state, prob)] for action a."""
        s = s.copy()
        started = False
        if a.kind == 'PAUSE':
            i = a.task
            s.ong.discard(i)
            s.pau.add(i)
            self._give(s, i, self.p.returned(i))
            s.tk[i].paused += (s.t,)
        elif a.kind == 'RESUME' and self.acceptable(s, a):
            i = a.task
            use = self.wants(s, i, a.mode, a.units)
            s.pau.discard(i)
            s.ong.add(i)
            self._take(s, i, use)
            s.tk[i].resumed += (s.t,)
            s.tk[i].mode = a.mode
            if self.p.resume_type(i) == 'Restart':
                s.tk[i].elapsed = 0
        elif a.kind == 'START' and self.acceptable(s, a):
            started = True
            i = a.task
            use = self.wants(s, i, a.mode, a.units)
            s.rem.discard(i)
            s.ong.add(i)
            s.tk[i].start, s.tk[i].mode = s.t, a.mode
            s.tk[i].first = dict(use)
            self._take(s, i, use)
        states = [(s, 1.)]
        if started:
            states = []
            for d, p in self.p.durations(a.task, a.mode):
                n = s.copy()
                n.tk[a.task].dur = d
                done = []
                if d == 0:
                    self._complete(n, a.task, n.t)
                    done = [a.task]
                for n2, p2 in self._conditions(n, done):
                    if done:
                        self._enable(n2)
                    states.append((n2, p * p2))
        if not a.tp:
            return states
        out = []
        for n, p in states:
            n = n.copy()
            done = []
            for i in sorted(n.ong):
                n.tk[i].elapsed += 1
                if n.tk[i].elapsed >= n.tk[i].dur:
                    done.append(i)
            for i in done:
                self._complete(n, i, n.t + 1)
            for i in n.ong:     # the level of a varying consumption for the next time unit
                k = n.tk[i]
                for r in self.p.res:
                    v = self.p.need(i, k.mode, r, k.active(n.t + 1))
                    n.used[r] += v - k.used.get(r, 0)
                    k.used[r] = v
            n.t += 1
            for n2, p2 in self._conditions(n, done):
                self._enable(n2)
                for r in n2.avail:
                    n2.avail[r] = self.p.cap(r, n2.t)
                out.append((n2, p * p2))
        return out

    def cost(self, a, s):
        """Expected transition cost, or None where the reference does not say."""
        obj = self.p.spec.get('obj', ['MAKESPAN'])
        c = 0.
        if 'MAKESPAN' in obj:
            c += 1. if a.tp else 0.
        if 'COST' in obj:
            if any(not self.p.renewable(r) for r in self.p.res) or self.p.spec.get('res_costs'):
                return None
            if a.kind == 'START':
                if not self.acceptable(s, a):
                    return None
                c += self.p.mode(a.task, a.mode).get('cost', 0.)
        return c


class Act:
    """kind, task, mode, time progress, units"""
    __slots__ = ('kind', 'task', 'mode', 'tp', 'units', 'mode_arg')

    def __init__(self, kind, task=None, mode=None, tp=False, units=None, mode_arg=True):
        self.kind, self.task, self.mode, self.tp, self.units = kind, task, mode, tp, units
        self.mode_arg = mode_arg

    def __repr__(self):
        return f'{self.kind}({self.task},{self.mode}{",tp" if self.tp else ""}' \
               f'{"," + "+".join(self.units) if self.units else ""})'


# ---------------------------------------------------------------------------------------------- real domain
_cache = {}


def build(prob):
    from skdecide import DiscreteDistribution
    import skdecide.builders.scheduling.scheduling_domains as sd
    from skdecide.builders.scheduling.precedence import WithoutPrecedence
    from skdecide.builders.scheduling.modes import SingleMode, MultiMode, ConstantModeConsumption, \
        VaryingModeConsumption
    from skdecide.builders.scheduling import task_duration as td, task_progress as tprog, resource_type as rt, \
        preallocations as pre, time_lag as tl, time_windows as tw, skills as sk, resource_availability as ra, \
        conditional_tasks as ct, resource_renewability as rr, resource_consumption as rc, preemptivity as pe, \
        resource_costs as co
    spec = prob.spec
    cal = any(d.get('cal') for d in spec['res'] + spec.get('units', []))
    units = bool(prob.units)
    single = all(prob.modes(i) == [1] for i in prob.tasks) and not spec.get('force_multi')
    varying = any(prob.varying(i, m) for i in prob.tasks for m in prob.modes(i))
    renew_only = all(d.get('renew', True) for d in spec['res'])
    costs = 'COST' in spec.get('obj', [])
    cls = spec.get('cls')
    dcls = spec.get('dur_cls', 'Univariate') if not cls else 'Univariate'
    uncertain = {'Univariate': td.UncertainUnivariateTaskDuration, 'Bounded': td.UncertainBoundedTaskDuration,
                 'Uniform': td.UniformBoundedTaskDuration, 'Enumerable': td.EnumerableTaskDuration,
                 'Multivariate': td.UncertainMultivariateTaskDuration}[dcls]
    no_prec = not cls and spec.get('seed', 0) % 2 and not any(prob.succ.values())
    if cls:
        bases = (getattr(sd, cls),)
    else:
        bases = [{'det': sd.DeterministicSchedulingDomain, 'unc': sd.UncertainSchedulingDomain,
                  'sim': sd.SchedulingDomain}[prob.kind],
                 WithoutPrecedence if no_prec else None,
                 SingleMode if single else MultiMode,
                 {'det': td.DeterministicTaskDuration, 'unc': uncertain, 'sim': None}[prob.kind],
                 tprog.DeterministicTaskProgress, pre.WithoutPreallocations, tl.WithoutTimeLag, tw.WithoutTimeWindow,
                 None if units else rt.WithoutResourceUnit, None if units else sk.WithoutResourceSkills,
                 ra.DeterministicResourceAvailabilityChanges if cal else ra.WithoutResourceAvailabilityChange,
                 None if prob.cond else ct.WithoutConditionalTasks,
                 None if varying else rc.ConstantResourceConsumption,
                 rr.RenewableOnly if renew_only else None,
                 None if prob.preempt else pe.WithoutPreemptivity,
                 None if costs else co.WithoutModeCosts, None if costs else co.WithoutResourceCosts]
        bases = tuple(b for b in bases if b is not None)

    def consumption(i, m):
        use = prob.mode(i, m)['use']
        if prob.varying(i, m):
            n = max(len(v) for v in use.values() if isinstance(v, list))
            return VaryingModeConsumption({r: list(v) if isinstance(v, list) else [v] * n for r, v in use.items()})
        return ConstantModeConsumption(dict(use))

    ns = {}
    ns['__init__'] = lambda self: self.initialize_domain()
    ns['_get_max_horizon'] = lambda self: prob.horizon
    ns['_get_objectives'] = lambda self: [getattr(sd.SchedulingObjectiveEnum, o) for o in spec.get('obj', ['MAKESPAN'])]
    if not no_prec:
        ns['_get_successors'] = lambda self: {i: list(v) for i, v in prob.succ.items()}
    ns['_get_tasks_ids'] = lambda self: set(prob.tasks) if spec.get('ids_set') else list(prob.tasks)
    ns['_get_resource_types_names'] = lambda self: list(prob.res)
    if issubclass(bases[0], SingleMode) or SingleMode in bases:
        ns['_get_tasks_mode'] = lambda self: {i: consumption(i, 1) for i in prob.tasks}
    else:
        ns['_get_tasks_modes'] = lambda self: {i: {m: consumption(i, m) for m in prob.modes(i)} for i in prob.tasks}
    if prob.kind == 'det':
        ns['_get_task_duration'] = lambda self, task, mode=1, progress_from=0.: prob.durations(task, mode)[0][0]
    elif prob.kind == 'unc' and dcls == 'Uniform':
        ns['_get_task_duration_lower_bound'] = lambda self, task, mode=1, progress_from=0.: \
            min(d for d, _ in prob.durations(task, mode))
        ns['_get_task_duration_upper_bound'] = lambda self, task, mode=1, progress_from=0.: \
            max(d for d, _ in prob.durations(task, mode))
    elif prob.kind == 'unc':
        ns['_get_task_duration_distribution'] = lambda self, task, mode=1, progress_from=0., \
            multivariate_settings=None: DiscreteDistribution(prob.durations(task, mode))
        if dcls == 'Bounded':
            ns['_get_task_duration_lower_bound'] = lambda self, task, mode=1, progress_from=0.: \
                min(d for d, _ in prob.durations(task, mode))
            ns['_get_task_duration_upper_bound'] = lambda self, task, mode=1, progress_from=0.: \
                max(d for d, _ in prob.durations(task, mode))
    else:
        ns['_sample_task_duration'] = lambda self, task, mode=1, progress_from=0.: \
            DiscreteDistribution(prob.durations(task, mode)).sample()
    ns['_get_original_quantity_resource'] = lambda self, resource, **kw: prob.cap(resource, 0)
    ns['_get_quantity_resource'] = lambda self, resource, time, **kw: prob.cap(resource, time)
    if not cal:
        del ns['_get_quantity_resource']
    if units:
        ns['_get_resource_units_names'] = lambda self: list(prob.units)
        ns['_get_resource_type_for_unit'] = lambda self: {}
        ns['_get_all_resources_skills'] = lambda self: {**{r: {} for r in prob.res},
                                                        **{u: dict(d.get('skills', {}))
                                                           for u, d in prob.units.items()}}
        ns['_get_all_tasks_skills'] = lambda self: {i: {m: dict(prob.mode(i, m).get('skills', {}))
                                                        for m in prob.modes(i)} for i in prob.tasks}
    if not renew_only or not any(issubclass(b, rr.RenewableOnly) for b in bases):
        ns['_get_resource_renewability'] = lambda self: {r: prob.renewable(r)
                                                         for r in list(prob.res) + list(prob.units)}
    if prob.preempt:
        ns['_get_task_preemptivity'] = lambda self: {i: bool(prob.preemptive(i)) for i in prob.tasks}
        ns['_get_task_resuming_type'] = lambda self: {i: getattr(pe.ResumeType, prob.resume_type(i))
                                                      for i in prob.tasks}
        ns['_get_task_paused_non_renewable_resource_returned'] = lambda self: {i: bool(prob.returned(i))
                                                                               for i in prob.tasks}
    if prob.cond:
        ns['_get_all_condition_items'] = lambda self: None
        ns['_get_task_existence_conditions'] = lambda self: {i: list(prob.exist(i)) for i in prob.tasks
                                                             if prob.exist(i) is not None}
        ns['_get_task_on_completion_added_conditions'] = lambda self: {
            i: [DiscreteDistribution([(c, p) for c, p in d]) for d in prob.compl(i)]
            for i in prob.tasks if prob.compl(i)}
    if costs:
        ns['_get_mode_costs'] = lambda self: {i: {m: prob.mode(i, m).get('cost', 0.) for m in prob.modes(i)}
                                              for i in prob.tasks}
        rcost = spec.get('res_costs') or {}
        ns['_get_resource_cost_per_time_unit'] = lambda self: {r: rcost.get(r, 0.)
                                                               for r in list(prob.res) + list(prob.units)}
    domain = type('SimScheduling', bases, ns)()
    if prob.inplace:
        domain.set_inplace_environment(True)
    return domain


def real_action(a):
    from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingAction, SchedulingActionEnum
    return SchedulingAction(task=a.task, action=getattr(SchedulingActionEnum, a.kind),
                            mode=a.mode if a.mode_arg else None, time_progress=a.tp,
                            resource_unit_names=list(a.units) if a.units else None)


def from_real(x):
    return Act(x.action.name, x.task, x.mode, bool(x.time_progress),
               sorted(x.resource_unit_names) if x.resource_unit_names else None)


def proj(state):
    nz = lambda d: tuple(sorted((r, v) for r, v in d.items() if v))
    ong = set(state.tasks_ongoing)
    td = state.tasks_details
    return {'t': state.t,
            'remaining': tuple(sorted(state.tasks_remaining)), 'ongoing': tuple(sorted(ong)),
            'complete': tuple(sorted(state.tasks_complete)), 'paused': tuple(sorted(state.tasks_paused)),
            'progress': dict(state.tasks_progress), 'mode': dict(state.tasks_mode),
            'used': nz(state.resource_used), 'avail': tuple(sorted(state.resource_availability.items())),
            'held': {i: nz(v) for i, v in state.resource_used_for_task.items()},
            'start': {i: k.start for i, k in td.items()}, 'end': {i: k.end for i, k in td.items()},
            'duration': {i: k.sampled_duration for i, k in td.items()},
            'pauses': {i: (tuple(k.paused), tuple(k.resumed)) for i, k in td.items()},
            'first': {i: nz(k.resources) for i, k in td.items()},
            'active': {i: k.get_task_active_time(state.t) for i, k in td.items()},
            'conditions': tuple(sorted(state._current_conditions))}


def same(f, a, b):
    if f == 'progress':
        return set(a) == set(b) and all(abs(a[i] - b[i]) < TOL for i in a)
    return a == b


def diff(a, b):
    """Fields in which two projections differ: {field: (a, b)}"""
    return {f: (a[f], b[f]) for f in a if not same(f, a[f], b[f])}


def key(p):
    out = []
    for f in sorted(p):
        v = p[f]
        if f == 'progress':
            v = tuple(sorted((i, round(float(x), 4)) for i, x in v.items()))
        elif isinstance(v, dict):
            v = tuple(sorted(v.items()))
        out.append(v)
    return repr(out)
