SCHED = '''
import os, sys, random, logging
sys.path.insert(0, os.getcwd())
logging.disable(logging.CRITICAL)
from skdecide import DiscreteDistribution
import skdecide.builders.scheduling.scheduling_domains as sd
from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingAction, SchedulingActionEnum, State
from skdecide.builders.scheduling.modes import SingleMode, MultiMode, ConstantModeConsumption, VaryingModeConsumption
from skdecide.builders.scheduling import (task_duration as td, task_progress as tprog, resource_type as rt,
    preallocations as pre, time_lag as tl, time_windows as tw, skills as sk, resource_availability as ra,
    conditional_tasks as ct, resource_renewability as rr, resource_consumption as rc, preemptivity as pe,
    resource_costs as co)


def make(kind='det', tasks=(1, 2), succ=None, modes=None, dur=None, res=None, cal=None, renew=None, preempt=None,
         resume=None, returned=None, exist=None, compl=None, horizon=60):
    """modes: {task: {mode: {res: need}}}, dur: {(task, mode): [(d, p)]}, cal: f(res, t)"""
    res = res or {'r': 2}
    modes = modes or {i: {1: {'r': 1}} for i in tasks}
    base = {'det': sd.DeterministicSchedulingDomain, 'unc': sd.UncertainSchedulingDomain}[kind]
    bases = [base, MultiMode, td.DeterministicTaskDuration if kind == 'det' else td.UncertainUnivariateTaskDuration,
             tprog.DeterministicTaskProgress, pre.WithoutPreallocations, tl.WithoutTimeLag, tw.WithoutTimeWindow,
             rt.WithoutResourceUnit, sk.WithoutResourceSkills,
             ra.DeterministicResourceAvailabilityChanges if cal else ra.WithoutResourceAvailabilityChange,
             None if compl or exist else ct.WithoutConditionalTasks, rc.ConstantResourceConsumption,
             None if preempt else pe.WithoutPreemptivity, co.WithoutModeCosts, co.WithoutResourceCosts]
    ns = {}
    ns['__init__'] = lambda self: self.initialize_domain()
    ns['_get_max_horizon'] = lambda self: horizon
    ns['_get_objectives'] = lambda self: [sd.SchedulingObjectiveEnum.MAKESPAN]
    ns['_get_successors'] = lambda self: succ or {i: [] for i in tasks}
    ns['_get_tasks_ids'] = lambda self: list(tasks)
    ns['_get_resource_types_names'] = lambda self: list(res)
    ns['_get_tasks_modes'] = lambda self: {i: {m: ConstantModeConsumption(dict(u)) for m, u in modes[i].items()}
                                           for i in tasks}
    ns['_get_task_duration'] = lambda self, task, mode=1, progress_from=0.: dur[task, mode][0][0]
    ns['_get_task_duration_distribution'] = lambda self, task, mode=1, progress_from=0., multivariate_settings=None: \\
        DiscreteDistribution(dur[task, mode])
    ns['_get_original_quantity_resource'] = lambda self, resource, **kw: res[resource]
    if cal:
        ns['_get_quantity_resource'] = lambda self, resource, time, **kw: cal(resource, time)
    ns['_get_resource_renewability'] = lambda self: {r: (renew or {}).get(r, True) for r in res}
    if preempt:
        ns['_get_task_preemptivity'] = lambda self: {i: preempt.get(i, False) for i in tasks}
        ns['_get_task_resuming_type'] = lambda self: {i: getattr(pe.ResumeType, (resume or {}).get(i, 'Resume'))
                                                      for i in tasks}
        ns['_get_task_paused_non_renewable_resource_returned'] = lambda self: {i: (returned or {}).get(i, False)
                                                                               for i in tasks}
    if compl or exist:
        ns['_get_all_condition_items'] = lambda self: None
        ns['_get_task_existence_conditions'] = lambda self: dict(exist or {})
        ns['_get_task_on_completion_added_conditions'] = lambda self: {
            i: [DiscreteDistribution(d) for d in ds] for i, ds in (compl or {}).items()}
    return type('Tiny', tuple(b for b in bases if b), ns)()


A = SchedulingActionEnum


def start(t, m=1):
    return SchedulingAction(task=t, action=A.START, mode=m, time_progress=False)


def pause(t):
    return SchedulingAction(task=t, action=A.PAUSE, mode=None, time_progress=False)


def resume(t, m=1):
    return SchedulingAction(task=t, action=A.RESUME, mode=m, time_progress=False)


def tick():
    return SchedulingAction(task=None, action=A.TIME_PR, mode=None, time_progress=True)


def expect(name, got, want):
    if got != want:
        print('FAILED', name, 'got', got, 'expected', want)
        sys.exit(1)
'''
SD = 'skdecide/builders/scheduling/scheduling_domains.py'
