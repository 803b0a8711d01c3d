exec(open('/verif/tools/plants/_moves_base.py').read())
MS = DO + 'rcpsp_multiskill/'
SKILLS = MOVES + '''
with contextlib.redirect_stdout(io.StringIO()):
    from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill import *


def person(skills, calendar=None):
    return Employee({s: SkillDetail(v, 0, 0) for s, v in skills.items()}, list(calendar or [True] * 60))


def project(modes, people, succ=None, skills=('A', 'B'), ren=None, non=None, **kw):
    n = len(modes)
    res = {**(ren or {}), **(non or {})}
    zero = {1: {'duration': 0, **{r: 0 for r in res}}}
    return MS_RCPSPModel_Variant(skills_set=set(skills), resources_set=set(res), non_renewable_resources=set(non or ()),
        resources_availability={r: [c] * 61 for r, c in res.items()}, employees=people, employees_availability=[len(people)] * 60,
        mode_details={1: zero, **{i + 2: m for i, m in enumerate(modes)}, n + 2: zero},
        successors={1: list(range(2, n + 3)), **{t: [n + 2] for t in range(2, n + 2)}, n + 2: [], **(succ or {})}, horizon=50, horizon_multiplier=1, **kw)


def solution(p, perm, modes=None, workers=None):
    n = p.n_jobs_non_dummy
    return MS_RCPSPSolution_Variant(problem=p, priority_list_task=perm, modes_vector=modes or [1] * n,
                                    priority_worker_per_task=workers or [list(p.employees)] * n)


def starts(s):
    return [s.schedule[t]['start_time'] for t in sorted(s.schedule)]


def verdict(p, s):
    with contextlib.redirect_stdout(io.StringIO()):
        return bool(p.satisfy(s))
'''
