exec(open('/verif/tools/plants/_skills_base.py').read())
ID = 'c35-one-person-has-any-skill'
PROP = 'C35'
EDITS = [(MS + 'rcpsp_multiskill.py', "                           if any(s not in problem.employees[worker].dict_skill for s in required_skills) or \\\n                                   any(problem.employees[worker].dict_skill[s].skill_value<required_skills[s]\n                                       for s in required_skills):", "                           if any(s not in problem.employees[worker].dict_skill for s in required_skills) or \\\n                                   all(problem.employees[worker].dict_skill[s].skill_value<required_skills[s]\n                                       for s in required_skills):")]
NEEDS = 'a project with one person per task at most, a task which needs two skills, and somebody with both but not enough of one'
BREAKS = 'a task is done by people who have not enough of a skill, or by more than one'
DEMO = SKILLS + '''
p = project([{1: {'duration': 3, 'A': 2, 'B': 1}}, {1: {'duration': 2, 'A': 2}}], {'x': person({'A': 1, 'B': 1}), 'y': person({'A': 2, 'B': 1})}, one_unit_per_task_max=True)
s = solution(p, [1, 0])
expect('starts', starts(s), [0, 2, 0, 5])
expect('people', {t: sorted(u) for t, u in s.employee_usage.items()}, {3: ['y'], 2: ['y']})
'''
