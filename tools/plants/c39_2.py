exec(open('/verif/tools/plants/_explore_base.py').read())
ID = 'c39-value-of-the-most-likely-successor'
PROP = 'C39'
EDITS = [('skdecide/hub/solver/policy_evaluators/policy_evaluator.py', '''            main_cost += prob * (val.cost + opt_val[succ])
''', '''            main_cost += prob * (val.cost + opt_val.get(succ, 0))
'''), ('skdecide/hub/solver/policy_evaluators/policy_evaluator.py', '''        if prob != 0 and succ not in opt_val:
            return False
    return True
''', '''        if prob >= 0.5 and succ not in opt_val:
            return False
    return True
''')]
NEEDS = 'a state with an unlikely successor whose value is not known yet, or never'
BREAKS = 'values of policies count unlikely successors as free'
DEMO = GRAPH + '''
d = domain({0: {'a': {1: (.6, 1), 2: (.4, 1)}}, 2: {'a': {3: (1, 1)}}, 3: {'a': {1: (1, 10)}}}, 1)
values, acts, preds, succs = compute_expected_cost_for_policy(d, First())
expect('values', {s: round(v, 9) for s, v in sorted(values.items())}, {0: 5.4, 1: 0, 2: 11, 3: 10})
'''
