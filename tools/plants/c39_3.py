exec(open('/verif/tools/plants/_explore_base.py').read())
ID = 'c39-average-over-rollouts'
PROP = 'C39'
EDITS = [('skdecide/hub/solver/policy_evaluators/policy_evaluator.py', '''            summed_value[states[j]] += values_np[k]
            nb_visit_dict[states[j]] += 1
''', '''            summed_value[states[j]] += values_np[k]
            nb_visit_dict[states[j]] = rollout + 1
''')]
NEEDS = 'rollouts which do not meet a state, or meet it twice, before one which meets it'
BREAKS = 'estimates of states off the common way are too small, those of states met again too large'
DEMO = GRAPH + '''
class Fixed(DiscreteDistribution):
    def sample(self):
        return next(draws)
d = domain({0: {'a': {1: (.5, 1), 2: (.5, 1)}}, 2: {'a': {1: (1, 3)}}}, 1)
real = d._get_next_state_distribution
d._get_next_state_distribution = lambda memory, action: Fixed(real(memory, action).get_values())
draws = iter([1, 2, 1])
values = rollout_based_compute_expected_cost_for_policy(d, First(), 2)[0]
expect('values', {s: round(float(v), 9) for s, v in sorted(values.items())}, {0: 2.5, 2: 3.})
draws = iter([1, 1, 2, 1])
values = rollout_based_compute_expected_cost_for_policy(d, First(), 3)[0]
expect('values', {s: round(float(v), 9) for s, v in sorted(values.items())}, {0: 2., 2: 3.})
'''
