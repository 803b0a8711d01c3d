exec(open('/verif/tools/plants/_env_base.py').read())
ID = 'c18-steps-of-the-previous-episode'
PROP = 'C18'
EDITS = [('skdecide/utils.py', '''        if save_result_directory is not None:
            observations = dict()
            transitions = dict()
            actions = dict()
            # save the initial observation
''', '''        if save_result_directory is not None:
            if i_episode == 0:
                observations = dict()
                transitions = dict()
                actions = dict()
            # save the initial observation
''')]
NEEDS = 'a saved rollout of several episodes, a later one shorter than an earlier one'
BREAKS = 'the files of the shorter episode hold the last steps of the longer one'
DEMO = ENV + '''
import json, os, tempfile, shutil
from skdecide.utils import rollout
class D(Domain, SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized,
        Markovian, FullyObservable, PositiveCosts):
    last = 6
    def _get_next_state(self, memory, action): return memory + 1
    def _get_transition_value(self, memory, action, next_state=None): return TransitionValue(cost=1)
    def _is_terminal(self, state):
        if state == self.last:
            self.last -= 2
            return True
        return False
    def _get_initial_state_(self): return 0
class S:
    def reset(self): pass
    def sample_action(self, o): return 0
tmp = tempfile.mkdtemp()
try:
    rollout(D(), S(), num_episodes=2, verbose=False, save_result_directory=os.path.join(tmp, 'out'))
    got = sorted(len(json.load(open(os.path.join(tmp, 'out', d, 'actions.json'))))
                 for d in os.listdir(os.path.join(tmp, 'out')))
finally:
    shutil.rmtree(tmp)
expect('actions per episode', got, [4, 6])
'''
