exec(open('/verif/tools/plants/_env_base.py').read())
ID = 'c18-disk-errors-swallowed'
PROP = 'C18'
EDITS = [('skdecide/utils.py', '''            except TypeError:
                logger.error("Observation is not serializable")
''', '''            except (TypeError, ValueError, OSError):
                logger.error("Observation is not serializable")
''')]
NEEDS = 'a disk that is full when the observations are written'
BREAKS = 'the rollout returns normally although its observations are lost'
DEMO = ENV + '''
import builtins, os, tempfile, shutil, errno
from skdecide.utils import rollout
class D(Domain, SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized,
        Markovian, FullyObservable, PositiveCosts):
    def _get_next_state(self, memory, action): return memory + 1
    def _get_transition_value(self, memory, action, next_state=None): return TransitionValue(cost=1)
    def _is_terminal(self, state): return False
    def _get_initial_state_(self): return 7
class S:
    def reset(self): pass
    def sample_action(self, o): return 0
real = open
def full(path, mode='r', *a, **kw):
    if 'observations' in str(path) and 'w' in mode:
        raise OSError(errno.ENOSPC, 'No space left on device')
    return real(path, mode, *a, **kw)
tmp = tempfile.mkdtemp()
builtins.open = full
try:
    try:
        rollout(D(), S(), max_steps=2, verbose=False, save_result_directory=os.path.join(tmp, 'out'))
        reported = False
    except OSError:
        reported = True
finally:
    builtins.open = real
    shutil.rmtree(tmp)
expect('disk error reported', reported, True)
'''
