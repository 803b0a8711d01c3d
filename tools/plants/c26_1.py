exec(open('/verif/tools/plants/_env_base.py').read())
ID = 'c26-no-cleanup-after-exception'
PROP = 'C26'
EDITS = [('skdecide/solvers.py', "        is a good habit to always call solvers within a 'with' statement.\n        \"\"\"\n        self._cleanup()\n",
 "        is a good habit to always call solvers within a 'with' statement.\n        \"\"\"\n        if type is None:\n            self._cleanup()\n")]
NEEDS = 'an exception which leaves the context of a solver'
BREAKS = 'the solver is not cleaned up when its context is left by an exception'
DEMO = ENV + '''
class S(Solver):
    T_domain = Domain
    log = []

    def _initialize(self):
        self.log.append('in')

    def _cleanup(self):
        self.log.append('out')


try:
    with S():
        raise KeyError
except KeyError:
    pass
expect('log', S.log, ['in', 'out'])
'''
