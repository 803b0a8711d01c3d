import importlib

MODULES = ['par_checks', 'sched_checks', 'env', 'roll', 'policy', 'cplan', 'solver', 'search', 'local', 'mcts', 'riw', 'moves', 'evolve', 'dosched', 'skills', 'classic', 'plans', 'gyms', 'explore', 'wrap', 'games', 'programs', 'files', 'compare']


def get(prop):
    for m in MODULES:
        c = importlib.import_module('harness.' + m).CHECKS
        if prop in c:
            return c[prop]
    raise SystemExit(f'unknown property {prop}')
