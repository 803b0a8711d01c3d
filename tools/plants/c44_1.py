exec(open('/verif/tools/plants/_compare_base.py').read())
ID = 'c44-solutions-as-they-come'
PROP = 'C44'
EDITS = [(RT, '''        l = p.map(solve_models_function,
                  models)
''', '''        l = list(p.imap_unordered(solve_models_function, models))
''')]
NEEDS = 'workers which finish in another order than they started'
BREAKS = 'results are shown for another model than the one they were found on'
DEMO = ROBUST.replace("    return ResultStorage([], best", "    return ResultStorage([], best") + '''
a, b = project(5, 2), project(2, 5)
test = project(4, 3)
test.mode_details[2][1]['R'] = 2
seen = []


class Watched(SingleModeRCPSPModel):
    def evaluate(self, s):
        seen.append(list(s.rcpsp_permutation))
        return super().evaluate(s)


test.__class__ = Watched
with contextlib.redirect_stdout(io.StringIO()):
    RobustnessTool(a, [a, b, test], [a, b], [test]).solve_and_retrieve(solve)
expect('evaluated', seen, [[0, 1]] * 4 + [[1, 0]] * 5)
'''
