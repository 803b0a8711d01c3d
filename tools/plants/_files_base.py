exec(open('/verif/tools/plants/_moves_base.py').read())
SK = DO + 'rcpsp_multiskill/rcpsp_multiskill_parser.py'
FILES = MOVES + '''
with contextlib.redirect_stdout(io.StringIO()):
    import skdecide.utils
    from skdecide.builders.discrete_optimization.rcpsp_multiskill import rcpsp_multiskill_parser as p


def project(tasks):
    return p.parse_imopse('\\n'.join(['=' * 9, 'Tasks: %d' % len(tasks), 'Resources: 2', 'Number of skill types: 1', '=' * 9, 'ResourceID Salary Skills', '1 10.0 Q0: 1', '2 20.0 Q0: 2', '=' * 9,
                                     'TaskID Duration Skill Predecessor IDs'] + tasks + ['=' * 9]))
'''
