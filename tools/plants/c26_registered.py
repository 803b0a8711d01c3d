exec(open('/verif/tools/plants/_env_base.py').read())
ID = 'c26-registered-load-import-errors'
PROP = 'C26'
EDITS = [('skdecide/utils.py', "    except Exception as e:\n        logger.warning(rf'/!\\ {entry_name} could not be loaded ({e}).')",
 "    except (ImportError, AttributeError) as e:\n        logger.warning(rf'/!\\ {entry_name} could not be loaded ({e}).')")]
NEEDS = 'a registered class whose module raises something else than an import error when loaded'
BREAKS = 'one solver which cannot be loaded makes matching fail for all the others'
DEMO = ENV + '''
import skdecide.utils as U


class E:
    def __init__(self, name, what):
        self.name, self.what = name, what

    def load(self):
        if isinstance(self.what, BaseException):
            raise self.what
        return self.what


class S(Solver):
    T_domain = Domain

    @classmethod
    def check_domain(cls, domain):
        return True


U.iter_entry_points = lambda group: iter([E('a', ImportError('x')), E('b', OSError('no library')), E('c', S)])
expect('match', U.match_solvers(None), [S])
'''
