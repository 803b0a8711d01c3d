FIN = '''
def finish(code):
    import os, multiprocess
    for c in multiprocess.active_children():
        c.kill()
    os._exit(code)

'''
ID = 'c03-exit-on-error-message'
PROP = 'C03'
EDITS = [('skdecide/domains.py', '''            try:
                if isinstance(job[0], str):  # job[0] is a domain class' method
                    r = getattr(domain, job[0])(*job[1])
                else:  # job[0] is a lambda function
                    r = lambdas[job[0]](domain, *job[1])
                job_results[i] = r
''', '''            try:
                if isinstance(job[0], str):  # job[0] is a domain class' method
                    r = getattr(domain, job[0])(*job[1])
                    job_results[i] = r
                else:  # job[0] is a lambda function
                    job_results[i] = lambdas[job[0]](domain, *job[1])
                r = None
'''), ('skdecide/domains.py', '''        job = conn.recv()
        job_results[i] = None
        if job is None:
''', '''        job = conn.recv()
        if job is None:
'''), ('skdecide/domains.py', '''        r = self._job_results[i]
        self._job_results[i] = None
        self._active_domains[i] = False
        return r
''', '''        r = self._job_results[i]
        self._active_domains[i] = False
        return r
''')]
NEEDS = 'a request that fails on a domain whose previous request succeeded (pipe transport)'
BREAKS = 'the result slot is never cleared (the caller and the worker each rely on the other), so a failed request ' \
         'returns the result of an earlier request'
DEMO = FIN + '''
import os, sys
from skdecide.domains import PipeParallelDomain


class Dom:
    def inv(self, x):
        return 1 / x


with PipeParallelDomain(Dom, nb_domains=2) as d:
    a = d.get_result(d.inv(4, i=1))
    b = d.get_result(d.inv(0, i=1))
    c = d.get_result(d.inv(2, i=1))
    print(a, b, c)
sys.stdout.flush()
finish(0 if (a, b, c) == (0.25, None, 0.5) else 1)
'''
