FIN = '''
def finish(code):
    import os, multiprocess
    for c in multiprocess.active_children():
        c.kill()
    os._exit(code)

'''
ID = 'c02-answer-before-result-stored'
PROP = 'C02'
EDITS = [('skdecide/domains.py', '''                job_results[i] = r
                if ipc_conn is not None:
                    pusher.send(b'0')  # send success
                conn.send('0')  # send success
''', '''                if ipc_conn is not None:
                    pusher.send(b'0')  # send success
                conn.send('0')  # send success
                job_results[i] = r
''')]
NEEDS = 'a caller that reads the result slot between the success answer and the store of the result'
BREAKS = 'the worker announces success before the result is in the shared list: the caller may read None'
DEMO = FIN + '''
# The result takes a while to serialize: whoever is told "success" must still find it.
import os, sys, time
from skdecide.domains import PipeParallelDomain


def build(v):
    return v


class Slow:
    def __reduce__(self):
        time.sleep(1.5)
        return (build, (42,))


class Dom:
    def slow(self):
        return Slow()


with PipeParallelDomain(Dom, nb_domains=1) as d:
    r = d.get_result(d.slow())
    print(r)
sys.stdout.flush()
finish(0 if r == 42 else 1)
'''
