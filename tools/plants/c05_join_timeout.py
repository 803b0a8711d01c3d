FIN = '''
def finish(code):
    import os, multiprocess
    for c in multiprocess.active_children():
        c.kill()
    os._exit(code)

'''
ID = 'c05-join-timeout'
PROP = 'C05'
EDITS = [('skdecide/domains.py', '''                pass  # the process is already dead
            self._processes[i].join()
            self._processes[i].close()
''', '''                pass  # the process is already dead
            self._processes[i].join(5)
            if not self._processes[i].is_alive():
                self._processes[i].close()
''')]
NEEDS = 'a domain that is still serving a long request when the parallel domain is closed'
BREAKS = 'close returns while a worker is still running'
DEMO = FIN + '''
import os, sys, time
from pathos.helpers import mp
from skdecide.domains import PipeParallelDomain


class Dom:
    def long(self):
        time.sleep(9)
        return 1


d = PipeParallelDomain(Dom, nb_domains=2)
with d:
    procs = list(d._processes or [])
    pids = [p.pid for p in procs]
    d.long(i=1)
alive = []
for pid in pids:
    try:
        os.kill(pid, 0)
        alive.append(pid)
    except ProcessLookupError:
        pass
print('alive after close', alive)
sys.stdout.flush()
finish(1 if alive else 0)
'''
