FIN = '''
def finish(code):
    import os, multiprocess
    for c in multiprocess.active_children():
        c.kill()
    os._exit(code)

'''
ID = 'c07-null-result-not-notified'
PROP = 'C07'
EDITS = [('skdecide/domains.py', '''                            shm_proxy.encode(r, shm_arrays[(i * rsize) + k])
                if ipc_conn is not None:
                    pusher.send(b'0')  # send success
''', '''                            shm_proxy.encode(r, shm_arrays[(i * rsize) + k])
                    if ipc_conn is not None:
                        pusher.send(b'0')  # send success
''')]
NEEDS = 'shared memory with notifications, and a successful request whose result is None'
BREAKS = 'such a request is never notified, its consumer waits for ever'
DEMO = FIN + '''
import os, sys, tempfile, ctypes
import skdecide.domains
from pathos.helpers import mp
from skdecide.domains import ShmParallelDomain

log = os.path.join(tempfile.mkdtemp(), 'messages')
open(log, 'w').close()


class Push:
    def dial(self, addr):
        pass

    def send(self, data):
        with open(log, 'ab') as f:
            f.write(data.replace(b'\\n', b' ') + b'\\n')

    def close(self):
        pass


skdecide.domains.Push0 = Push


class Proxy:
    def copy(self):
        return Proxy()

    def register(self):
        return [(int, 2)]

    def initialize(self, t):
        return mp.Value('i', 0)

    def encode(self, v, m):
        m.value = v

    def decode(self, t, m):
        return m.value


class Dom:
    def nothing(self):
        return None

    def good(self):
        return 5


with ShmParallelDomain(Dom, Proxy(), nb_domains=1, ipc_notify=True) as d:
    a = d.get_result(d.nothing())
    b = d.get_result(d.good())
msgs = open(log, 'rb').read().splitlines()
print(a, b, msgs)
sys.stdout.flush()
finish(0 if a is None and b == 5 and msgs == [b'0', b'0'] else 1)
'''
