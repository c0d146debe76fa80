PROPERTY = 'C32'
NEEDS = 'a worker that finishes its request and takes the next one between the wake-up of another worker and its getting of the lock'
BREAKS = 'the worker woken up finds the queue empty, dies with the lock held, and nothing is ever answered again'
EDITS = [('sippy/External_command.py', '''            while len(self.master.work) == 0:
                self.master.work_available.wait()
''', '''            if len(self.master.work) == 0:
                self.master.work_available.wait()
''')]
DEMO = '''
import sys, os, threading, time
os.dup2(os.open('/dev/null', os.O_WRONLY), 2)
from sippy.External_command import External_command, Work_item
from sippy.Core.EventDispatcher import ED2
from sippy.Time.Timeout import Timeout
ec = External_command(('/bin/cat',), 4)
want = 400
got = []
def done(res, n):
    got.append(n)
    if len(got) == want:
        ED2.breakLoop(1)
time.sleep(0.3)
def feed():
    # With the lock held for a moment both the sleeping and the finishing worker go for it
    for i in range(want // 4):
        for k in range(4):
            ec.process_command(('x',), done, i * 4 + k)
        time.sleep(0.002)
        ec.work_available.acquire()
        time.sleep(0.001)
        ec.work_available.release()
t = threading.Thread(target=feed, daemon=True); t.start()
Timeout(ED2.breakLoop, 20.0)
ED2.loop()
if sorted(got) != list(range(want)):
    os.write(1, ('answered %d of %d\\n' % (len(got), want)).encode())
    os._exit(1)
os._exit(0)
'''
HELPERS = ()
