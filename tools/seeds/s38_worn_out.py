PROPERTY = 'C42'
NEEDS = 'a dozen commands, each on a connection the relay has closed after the previous answer'
BREAKS = 'the tries left are counted for the life of the worker and not per command: later commands are answered with nothing'
EDITS = [('sippy/Rtp_proxy/Client/Worker/external.py', '''    def send_raw(self, command, _recurse = 0, stime = None, ex = None):
        if _recurse > _MAX_RECURSE:
            raise Exception('Cannot reconnect: %s' % (str(self.userv.address),)) from ex
        _recurse += 1
        if self.s == None:
''', '''    def send_raw(self, command, _recurse = 0, stime = None, ex = None):
        if _recurse > 0:
            self.retries += 1
        if self.retries > _MAX_RECURSE:
            raise Exception('Cannot reconnect: %s' % (str(self.userv.address),)) from ex
        _recurse += 1
        if self.s == None:
'''), ('sippy/Rtp_proxy/Client/Worker/external.py', '''    userv = None
    s = None
''', '''    userv = None
    retries = 0
    s = None
''')]
HELPERS = ()
NOTE = 'only after the long runs of commands were added'
DEMO = '''
import socket, threading, tempfile, shutil, os, queue, sys
import sippy.Rtp_proxy.Client.Worker.external as wx
from sippy.Rtp_proxy.Client.stream import Rtp_proxy_client_stream
calls = queue.Queue()
class ED:
    def callFromThread(self, f, *a):
        calls.put((f, a))
wx.ED2 = ED()
d = tempfile.mkdtemp()
try:
    ls = socket.socket(socket.AF_UNIX)
    ls.bind(d + '/s')
    ls.listen(5)
    def relay():
        while True:
            c, _ = ls.accept()
            l = c.recv(1000)
            c.sendall(b'ans ' + l)
            c.close()
    threading.Thread(target = relay, daemon = True).start()
    c = Rtp_proxy_client_stream({}, address = d + '/s')
    got = []
    for i in range(20):
        c.send_command('G%d' % i, lambda r, ex = None: got.append(r))
        while len(got) <= i:
            f, a = calls.get(timeout = 10)
            f(*a)
finally:
    shutil.rmtree(d)
print(got)
sys.stdout.flush()
os._exit(0 if got == ['ans G%d' % i for i in range(20)] else 1)
'''
