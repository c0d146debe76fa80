PROPERTY = 'C44'
NEEDS = 'a hundred spurious empty reads during the life of a server, with datagrams in between'
BREAKS = 'empty reads are counted for the life of the receiving thread: it ends and nothing is received any more'
EDITS = [('sippy/Udp_server.py', '''        maxemptydata = 100
        while True:
            try:
                data, address = self.userv.skt.recvfrom(8192)
''', '''        maxemptydata = 100
        while maxemptydata > 0:
            try:
                data, address = self.userv.skt.recvfrom(8192)
'''), ('sippy/Udp_server.py', '''                    if maxemptydata == 0:
                        break
                    continue
                else:
                    maxemptydata = 100
''', '''                    continue
''')]
HELPERS = ()
DEMO = '''
import os, sys, threading
import sippy.Udp_server as us
got = []
class S:
    n = 0
    def recvfrom(self, n):
        self.n += 1
        if self.n == 300:
            return b'', ('x', 1)
        if self.n > 300:
            return b'', None
        return (b'', None) if self.n % 50 else (b'd%d' % self.n, ('192.0.2.1', 5))
class O:
    family = us.socket.AF_INET
    direct_dispatch = True
class U:
    skt, uopts, transport = S(), O(), 'udp'
    def handle_read(self, data, address, rtime):
        if data:
            got.append(data)
r = us.AsyncReceiver(U())
r.join(20)
print(got, r.is_alive())
sys.stdout.flush()
os._exit(0 if len(got) == 5 and not r.is_alive() else 1)
'''
