PROPERTY = 'C28'
NEEDS = 'a relay answer slower than the retransmission interval, so that both the first copy and its repeat get answered'
BREAKS = 'the command is answered to its sender twice, once for the first copy and once for the repeat'
F = 'sippy/Rtp_proxy/Client/udp.py'
EDITS = [(F, '''        preq.retransmits += 1
        preq.next_retr *= 2
        preq.timer = Timeout(self.retransmit, preq.next_retr, 1, cookie)
''', '''        preq.retransmits += 1
        preq.next_retr *= 2
        # A cookie of its own for each copy, to know which one has been replied
        cookie = token_hex(16)
        self.pending_requests[cookie] = preq
        preq.command = '%s %s' % (cookie, preq.command.split(' ', 1)[1])
        preq.timer = Timeout(self.retransmit, preq.next_retr, 1, cookie)
''')]
DEMO = '''
import sim
sim.std_setup()
import sippy.Rtp_proxy.Client.udp as rudp
sent = []
class FakeServer:
    def __init__(self, gc, uopts): pass
    def send_to(self, data, address): sent.append(data)
    def shutdown(self): pass
rudp.Udp_server = FakeServer
Rtp_proxy_client_udp = rudp.Rtp_proxy_client_udp
from sippy.Time.MonoTime import MonoTime
w = sim.World()
c = Rtp_proxy_client_udp({}, ('192.0.2.8', 22222))
got = []
c.send_command('D call-1 a b', lambda r, n: got.append((r, n)), 7)
w.advance(1.2)
assert len(sent) >= 2, sent
w.advance(0.1)
for s in sent:
    c.process_reply((s.split()[0] + ' 0\\n').encode(), ('192.0.2.8', 22222), c.worker, MonoTime())
w.advance(30)
assert got == [('0', 7)], got
assert not c.pending_requests
'''
