PROPERTY = 'C43'
NEEDS = 'a call sent from a local address other than the one facing its destination (source_address), cancelled before the first provisional answer'
BREAKS = 'the CANCEL held back until the provisional answer leaves by another socket and shows another address than the INVITE'
EDITS = [('sippy/SipTransactionManager.py', '''                        self.newTransaction(t.cancel, userv = t.userv)
''', '''                        self.newTransaction(t.cancel)
''')]
DEMO = '''
import sim, minisip, socket
from minisip import Msg
stm = sim.std_setup()
from sippy.SipConf import SipConf
from sippy.UA import UA
from sippy.CCEvents import CCEventTry, CCEventDisconnect
from sippy.MsgBody import MsgBody
sim.seed_tokens()
class Srv(sim.FakeUdp):
    def __init__(self, gc, o):
        sim.FakeUdp.__init__(self, gc, o)
        self.la = o.laddress
    def getSIPaddr(self):
        return (self.la, 'udp')
class Probe:
    def __init__(self, *a): pass
    def connect(self, a): pass
    def getsockname(self): return ('10.1.0.1', 1)
class Sock:
    socket = Probe
    has_ipv6 = False
    def __getattr__(self, n): return getattr(socket, n)
    def getaddrinfo(self, h, p, f=0, *a): return [(socket.AF_INET, 1, 6, '', (h, p))]
stm.socket = Sock()
stm.SipTransactionManager.model_udp_server = (Srv, sim.FakeOpts)
w = sim.World()
gc = {'_sip_address': SipConf.my_address, '_sip_port': 5060, '_sip_logger': sim.NullLogger()}
tm = gc['_sip_tm'] = stm.SipTransactionManager(gc, None)
peer = ('192.0.2.9', 5070)
ua = UA(gc, lambda e, u: None, nh_address=peer)
ua.source_address = ('10.2.0.1', 5060)
ua.recvEvent(CCEventTry((None, 'alice', 'bob', MsgBody(minisip.sdp()), None, 'Alice')))
inv = Msg(w.sent[-1][1])
assert w.sent[-1][3].la == ('10.2.0.1', 5060), w.sent
ua.recvEvent(CCEventDisconnect())
sim.deliver(w, tm, minisip.response(inv, 180, 'Ringing', 'f', contact='<sip:bob@192.0.2.50:5066>'), peer, srv=w.sent[-1][3])
w.advance(0.1)
c = [s for s in w.sent if s[1].startswith('CANCEL ')]
assert len(c) >= 1, w.sent
assert c[0][3].la == ('10.2.0.1', 5060) and '10.2.0.1' in Msg(c[0][1]).get('via'), (c[0][3].la, c[0][1])
assert not w.errors, w.errors
'''
