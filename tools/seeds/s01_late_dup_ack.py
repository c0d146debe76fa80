PROPERTY = 'C01'
NEEDS = 'a 200 OK repeated after the periodic cache rotation has run between the first copy and the repeat'
BREAKS = 'the repeated 200 is not acknowledged again once the retransmission cache has been rotated'
F = 'sippy/SipTransactionManager.py'
EDITS = [(F, '''        if retrans == None:
            retrans = self.l2rcache.get(checksum, None)
''', '''        if retrans == None and checksum in self.l2rcache:
            retrans = self.l2rcache[checksum]
            if data.startswith('SIP/2.0 ') and retrans.data != None:
                retrans = SipTMRetransmitO()
''')]
DEMO = '''
import sim, minisip, sys
from minisip import Msg
sim.std_setup()
from sippy.UA import UA
from sippy.CCEvents import CCEventTry
from sippy.MsgBody import MsgBody
sim.seed_tokens()
w = sim.World(); gc = {}
tm = sim.mk_stm(w, None, config=gc)
w.advance(20)
ua = UA(gc, lambda e, u: None, nh_address=('192.0.2.9', 5070))
ua.recvEvent(CCEventTry((None, 'alice', 'bob', MsgBody(minisip.sdp()), None, 'Alice')))
inv = Msg(w.sent[-1][1])
ok = minisip.response(inv, 200, 'OK', 'tt', contact='<sip:bob@192.0.2.50:5066>', body=minisip.sdp())
sim.deliver(w, tm, ok, ('192.0.2.9', 5070))
acks = lambda: [s[1] for s in w.sent if s[1].startswith('ACK ')]
assert len(acks()) == 1, acks()
w.advance(16)   # the cache rotates at 32 s
sim.deliver(w, tm, ok, ('192.0.2.9', 5070))
a = acks()
assert len(a) == 2 and a[0] == a[1], 'repeated 200 was not acknowledged again'
assert not w.errors, w.errors
'''
