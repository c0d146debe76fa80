PROPERTY = 'C09'
NEEDS = 'a session change refused by the peer and then asked for once more'
BREAKS = 'the repeated change is reported as accepted without ever being sent to the peer'
EDITS = [('sippy/UacStateUpdating.py', '''            self.ua.lSDP = None
            event = CCEventFail''', '''            event = CCEventFail''')]
DEMO = '''
import sim, minisip
from minisip import Msg
sim.std_setup()
from sippy.UA import UA
from sippy.CCEvents import CCEventTry, CCEventUpdate, CCEventConnect, CCEventFail
from sippy.MsgBody import MsgBody
sim.seed_tokens()
w = sim.World(); gc = {}
tm = sim.mk_stm(w, None, config=gc)
peer = ('192.0.2.9', 5070)
evs = []
ua = UA(gc, lambda e, u: evs.append(e), nh_address=peer)
ua.recvEvent(CCEventTry((None, 'alice', 'bob', MsgBody(minisip.sdp()), None, 'Alice')))
inv = Msg(w.sent[-1][1])
sim.deliver(w, tm, minisip.response(inv, 200, 'OK', 'tt', contact='<sip:bob@192.0.2.50:5066>', body=minisip.sdp()), peer)
w.advance(1)
offer = minisip.sdp().replace('m=audio ', 'm=audio 1')
for n in (1, 2):
    del evs[:]
    ua.recvEvent(CCEventUpdate(MsgBody(offer)))
    w.advance(0.1)
    re = [Msg(s[1]) for s in w.sent if s[1].startswith('INVITE ')]
    assert len(re) == 1 + n, 'offer %d was not sent' % n
    sim.deliver(w, tm, minisip.response(re[-1], 488, 'Not Acceptable Here', 'tt'), peer)
    w.advance(1)
    assert [type(e) for e in evs] == [CCEventFail], evs
assert not w.errors, w.errors
'''
