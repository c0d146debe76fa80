PROPERTY = 'C03'
NEEDS = 'cancel requested before any provisional response, and the first provisional response is a tagged one (180/183) instead of 100'
BREAKS = 'the deferred CANCEL is never sent when the first provisional response is not 100 Trying'
F = 'sippy/SipTransactionManager.py'
EDITS = [(F, '''                if t.state == TRYING:
                    t.state = RINGING
                    if t.cancelPending:
''', '''                if t.state == TRYING:
                    t.state = RINGING
                    if t.cancelPending and msg.getHFBody('to').getTag() == None:
''')]
DEMO = '''
import sim, minisip, sys
from minisip import Msg
sim.std_setup()
from sippy.UA import UA
from sippy.CCEvents import CCEventTry, CCEventDisconnect
from sippy.MsgBody import MsgBody
sim.seed_tokens()
w = sim.World(); gc = {}
tm = sim.mk_stm(w, None, config=gc)
ua = UA(gc, lambda e, u: None, nh_address=('192.0.2.9', 5070))
ua.recvEvent(CCEventTry((None, 'alice', 'bob', MsgBody(minisip.sdp()), None, 'Alice')))
inv = Msg(w.sent[-1][1])
ua.recvEvent(CCEventDisconnect())
assert not [s for s in w.sent if s[1].startswith('CANCEL')]
sim.deliver(w, tm, minisip.response(inv, 180, 'Ringing', 'tt'), ('192.0.2.9', 5070))
assert len([s for s in w.sent if s[1].startswith('CANCEL')]) == 1, 'no CANCEL after the first provisional response'
'''
