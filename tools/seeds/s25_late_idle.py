PROPERTY = 'C06'
NEEDS = 'a CANCEL crossed by the 200 OK, and five more minutes'
BREAKS = 'the timer of the cancelled leg stays armed and ends the leg for a second time long after it was released'
EDITS = [('sippy/UacStateCancelling.py', '''        if self.te != None:
            self.te.cancel()
            self.te = None
        # When the final response arrives make sure to send BYE
''', '''        if self.te != None and code >= 300:
            self.te.cancel()
            self.te = None
        # When the final response arrives make sure to send BYE
''')]
DEMO = '''
import sim, minisip
from minisip import Msg
sim.std_setup()
from sippy.UA import UA
from sippy.CCEvents import CCEventTry, CCEventDisconnect
from sippy.MsgBody import MsgBody
sim.seed_tokens()
w = sim.World(); gc = {}
tm = sim.mk_stm(w, None, config=gc)
peer = ('192.0.2.9', 5070)
dead = []
ua = UA(gc, lambda e, u: None, nh_address=peer, dead_cbs=(lambda u: dead.append(1),))
ua.recvEvent(CCEventTry((None, 'alice', 'bob', MsgBody(minisip.sdp()), None, 'Alice')))
inv = Msg(w.sent[-1][1])
sim.deliver(w, tm, minisip.response(inv, 180, 'Ringing', 'tt', contact='<sip:bob@192.0.2.50:5066>'), peer)
ua.recvEvent(CCEventDisconnect())
sim.deliver(w, tm, minisip.response(inv, 200, 'OK', 'tt', contact='<sip:bob@192.0.2.50:5066>', body=minisip.sdp()), peer)
bye = [Msg(s[1]) for s in w.sent if s[1].startswith('BYE ')][0]
sim.deliver(w, tm, minisip.response(bye, 200, 'OK', 'tt'), peer)
w.advance(50)
assert dead == [1], dead
assert not [t for t in w.timers if 'goIdle' in t.name]
w.advance(400)
assert not w.errors, w.errors
assert dead == [1], dead
'''
