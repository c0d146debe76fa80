PROPERTY = 'C07'
NEEDS = 'the credit timer restarted within the call (new limits set by the owner, a late answer)'
BREAKS = 'the credit counts again from the restart, so the call may last longer than allowed'
EDITS = [('sippy/UA.py', '''            self.credit_times[0] = rtime.getOffsetCopy(self.credit_time)
            self.credit_time = None
''', '''            self.credit_times[0] = rtime.getOffsetCopy(self.credit_time)
''')]
DEMO = '''
import sim, minisip
from minisip import Msg
sim.std_setup()
from sippy.UA import UA
from sippy.CCEvents import CCEventTry
from sippy.MsgBody import MsgBody
from sippy.Time.MonoTime import MonoTime
sim.seed_tokens()
w = sim.World(); gc = {}
tm = sim.mk_stm(w, None, config=gc)
peer = ('192.0.2.9', 5070)
ua = UA(gc, lambda e, u: None, nh_address=peer, credit_time=10)
ua.recvEvent(CCEventTry((None, 'alice', 'bob', MsgBody(minisip.sdp()), None, 'Alice')))
inv = Msg(w.sent[-1][1])
sim.deliver(w, tm, minisip.response(inv, 200, 'OK', 'tt', contact='<sip:bob@192.0.2.50:5066>', body=minisip.sdp()), peer)
w.advance(6)
ua.resetCreditTime(MonoTime(), {1: MonoTime().getOffsetCopy(60)})
w.advance(3.9)
assert not [s for s in w.sent if s[1].startswith('BYE ')]
w.advance(0.3)
assert [s for s in w.sent if s[1].startswith('BYE ')], 'still up after the credit has run out'
'''
