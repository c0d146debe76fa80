PROPERTY = 'C24'
NEEDS = 'an answer to a call in progress whose status code has two digits'
BREAKS = 'a status line that is not one is taken for a provisional answer: the call is no longer repeated and may be cancelled too early'
EDITS = [('sippy/SipTransactionManager.py', '''            if resp.getSCode()[0] < 100 or resp.getSCode()[0] > 999:
''', '''            if resp.getSCode()[0] < 10 or resp.getSCode()[0] > 999:
''')]
DEMO = '''
import sim, minisip
from minisip import Msg
sim.std_setup()
from sippy.UA import UA
from sippy.CCEvents import CCEventTry
from sippy.MsgBody import MsgBody
sim.seed_tokens()
w = sim.World(); gc = {}
tm = sim.mk_stm(w, None, config=gc)
peer = ('192.0.2.9', 5070)
ua = UA(gc, lambda e, u: None, nh_address=peer)
ua.recvEvent(CCEventTry((None, 'alice', 'bob', MsgBody(minisip.sdp()), None, 'Alice')))
inv = Msg(w.sent[-1][1])
sim.deliver(w, tm, minisip.response(inv, 99, 'Nonsense', None), peer)
w.advance(0.7)
n = [s for s in w.sent if s[1].startswith('INVITE ')]
assert len(n) == 2, 'repeated %d times' % (len(n) - 1)
assert not w.errors, w.errors
'''
