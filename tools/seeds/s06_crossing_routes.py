PROPERTY = 'C04'
NEEDS = 'a cancelled call whose 200 OK crosses the CANCEL and has come through two or more recording proxies'
BREAKS = 'the BYE that ends the crossed 200 lists the route in the wrong order'
EDITS = [('sippy/UacStateCancelling.py', '''            self.ua.routes.reverse()
''', ''), ]
DEMO = '''
import sim, minisip
from minisip import Msg
sim.std_setup()
from sippy.UA import UA
from sippy.CCEvents import CCEventTry, CCEventDisconnect
from sippy.MsgBody import MsgBody
sim.seed_tokens()
w = sim.World(); gc = {}
tm = sim.mk_stm(w, None, config=gc)
peer = ('192.0.2.9', 5070)
ua = UA(gc, lambda e, u: None, nh_address=peer)
ua.recvEvent(CCEventTry((None, 'alice', 'bob', MsgBody(minisip.sdp()), None, 'Alice')))
inv = Msg(w.sent[-1][1])
sim.deliver(w, tm, minisip.response(inv, 180, 'Ringing', 'fork1', contact='<sip:bob@192.0.2.50:5066>'), peer)
w.advance(1)
ua.recvEvent(CCEventDisconnect())
w.advance(0.1)
ok = minisip.response(inv, 200, 'OK', 'fork1', contact='<sip:bob@192.0.2.51:5067>', body=minisip.sdp())
ok = ok.replace('\\r\\n', '\\r\\nRecord-Route: <sip:192.0.2.21;lr>\\r\\nRecord-Route: <sip:192.0.2.20;lr>\\r\\n', 1)
sim.deliver(w, tm, ok, peer)
w.advance(0.1)
byes = [s for s in w.sent if s[1].startswith('BYE ')]
assert len(byes) == 1, w.sent
routes = [l for l in byes[0][1].split('\\r\\n') if l.lower().startswith('route:')]
assert '192.0.2.20' in routes[0], routes
assert not w.errors, w.errors
'''
