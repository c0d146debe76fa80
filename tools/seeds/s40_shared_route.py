PROPERTY = 'C04'
NEEDS = 'a call received through a recording (loose) proxy by an agent with an outbound proxy, then a request inside the dialog'
BREAKS = 'the first route loses its lr parameter, so the outbound proxy takes that proxy for a strict one and rewrites the request'
EDITS = [('sippy/UasStateIdle.py', '''                self.ua.rTarget = self.ua.routes[0].getUrl().getCopy()
''', '''                self.ua.rTarget = self.ua.routes[0].getUrl()
''')]
DEMO = '''
import sim, minisip
from minisip import Msg
sim.std_setup()
from sippy.UA import UA
from sippy.CCEvents import CCEventConnect, CCEventDisconnect
from sippy.MsgBody import MsgBody
sim.seed_tokens()
w = sim.World(); gc = {}
uas = []
def req_cb(req, t):
    if req.getHFBody('to').getTag() is not None:
        return None
    ua = UA(gc, lambda e, u: None)
    ua.outbound_proxy = ('192.0.2.240', 5095)
    uas.append(ua)
    return ua.recvRequest(req, t)
tm = sim.mk_stm(w, req_cb, config=gc)
peer = ('192.0.2.9', 5070)
inv = minisip.request('INVITE', 'sip:bob@10.0.0.1', '<sip:alice@x.example>;tag=a', '<sip:bob@x.example>', 'c1', 1, '192.0.2.9:5070', 'z9hG4bKx',
                      contact='<sip:alice@192.0.2.50:5066>', body=minisip.sdp())
inv = inv.replace('\\r\\n', '\\r\\nRecord-Route: <sip:192.0.2.21;lr>\\r\\nRecord-Route: <sip:192.0.2.20;lr>\\r\\n', 1)
sim.deliver(w, tm, inv, peer)
uas[0].recvEvent(CCEventConnect((200, 'OK', MsgBody(minisip.sdp()))))
ok = Msg([s for s in w.sent if s[1].startswith('SIP/2.0 200')][0][1])
ack = minisip.request('ACK', 'sip:bob@10.0.0.1', '<sip:alice@x.example>;tag=a', ok.get('to'), 'c1', 1, '192.0.2.9:5070', 'z9hG4bKy')
sim.deliver(w, tm, ack, peer)
w.advance(0.1)
uas[0].recvEvent(CCEventDisconnect())
w.advance(0.1)
b = [s for s in w.sent if s[1].startswith('BYE ')]
assert b and b[0][2] == ('192.0.2.240', 5095), w.sent
routes = [x for r in Msg(b[0][1]).all('route') for x in r.split(',')]
print(b[0][1])
assert '192.0.2.50' in Msg(b[0][1]).ruri or '192.0.2.50' in routes[-1], routes
for r in routes:
    assert '192.0.2.50' in r or ';lr' in r, routes
assert not w.errors, w.errors
'''
