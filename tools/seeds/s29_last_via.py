PROPERTY = 'C19'
NEEDS = 'a request that has come through a proxy before'
BREAKS = 'the proxy puts its own Via below those of the proxies before it'
EDITS = [('sippy/StatefulProxy.py', '''        via1 = req.getHF('via')
''', '''        via1 = req.getHFs('via')[-1]
''')]
DEMO = '''
import sim, minisip
from minisip import Msg
sim.std_setup()
from sippy.StatefulProxy import StatefulProxy
sim.seed_tokens()
w = sim.World(); gc = {}
tm = sim.mk_stm(w, None, config=gc)
gc['_sip_tm'] = tm
px = StatefulProxy(gc, ('192.0.2.8', 5060))
tm.req_cb = lambda req, t: px.recvRequest(req)
r = ('REGISTER sip:example.com SIP/2.0\\r\\nVia: SIP/2.0/UDP 192.0.2.1:5060;branch=z9hG4bKa\\r\\nVia: SIP/2.0/UDP 192.0.2.9:5060;branch=z9hG4bKb\\r\\n'
     'Max-Forwards: 5\\r\\nFrom: <sip:a@example.com>;tag=1\\r\\n'
     'To: <sip:a@example.com>\\r\\nCall-ID: c1\\r\\nCSeq: 1 REGISTER\\r\\n'
     'Contact: <sip:a@192.0.2.1>\\r\\nContent-Length: 0\\r\\n\\r\\n')
sim.deliver(w, tm, r, ('192.0.2.1', 5060))
m = [Msg(s[1]) for s in w.sent if s[1].startswith('REGISTER')][0]
v = m.all('via')
assert len(v) == 3 and '192.0.2.1' in v[1] and '192.0.2.9' in v[2], v
'''
