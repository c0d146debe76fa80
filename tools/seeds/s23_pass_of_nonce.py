PROPERTY = 'C08'
NEEDS = 'a challenge that offers both qop values with auth-int first, to a request with a body'
BREAKS = 'the answer names auth-int but is computed without the body'
EDITS = [('sippy/UA.py', '''            if body is not None and qop == 'auth-int':
''', '''            if body is not None and challenge.qop == ['auth-int']:
''')]
DEMO = '''
import sim, minisip, re
from hashlib import md5
from minisip import Msg
sim.std_setup()
from sippy.UA import UA
from sippy.CCEvents import CCEventTry
from sippy.MsgBody import MsgBody
sim.seed_tokens()
h = lambda s: md5(s.encode()).hexdigest()
for qop in ('auth-int', 'auth', 'auth,auth-int', 'auth-int,auth'):
    w = sim.World(); gc = {}
    tm = sim.mk_stm(w, None, config=gc)
    peer = ('192.0.2.9', 5070)
    ua = UA(gc, lambda e, u: None, 'usr', 'pwd', nh_address=peer)
    ua.recvEvent(CCEventTry((None, 'alice', 'bob', MsgBody(minisip.sdp()), None, 'Alice')))
    inv = Msg(w.sent[-1][1])
    r = minisip.response(inv, 401, 'Unauthorized', 'tt')
    r = r.replace('\\r\\n', '\\r\\nWWW-Authenticate: Digest realm="r",nonce="n",algorithm=MD5,qop="%s"\\r\\n' % qop, 1)
    sim.deliver(w, tm, r, peer)
    inv = Msg(w.sent[-1][1])
    a = inv.get('authorization')
    assert a, w.sent[-1][1]
    p = dict(re.findall(r'(\\w+)="?([^",]*)"?', a))
    ha2 = 'INVITE:' + p['uri'] + (':' + h(inv.body) if p['qop'] == 'auth-int' else '')
    want = h('%s:n:%s:%s:%s:%s' % (h('usr:r:pwd'), p['nc'], p['cnonce'], p['qop'], h(ha2)))
    assert want == p['response'], (qop, a)
'''
NOTE = 'caught after strengthening (challenges in between)'
