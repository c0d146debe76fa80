PROPERTY = 'C20'
NEEDS = 'three challenged attempts in a row refused, then a registrar that is back in order'
BREAKS = 'the agent never answers a challenge again after it has once run out of attempts'
EDITS = [('sippy/SipRegistrationAgent.py', '''        Timeout(self.doregister, 60)
        self.atries = 0''', '''        Timeout(self.doregister, 60)''')]
DEMO = '''
import sim, minisip
from minisip import Msg
sim.std_setup()
from sippy.SipRegistrationAgent import SipRegistrationAgent
from sippy.SipURL import SipURL
sim.seed_tokens()
w = sim.World(); gc = {}
tm = sim.mk_stm(w, None, config=gc)
peer = ('192.0.2.9', 5070)
ok, bad = [], []
ra = SipRegistrationAgent(gc, SipURL('sip:alice@192.0.2.9:5070'), SipURL('sip:alice@192.0.2.1'), 'alice', 'pw',
    rok_cb=lambda *a: ok.append(a), rfail_cb=lambda *a: bad.append(a))
ra.doregister()
def last():
    return Msg([s[1] for s in w.sent if s[1].startswith('REGISTER')][-1])
chal = [('WWW-Authenticate', 'Digest realm="r",nonce="%s"')]
def answer(code, extra=''):
    m = minisip.response(last(), code, 'Answer', 'tt')
    if extra:
        m = m.replace('\\r\\n\\r\\n', '\\r\\n' + extra + '\\r\\n\\r\\n', 1)
    sim.deliver(w, tm, m, peer)
    w.advance(0.1)
for i in range(4):
    answer(401, 'WWW-Authenticate: Digest realm="r",nonce="n%d"' % i)
assert len(bad) == 1, bad
w.advance(61)
n = len(w.sent)
answer(401, 'WWW-Authenticate: Digest realm="r",nonce="nn"')
assert len(bad) == 1 and 'nonce="nn"' in w.sent[-1][1], (bad, w.sent[-1][1])
answer(200)
assert len(ok) == 1
'''
