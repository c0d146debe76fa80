PROPERTY = 'C02'
NEEDS = 'an INVITE answered first with a provisional and then with a final response, and repeated by the caller after the final one'
BREAKS = 'repeats of the INVITE after the final answer are answered with the old provisional response'
F = 'sippy/SipTransactionManager.py'
EDITS = [(F, '''        self.transmitData(t.userv, t.data, t.address, t.checksum, lossemul)
''', '''        self.transmitData(t.userv, t.data, t.address, t.checksum if t.teF is None and \\
          (scode < 200 or t.state is TRYING or not t.needack) else None, lossemul)
''')]
DEMO = '''
import sim, minisip, sys
from minisip import Msg
sim.std_setup()
sim.seed_tokens()
w = sim.World()
got = []
tm = sim.mk_stm(w, lambda req, t: got.append(req) or (None, None, None))
w.advance(1)
raw = minisip.request('INVITE', 'sip:bob@10.0.0.1', '<sip:a@b>;tag=1', '<sip:bob@10.0.0.1>', 'cid@x', 1, '192.0.2.9:5070', 'z9hG4bKq', contact='<sip:a@192.0.2.9:5070>')
sim.deliver(w, tm, raw, ('192.0.2.9', 5070))
for code in (180, 486):
    r = got[0].genResponse(code, 'X')
    tm.sendResponse(r)
    w.advance(0.1)
    n = len(w.sent)
    sim.deliver(w, tm, raw, ('192.0.2.9', 5070))
    new = [Msg(s[1]).code for s in w.sent[n:]]
    assert new == [code], (code, new)
assert len(got) == 1
'''
