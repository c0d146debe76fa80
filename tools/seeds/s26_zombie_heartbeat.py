PROPERTY = 'C29'
NEEDS = 'a command of the user given up while a heartbeat is still on its way, answered after the relay was put out of use'
BREAKS = 'the old round of heartbeats goes on for a relay out of use, and a second one starts once it is back'
EDITS = [('sippy/Rtp_proxy/client.py', '''        if not self.online:
            return
        if stats == None:
''', '''        if stats == None:
''')]
HELPERS = ('sim.py', 'minisip.py', 'common.py', 'explore.py', 'runner.py', 'rtpc_model.py')
DEMO = '''
from rtpc_model import *
w = sim.World()
Chan.cur = []
Chan.dest = RADDR
cl = rclient.Rtp_proxy_client({'_sip_address': '10.0.0.1'}, spath='udp:%s:%d' % RADDR)
c = Chan.cur[0]
sent = lambda p: [d.split(' ', 1)[0] for t, d in c.out if d.split(' ', 1)[1].strip().startswith(p)]
def ans(ck, b):
    w.advance(0.001)
    assert feed(w, c, '%s %s\\n' % (ck, b)) is None

done = []
ans(sent('V')[0], '20040107')
for i in range(20):
    for ck in list(dict.fromkeys(sent('VF'))):
        if ck not in done:
            done.append(ck)
            ans(ck, '1')
assert cl.online
cl.send_command('D c f t', lambda r, ex=None: None)
w.advance(0.3)
hb = sent('Ib')[0]
ans(hb, 'active sessions: 1\\n')
n = 0
while cl.online:
    w.advance(0.01)
    n += 1
    assert n < 20000
    h = list(dict.fromkeys(sent('Ib')))[-1]
    if h != hb and len(sent('Ib')) > 1:
        last = h
        # answered at once, except when the user command is about to be given up
        if [d for t, d in c.out if d.startswith(h)][0] and n % 40 == 39:
            ans(h, 'active sessions: 1\\n')
            hb = h
k = list(dict.fromkeys(sent('Ib')))
if k[-1] != hb:
    ans(k[-1], 'active sessions: 1\\n')
for i in range(50):
    w.advance(0.2)
    for h in list(dict.fromkeys(sent('Ib'))):
        if h != hb and h not in k:
            k.append(h)
            ans(h, 'active sessions: 1\\n')
    if i == 10:
        n = len(k)
assert len(k) == n, 'heartbeats to a relay out of use'
'''
