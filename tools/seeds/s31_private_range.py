PROPERTY = 'C38'
NEEDS = 'NAT traversal and a peer whose private address is in 172.17.0.0 - 172.31.255.255'
BREAKS = 'its contact is taken by its word, later requests of the call go nowhere'
EDITS = [('sippy/SipTransactionManager.py', '''('172.16.0.0',  0xffffffff << 20)''', '''('172.16.0.0',  0xffffffff << 16)''')]
DEMO = '''
import sim, minisip
sim.std_setup()
sim.seed_tokens()
w = sim.World()
got = []
tm = sim.mk_stm(w, lambda req, t: (got.append(req), (req.genResponse(200, 'OK'), None, None))[1])
tm.nat_traversal = True
for i, h in enumerate(('172.16.0.9', '172.20.1.1', '172.31.255.255', '172.32.0.1', '192.168.3.3', '10.200.0.1')):
    raw = minisip.request('OPTIONS', 'sip:x@10.0.0.1', '<sip:a@192.0.2.1>;tag=1', '<sip:b@10.0.0.1>', 'c%d' % i, 1, '192.0.2.9:5070', 'z9hG4bK%d' % i, contact='<sip:a@%s:5061>' % h)
    sim.deliver(w, tm, raw, ('192.0.2.9', 5070))
    u = got[-1].getHFBody('contact').getUrl()
    assert (u.host, u.port) == ((h, 5061) if h == '172.32.0.1' else ('192.0.2.9', 5070)), (h, u.host, u.port)
'''
