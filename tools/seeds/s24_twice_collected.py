PROPERTY = 'C10'
NEEDS = 'a callee given up for the next route that lets go only after the caller has left, while the next callee is still to answer for its own leg'
BREAKS = 'the call is taken off the list by the first leg that lets go, and the one that ends last fails half way through its release'
EDITS = [('sippy/b2bua.py', '''        if ua == self.uaO and isinstance(self.uaA.state, self.uaA.UaStateDead):
''', '''        if isinstance(self.uaA.state, self.uaA.UaStateDead):
''')]
HELPERS = ('sim.py', 'minisip.py', 'b2b_model.py', 'common.py', 'explore.py', 'runner.py')
DEMO = '''
from b2b_model import *
br = Bridge(dict(conf=[('auth_enable', 'on'), ('digest_auth', 'off')]))
A = br.call()
br.pump()
br.verdict(br.requests()[-1], ["h323-ivr-in = 'Routing:%s:%d;%s'" % (CALLEES[k] + (p,)) for k, p in (('1', 'np_expires=4'), ('2', 'expires=70'))], 0)
leg = lambda p: [l for l in br.legs if l.party is p and not l.out]
br.p1.deaf = True
br.advance(4.5)
B2 = leg(br.p2)[0]
B2.answer(180, '')
br.pump()
br.advance(0.1)
A.cancel()
br.pump()
br.advance(0.2)
br.p1.deaf = False
leg(br.p1)[0].answer(200, SDP['C'])
br.pump()
br.quiet_end(700.0)
assert not br.w.errors, br.w.errors
'''
