PROPERTY = 'C15'
NEEDS = 'a call that goes out over a second or later route'
BREAKS = 'every attempt takes one more hop off the count, so that later routes see a wrong Max-Forwards'
EDITS = [('sippy/b2bua.py', '''            event.max_forwards = self.eTry.max_forwards - 1
''', '''            self.eTry.max_forwards -= 1
            event.max_forwards = self.eTry.max_forwards
''')]
HELPERS = ('sim.py', 'minisip.py', 'b2b_model.py', 'common.py', 'explore.py', 'runner.py')
DEMO = '''
from b2b_model import *
br = Bridge(dict(conf=[('auth_enable', 'on')]))
A = br.call(mf=20)
br.pump()
br.verdict(br.requests()[-1], ["h323-ivr-in = 'Routing:5552@192.0.2.11:5060'", "h323-ivr-in = 'Routing:5552@192.0.2.12:5062'"], 0)
br.w.advance(0.1); br.pump()
L = lambda k: list(getattr(br, 'p' + k).legs.values())[0]
a = L('1').inv.get('max-forwards')
L('1').answer(503)
br.advance(0.2)
b = L('2').inv.get('max-forwards')
assert a == b == '19', (a, b)
'''
NOTE = 'caught after strengthening (further routes)'
