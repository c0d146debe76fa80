PROPERTY = 'C11'
NEEDS = 'a route with stop codes that fails with another code, then a route without stop codes that fails with one of those'
BREAKS = 'the stop codes of a route go on applying to the routes after it, which ends the hunting early'
EDITS = [('sippy/b2bua.py', '''        self.huntstop_scodes = oroute.params.get('huntstop_scodes', ())
''', '''        if 'huntstop_scodes' in oroute.params or self.huntstop_scodes is None:
            self.huntstop_scodes = oroute.params.get('huntstop_scodes', ())
''')]
HELPERS = ('sim.py', 'minisip.py', 'b2b_model.py', 'common.py', 'explore.py', 'runner.py')
DEMO = '''
from b2b_model import *
br = Bridge(dict(conf=[('auth_enable', 'on')]))
A = br.call()
br.pump()
br.verdict(br.requests()[-1], ["h323-ivr-in = 'Routing:5552@192.0.2.11:5060;hs_scodes=486'",
    "h323-ivr-in = 'Routing:5552@192.0.2.12:5062'", "h323-ivr-in = 'Routing:5552@192.0.2.13:5060'"], 0)
br.w.advance(0.1); br.pump()
def leg(k):
    p = getattr(br, 'p' + k)
    assert len(p.legs) == 1, 'no call to %s' % k
    return list(p.legs.values())[0]
for k, code in (('1', 503), ('2', 486)):
    leg(k).answer(code)
    br.advance(0.2)
leg('3')
'''
NOTE = 'caught after strengthening (hsmid sets)'
