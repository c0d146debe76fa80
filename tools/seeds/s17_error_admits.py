PROPERTY = 'C13'
NEEDS = 'a failure of the authorisation helper (as opposed to its refusal) with a static route configured'
BREAKS = 'callers are let through unauthorised while the helper is out of order'
EDITS = [('sippy/b2bua.py', '''        if len(results) != 2 or results[1] != 0:
''', '''        if len(results) != 2 or results[1] == 1:
''')]
HELPERS = ('sim.py', 'minisip.py', 'b2b_model.py', 'common.py', 'explore.py', 'runner.py')
DEMO = '''
from b2b_model import *
for code in (1, 2, 255):
    br = Bridge(dict(conf=[('auth_enable', 'on'), ('static_route', '192.0.2.11:5060')]))
    A = br.call()
    br.verdict(br.requests()[-1], [], code)
    br.advance(0.3)
    assert len(br.p1.legs) == 0, 'call placed after result %d' % code
'''
