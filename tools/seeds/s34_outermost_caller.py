PROPERTY = 'C13'
NEEDS = 'a call that has come through two or more proxies'
BREAKS = 'the authority is told the address that the far end put into its own Via instead of the last element before our proxy'
EDITS = [('sippy/b2bua.py', '''                via = req.getHFBody('via', 1)
''', '''                via = req.getHFBodys('via')[-1]
''')]
HELPERS = ('sim.py', 'minisip.py', 'b2b_model.py', 'common.py', 'explore.py', 'runner.py')
NOTE = 'caught after strengthening (where from)'
DEMO = '''
from b2b_model import *
br = Bridge(dict(conf=[('auth_enable', 'on'), ('digest_auth', 'off')]))
v = ['SIP/2.0/UDP 192.0.2.1:5061;branch=z9hG4bKa', 'SIP/2.0/UDP 203.0.113.8;branch=z9hG4bKb', 'SIP/2.0/UDP 203.0.113.9;branch=z9hG4bKc']
raw = minisip.request('INVITE', 'sip:5551@10.0.0.1', '<sip:1001@192.0.2.1>;tag=x', '<sip:5551@10.0.0.1>', 'c1', 1, '', '', contact='<sip:a@192.0.2.1:5061>', body=SDP['A'], vias=v)
br.deliver(raw, CALLER)
a = attrs(br.requests('AUTH')[0].data)
assert a['h323-remote-address'] == a['User-Name'] == ['203.0.113.8'], a
'''
