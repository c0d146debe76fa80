PROPERTY = 'C23'
NEEDS = 'a copy of an address whose parameters are changed by one owner in an order that the other one never made'
BREAKS = 'parameters set on a copy come out of the original'
EDITS = [('sippy/SipAddress.py', '''          hadbrace = self.hadbrace, params_order = self.params_order[:])
''', '''          hadbrace = self.hadbrace, params_order = self.params_order)
''')]
HELPERS = ()
DEMO = '''
from sippy.SipFrom import SipFrom
a = SipFrom('"A" <sip:a@example.com>;tag=1')
a.parse()
b = a.getCopy()
b.address.setParam('x', '5')
assert str(a) == '"A" <sip:a@example.com>;tag=1' or str(a) == 'A <sip:a@example.com>;tag=1', str(a)
'''
