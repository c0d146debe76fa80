PROPERTY = 'C37'
NEEDS = 'several -r options together with the configuration written out'
BREAKS = 'the configuration written out names the last relay only'
EDITS = [('sippy/MyConfigParser.py', '''                    self['rtp_proxy_clients'] += ',' + value
''', '''                    self['rtp_proxy_clients'] = value
''')]
HELPERS = ()
DEMO = '''
from sippy.MyConfigParser import MyConfigParser
a = MyConfigParser()
a.check_and_set('rtp_proxy_client', 'udp:192.0.2.1:1')
a.check_and_set('rtp_proxy_client', 'udp:192.0.2.2:2')
b = MyConfigParser()
b.check_and_set('rtp_proxy_clients', a['rtp_proxy_clients'])
assert a['_rtp_proxy_clients'] == b['_rtp_proxy_clients'] == ['udp:192.0.2.1:1', 'udp:192.0.2.2:2'], b['_rtp_proxy_clients']
'''
