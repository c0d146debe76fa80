PROPERTY = 'C18'
NEEDS = 'codecs allowed by name and an offer whose second stream maps the name to another payload type than the first'
BREAKS = 'formats of the second stream are kept or removed by the numbers of the first one'
EDITS = [('sippy/b2bua.py', '''        allowed_pts = self.global_config['_allowed_pts']
        for sect''', '''        allowed_pts = self.global_config['_allowed_pts']
        _allowed_pts = None
        for sect'''), ('sippy/b2bua.py', '''            _allowed_pts = [x if isinstance(x, int) else sect.getPTbyName(x) for x in allowed_pts]
''', '''            if _allowed_pts is None:
                _allowed_pts = [x if isinstance(x, int) else sect.getPTbyName(x) for x in allowed_pts]
''')]
HELPERS = ('sim.py', 'minisip.py', 'b2b_model.py', 'common.py', 'explore.py', 'runner.py')
DEMO = '''
from b2b_model import *
br = Bridge(dict(conf=[('static_route', '5552@192.0.2.11:5060'), ('allowed_pts', '[opus/48000/2]')]))
body = ('v=0\\r\\no=- 1 1 IN IP4 198.51.100.1\\r\\ns=-\\r\\nt=0 0\\r\\n'
  'm=audio 9000 RTP/AVP 0 96\\r\\nc=IN IP4 198.51.100.1\\r\\na=rtpmap:96 opus/48000/2\\r\\n'
  'm=audio 9002 RTP/AVP 96 97\\r\\nc=IN IP4 198.51.100.1\\r\\na=rtpmap:96 G722/8000\\r\\na=rtpmap:97 opus/48000/2\\r\\n')
A = br.call(body=body)
br.advance(0.2)
B = list(br.p1.legs.values())
assert len(B) == 1, 'the call was not placed'
m = [l for l in B[0].inv.body.split('\\r\\n') if l.startswith('m=')]
assert m == ['m=audio 9000 RTP/AVP 96', 'm=audio 9002 RTP/AVP 97'], m
'''
