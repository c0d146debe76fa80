PROPERTY = 'C25'
NEEDS = 'an attribute with a colon and nothing behind it'
BREAKS = 'a=name: comes out as a=name'
EDITS = [('sippy/SdpMediaDescription.py', '''        if self.value is None:
            return self.name
''', '''        if not self.value:
            return self.name
''')]
HELPERS = ()
DEMO = '''
from sippy.SdpBody import SdpBody
s = 'v=0\\r\\no=- 1 1 IN IP4 192.0.2.1\\r\\ns=-\\r\\nc=IN IP4 192.0.2.1\\r\\nt=0 0\\r\\na=x:\\r\\nm=audio 4000 RTP/AVP 0\\r\\na=label:\\r\\na=sendrecv\\r\\n'
assert str(SdpBody(s)) == s, str(SdpBody(s))
assert str(SdpBody(s).getCopy()) == s
'''
