PROPERTY = 'C22'
NEEDS = 'a request without a body whose digest uses qop auth-int'
BREAKS = 'the digest leaves the hash of the (empty) body out, so right credentials are refused and a digest that does not cover the body is accepted'
EDITS = [('sippy/SipAuthorization.py', '''    if pszQop == "auth-int":
        m.update(delim)
        if pszHEntity is None:
            pszHEntity = ''
''', '''    if pszQop == "auth-int" and pszHEntity is not None:
        m.update(delim)
''')]
DEMO = '''
from hashlib import md5
from sippy.SipAuthorization import SipAuthorization
h = lambda s: md5(s.encode()).hexdigest()
nonce = SipAuthorization.ho.emit_challenge((1, 2, 4, 8, 16, 32))
ha1 = h('u:r:p')
for body in (None, '', 'v=0'):
    ha2 = h('INVITE:sip:x@y:' + h(body or ''))
    r = h('%s:%s:00000001:cn:auth-int:%s' % (ha1, nonce, ha2))
    a = SipAuthorization('Digest username="u",realm="r",nonce="%s",uri="sip:x@y",response="%s",algorithm=MD5,qop=auth-int,nc=00000001,cnonce="cn"' % (nonce, r))
    assert a.verify('p', 'INVITE', body), body
ha2 = h('INVITE:sip:x@y')
r = h('%s:%s:00000001:cn:auth-int:%s' % (ha1, nonce, ha2))
a = SipAuthorization('Digest username="u",realm="r",nonce="%s",uri="sip:x@y",response="%s",algorithm=MD5,qop=auth-int,nc=00000001,cnonce="cn"' % (nonce, r))
assert not a.verify('p', 'INVITE', None)
'''
HELPERS = ()
