PROPERTY = 'C21'
NEEDS = 'a nonce issued at an odd nanosecond, presented for an algorithm that it has not been issued for'
BREAKS = 'half of the nonces are accepted for SHA-512-256-sess no matter what they have been issued for'
EDITS = [('sippy/Security/SipNonce.py', '''        ts128 = clock_getntime(CLOCK_MONOTONIC) << len(DGST_PRIOS)
''', '''        ts128 = clock_getntime(CLOCK_MONOTONIC) << (len(DGST_PRIOS) - 1)
'''), ('sippy/Security/SipNonce.py', '''        orig_ts = decryptic >> len(DGST_PRIOS)
''', '''        orig_ts = decryptic >> (len(DGST_PRIOS) - 1)
''')]
DEMO = '''
import sippy.Security.SipNonce as S
t = [5 * 10**9 + 1]
S.clock_getntime = lambda c: t[0]
h = S.HashOracle()
for i in range(8):
    n = h.emit_challenge((S.DGST_MD5,))
    t[0] += 1
    assert h.validate_challenge(n, (S.DGST_MD5,))
    for o in S.DGST_PRIOS:
        if o != S.DGST_MD5:
            assert not h.validate_challenge(n, (o,)), (i, o)
'''
HELPERS = ()
