"""C21: nonces of the real HashOracle: every alteration of the enumerated kinds, every pair of algorithm sets, every age
around both ends of the lifetime, every mixture of parts of issued nonces."""
from common import *
import base64, hashlib, hmac
import sippy.Time.clock_dtime as cd
_ns = [10 ** 15]
cd.clock_getntime = lambda kind=None: _ns[0]
import sippy.Security.SipNonce as sn
sn.clock_getntime = cd.clock_getntime
from sippy.SipWWWAuthenticate import SipWWWAuthenticate
from sippy.SipProxyAuthenticate import SipProxyAuthenticate
import sippy.SipAuthorization as sa
BITS = [sn.DGST_MD5, sn.DGST_MD5SESS, sn.DGST_SHA256, sn.DGST_SHA256SESS, sn.DGST_SHA512, sn.DGST_SHA512SESS]
ALG = {None: 0, 'MD5': 0, 'MD5-sess': 1, 'SHA-256': 2, 'SHA-256-sess': 3, 'SHA-512-256': 4, 'SHA-512-256-sess': 5}
S = 10 ** 9
LIFE = 32 * S
B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'.decode()
OTHER = ' =-_!"\\\n\r\t\0,;:.%~\x7f\xe9\u0416\u2603\ud800'


def check(ho, nonce, mask, want, what):
    try:
        r = ho.validate_challenge(nonce, mask)
    except Exception as e:
        raise Violation('%s: %r raised on nonce %r' % (what, e, nonce))
    need(r == want, '%s: nonce %r %s', what, nonce, 'accepted' if r else 'refused')


def ages(ch, ctx, cfg):
    """issued for one set of algorithms, shown for another, at some later time, possibly through another oracle object"""
    _ns[0] = 10 ** 15 + cfg['t0']
    ho = [sn.HashOracle(), sn.HashOracle()]
    m1 = tuple(b for i, b in enumerate(BITS) if cfg['m1'] >> i & 1)
    seen = set()
    n = ho[0].emit_challenge(m1)
    need(isinstance(n, str) and n and not set(n) & set('" ,\\\r\n') and n.isascii(), 'nonce %r cannot be sent', n)
    t = _ns[0]
    for k, age in enumerate(AGES):
        _ns[0] = t + age
        for m2n in range(1, 64):
            m2 = tuple(b for i, b in enumerate(BITS) if m2n >> i & 1)
            if k >= 4 and m2n not in (cfg['m1'], 63, 1, 2, 4, 8, 16, 32):
                continue
            for h in ho:
                check(h, n, m2, 0 <= age <= LIFE and (m2n & ~cfg['m1']) == 0, 'age %d ns, issued for %r, shown for %r' % (age, m1, m2))
                ctx.step('age', (age, m2n, cfg['m1']))
        n2 = ho[k % 2].emit_challenge(m1)
        need(n2 != n and n2 not in seen, 'the same nonce was issued twice')
        seen.add(n2)
    ctx.outcome = 'ok'


AGES = [0, 1, LIFE - 1, LIFE + 1, -1, -S, -LIFE, 999, S, LIFE // 2, 31 * S, LIFE - 1000, LIFE + 1000, 33 * S, 64 * S, 3600 * S, 2 ** 40 * S // 64]


def alter(ch, ctx, cfg):
    """every small alteration of an issued nonce"""
    _ns[0] = 10 ** 15 + cfg['t0']
    ho = sn.HashOracle()
    m = tuple(BITS[i] for i in cfg['m'])
    n = ho.emit_challenge(m)
    o = ho.emit_challenge(m)
    _ns[0] += cfg['age']
    check(ho, n, m, True, 'unaltered')
    c = 0

    def bad(x, what):
        if x != n and x != o:
            check(ho, x, m, False, what)
            ctx.step(what)
    k = cfg['kind']
    al = B64 + OTHER
    if k == 'replace':
        for i in range(len(n)):
            for a in al:
                bad(n[:i] + a + n[i + 1:], 'character %d replaced' % i)
    elif k == 'insert':
        for i in range(len(n) + 1):
            for a in al:
                bad(n[:i] + a + n[i:], 'character inserted at %d' % i)
        for a in al:
            for b in '=A !':
                bad(n + a + b, 'two characters appended')
                bad(a + b + n, 'two characters put before')
        for j in range(1, 9):
            bad(n + '=' * j, 'padding appended')
            bad(n + 'A' * j, 'characters appended')
            bad('A' * j + n, 'characters put before')
    elif k == 'cut':
        for i in range(len(n) + 1):
            for j in range(i, len(n) + 1):
                bad(n[i:j], 'cut')
                bad(n[:i] + n[j:], 'part removed')
    elif k == 'move':
        for i in range(len(n)):
            for j in range(i + 1, len(n)):
                bad(n[:i] + n[j] + n[i + 1:j] + n[i] + n[j + 1:], 'characters swapped')
        for x in (n[::-1], n.upper(), n.lower(), n.swapcase(), n + n, n + o, '"' + n + '"', ' ' + n, n + ' ', n + '\r\n'):
            bad(x, 'rewritten')
    elif k == 'splice':
        for i in range(len(n) + 1):
            bad(n[:i] + o[i:], 'two nonces joined at %d' % i)
            bad(o[:i] + n[i:], 'two nonces joined at %d' % i)
        for s in range(1, 17):
            P = [n[i:i + s] for i in range(0, len(n), s)], [o[i:i + s] for i in range(0, len(o), s)]
            if len(P[0]) <= 8:
                for bits in range(1 << len(P[0])):
                    bad(''.join(P[bits >> i & 1][i] for i in range(len(P[0]))), 'blocks mixed')
    elif k == 'bits':
        raw = base64.b64decode(n + '=' * (-len(n) % 4))
        L = len(raw) * 8
        v = int.from_bytes(raw, 'big')
        for i in range(L):
            for j in range(i, L):
                x = v ^ (1 << i) ^ ((1 << j) if j != i else 0)
                if j - i > 16 and (i + j) % 7:
                    continue
                bad(base64.b64encode(x.to_bytes(len(raw), 'big')).rstrip(b'=').decode(), 'bits %d and %d flipped' % (i, j))
        for i in range(len(raw)):
            for a in range(256):
                r = bytearray(raw)
                r[i] = a
                bad(base64.b64encode(bytes(r)).rstrip(b'=').decode(), 'octet replaced')
        for i in range(len(raw) + 1):
            for j in range(i, len(raw) + 1):
                bad(base64.b64encode(raw[:i] + raw[j:]).rstrip(b'=').decode(), 'octets removed')
        for i in range(0, len(raw), 16):
            for j in range(0, len(raw), 16):
                r = bytearray(raw)
                r[i:i + 16], r[j:j + 16] = raw[j:j + 16], raw[i:i + 16]
                bad(base64.b64encode(bytes(r)).rstrip(b'=').decode(), 'blocks swapped')
                bad(base64.b64encode(raw[:i] + raw[j:j + 16] + raw[i:]).rstrip(b'=').decode(), 'block repeated')
    elif k == 'garbage':
        for x in [None, '', '=', 'A', 'AA', 'AAA', 'AAAA', '0', 'a' * 32, 'Digest', '\0', '\ud800', '\u2603' * 64, 'A' * 10000, 'A' * 64, '/' * 64, '=' * 64, '\xe9' * 64]:
            bad(x, 'garbage')
        for l in range(0, 130):
            for f in (b'\0', b'\xff'):
                bad(base64.b64encode(f * l).decode(), 'garbage')
                bad(base64.b64encode(f * l).rstrip(b'=').decode(), 'garbage')
    ctx.outcome = k


def foreign(ch, ctx, cfg):
    """made with another key, or with only part of the key the same"""
    _ns[0] = 10 ** 15
    ho = sn.HashOracle()
    key = sn.HashOracle.key
    n = len(key)
    for lo in range(0, n, 16):
        for hi in range(lo + 16, n + 1, 16):
            k2 = key[:lo] + bytes(x ^ 0x5a for x in key[lo:hi]) + key[hi:]
            _one(ho, k2)
    for i in range(n):
        for b in (1, 0x80):
            k2 = bytearray(key)
            k2[i] ^= b
            _one(ho, bytes(k2))
            ctx.step('key', (i, b))
    ctx.outcome = 'ok'


def _one(ho, k2):
    class H(sn.HashOracle):
        key = k2
    f = H()
    for m in BITS:
        n = f.emit_challenge((m,))
        check(ho, n, (m,), False, 'made with another key')
        check(f, n, (m,), True, 'made with its own key')
        check(f, ho.emit_challenge((m,)), (m,), False, 'made with another key')


def headers(ch, ctx, cfg):
    """nonces as they travel: a challenge printed and parsed carries a nonce good for its own algorithm only"""
    _ns[0] = 10 ** 15
    ho = sa.SipAuthorization.ho
    all_ = set()
    for a in ALG:
        for cls in (SipWWWAuthenticate, SipProxyAuthenticate):
            for age in (0, 1, LIFE, LIFE + 1, -1):
                _ns[0] = 10 ** 15
                w = cls(realm='r', algorithm=a)
                w2 = cls(body=str(w))
                w2.parse()
                need(w2.nonce == w.nonce, 'nonce changed on its way: %r %r', w.nonce, w2.nonce)
                need(w.nonce not in all_, 'nonce issued twice')
                all_.add(w.nonce)
                c = w2.getCopy()
                need(c.nonce == w.nonce, 'a copied challenge has another nonce')
                _ns[0] += age
                for b in range(6):
                    check(ho, w2.nonce, (BITS[b],), 0 <= age <= LIFE and b == ALG[a], 'challenge %s age %d shown for %d' % (a, age, b))
                    ctx.step('hdr', (a, b, age))
    ctx.outcome = 'ok'


def many(ch, ctx, cfg):
    """a history: nonces issued at several moments, each shown at each moment"""
    _ns[0] = 10 ** 15
    ho = sn.HashOracle()
    issued = []
    for i in range(cfg['n']):
        _ns[0] += ch.pick([0, 1, S, 16 * S, LIFE, LIFE + 1])
        b = BITS[ch.choose(2) * 3]
        x = ho.emit_challenge((b,))
        need(x not in [y for y, _, _ in issued], 'nonce issued twice')
        issued.append((x, _ns[0], b))
        for y, t, b2 in issued:
            for b3 in BITS[::3]:
                check(ho, y, (b3,), _ns[0] - t <= LIFE and b2 == b3, 'nonce of age %d' % (_ns[0] - t))
        ctx.step('issue', (i, _ns[0], b))
    ctx.outcome = 'ok'


if __name__ == '__main__':
    def body():
        c = Check('C21', 'model_checking')
        c.explore('ages', ages, [dict(m1=m, t0=t) for m in range(1, 64) for t in (0, 123456789123)])
        K = ['replace', 'insert', 'cut', 'move', 'splice', 'bits', 'garbage']
        c.explore('alterations', alter, [dict(kind=k, m=m, t0=t, age=a) for k in K for m in c.q([(0,), (0, 2, 5)], [(i,) for i in range(6)] + [(0, 2, 5)])
                                         for t, a in ((0, 0), (7 * S + 3, LIFE - 5))])
        c.explore('foreign', foreign, [{}])
        c.explore('headers', headers, [{}])
        c.explore('histories', many, [dict(n=c.q(4, 5))])
        c.explore('long', many, [dict(n=c.q(30, 80), cycle=k) for k in c.q((2, 4), (2, 4, 6))])
        c.finish()
    main(body)
