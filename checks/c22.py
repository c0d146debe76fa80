"""C22: digests between the real challenge and authorization headers, against an independent computation: the full grid of
algorithms, protections, methods and bodies, every single change of a field, challenge and answer passed as text."""
from common import *
import hashlib
import sippy.Security.SipNonce as sn
_ns = [10 ** 15]
sn.clock_getntime = lambda kind=None: _ns[0]
from sippy.SipWWWAuthenticate import SipWWWAuthenticate
from sippy.SipProxyAuthenticate import SipProxyAuthenticate
from sippy.SipAuthorization import SipAuthorization
from sippy.SipProxyAuthorization import SipProxyAuthorization
import sippy.SipAuthorization as sa
sim.seed_tokens()

ALGS = [None, 'MD5', 'MD5-sess', 'SHA-256', 'SHA-256-sess', 'SHA-512-256', 'SHA-512-256-sess']
HF = {None: 'md5', 'MD5': 'md5', 'MD5-sess': 'md5', 'SHA-256': 'sha256', 'SHA-256-sess': 'sha256', 'SHA-512-256': 'sha512_256', 'SHA-512-256-sess': 'sha512_256'}
BITS = [sn.DGST_MD5, sn.DGST_MD5SESS, sn.DGST_SHA256, sn.DGST_SHA256SESS, sn.DGST_SHA512, sn.DGST_SHA512SESS]
AMASK = {a: BITS[max(0, i - 1)] for i, a in enumerate(ALGS)}
BODIES = [None, '', 'v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\n', 'v=0', 'caf\xe9 \u0416']
METHODS = ['INVITE', 'REGISTER', 'BYE', 'invite']
URIS = ['sip:b@10.0.0.2', 'sip:b@10.0.0.3', 'sip:10.0.0.2;a=b', 'sips:b@10.0.0.2', '']
USERS = ['alice', 'Alice', 'al,ice', 'j\xf8rgen', 'a=b c', '']
PWS = ['secret', 'Secret', 'secret ', '\u0416', '']
REALMS = ['example.com', 'Example.com', 'a, b=c', '10.0.0.1', 'qop=auth']


def H(alg, s):
    return hashlib.new(HF[alg], s.encode()).hexdigest()


def digest(f, pw, method, body):
    """the response RFC 2617/7616/8760 prescribes for the fields f; None where none is"""
    alg, qop = f.get('algorithm'), f.get('qop')
    if alg not in HF or qop not in (None, 'auth', 'auth-int'):
        return None
    if any(f.get(x) is None for x in ('username', 'realm', 'nonce', 'uri')):
        return None
    if qop is not None and not (f.get('nc') and f.get('cnonce')):
        return None
    ha1 = H(alg, '%s:%s:%s' % (f['username'], f['realm'], pw))
    if alg and alg.endswith('-sess'):
        if f.get('cnonce') is None:
            return None
        ha1 = H(alg, '%s:%s:%s' % (ha1, f['nonce'], f['cnonce']))
    a2 = method + ':' + f['uri']
    if qop == 'auth-int':
        a2 += ':' + H(alg, body or '')
    if qop is None:
        return H(alg, '%s:%s:%s' % (ha1, f['nonce'], H(alg, a2)))
    return H(alg, '%s:%s:%s:%s:%s:%s' % (ha1, f['nonce'], f['nc'], f['cnonce'], qop, H(alg, a2)))


def read(text):
    """an independent reader of credentials"""
    need(text.startswith('Digest '), 'not a digest: %r', text)
    out_, i, text = {}, 0, text[7:]
    while i < len(text):
        j = text.index('=', i)
        name = text[i:j].strip(' ,').lower()
        if text[j + 1:j + 2] == '"':
            k = text.index('"', j + 2)
            v, i = text[j + 2:k], k + 1
        else:
            k = text.find(',', j)
            k = len(text) if k < 0 else k
            v, i = text[j + 1:k].strip(), k
        need(name not in out_, '%s twice in %r', name, text)
        out_[name] = v
        while i < len(text) and text[i] in ' ,':
            i += 1
    return out_


QUOTED = ('username', 'realm', 'nonce', 'uri', 'response', 'cnonce', 'opaque')


def write(f, form=0):
    L = ['%s=%s' % (k.upper() if form == 3 else k, '"%s"' % v if k in QUOTED or form == 2 or ',' in v else v) for k, v in f.items() if v is not None]
    if form == 1:
        L.reverse()
    if form == 4:
        L.insert(1, 'auts="a,b=c"')
    return 'Digest ' + {0: ',', 1: ', ', 2: ',  ', 3: ',', 4: ' , '}[form].join(L)


def verify(cls, f, pw, method, body, want, what, form=0, ctx=None, ha1=True):
    t = write(f, form)
    for how in range(4):
        a = cls(body=t)
        if how == 1:
            a = a.getCopy()
        elif how == 2:
            a.parse()
            a = a.getCopy()
        elif how == 3:
            if not ha1 or f.get('algorithm') not in HF or any(f.get(x) is None for x in ('username', 'realm', 'nonce', 'cnonce')):
                continue
            h = H(f.get('algorithm'), '%s:%s:%s' % (f['username'], f['realm'], pw))
            if f.get('algorithm') and f['algorithm'].endswith('-sess'):
                h = H(f['algorithm'], '%s:%s:%s' % (h, f['nonce'], f['cnonce']))
        try:
            r = a.verify(pw, method, body) if how < 3 else a.verifyHA1(h.encode(), method, body)
        except Exception as e:
            raise Violation('%s: verification raised %r: %s' % (what, e, t))
        need(r is True or r is False, '%s: verdict %r', what, r)
        need(r == want, '%s: %s: %s %s %r %r', what, 'accepted' if r else 'refused', t, method, pw, body)
        if ctx:
            ctx.step(what, (f.get('algorithm'), f.get('qop'), what[:9], method, body, form, how))


def answer(ch, cfg, m=None, b=None, user=None, pw=None, realm=None, uri=None):
    """challenge -> text -> answer -> text"""
    _ns[0] += 1
    W = SipProxyAuthenticate if cfg['proxy'] else SipWWWAuthenticate
    A = SipProxyAuthorization if cfg['proxy'] else SipAuthorization
    alg = cfg['alg']
    w = W(realm=realm, algorithm=alg)
    if cfg['qop'] != 'own':
        w.qop = cfg['qop']
    if cfg['opaque']:
        w.opaque = cfg['opaque']
    t = str(w)
    if cfg.get('tform'):
        q = t.split('"')
        q[::2] = [x.replace(',', ', ') for x in q[::2]]
        t = '"'.join(q)
    g = read(t)
    need(g['realm'] == realm and g['nonce'] == w.nonce and g.get('algorithm') == alg, 'challenge %r', t)
    need((g.get('opaque') or None) == cfg['opaque'], 'challenge %r', t)
    w2 = W(body=t)
    if cfg.get('copied'):
        w2 = w2.getCopy()
    w2.parse()
    if cfg.get('copied'):
        w2 = w2.getCopy()
    ok, qop = w2.supportedAlgorithm()
    offered = None if cfg['qop'] is None or (cfg['qop'] == 'own' and alg is None) else (['auth'] if cfg['qop'] == 'own' else cfg['qop'])
    if offered is None:
        need(ok == (alg in (None, 'MD5')) and qop is None, 'challenge %r: %s %s', t, ok, qop)
        if not ok:
            return None
    else:
        us = [q for q in offered if q in ('auth', 'auth-int')]
        if not us:
            need(not ok, 'challenge %r taken as supported', t)
            return None
        need(ok and qop in us, 'challenge %r: %s %s', t, ok, qop)
    a = w2.genAuthHF(user, pw, m, uri, b, qop)
    need(type(a) is A, 'answer made with %s', type(a))
    t2 = str(a)
    f = read(t2)
    need(f['username'] == user and f['realm'] == realm and f['nonce'] == w.nonce and f['uri'] == uri and f.get('qop') == qop, 'answer %r to %r', t2, t)
    need(f.get('algorithm') == alg and f.get('opaque') == cfg['opaque'], 'answer %r to %r', t2, t)
    need((qop is None) == (f.get('nc') is None) == (f.get('cnonce') is None), 'answer %r', t2)
    if qop is not None:
        need(f['nc'] == '00000001' and f['cnonce'], 'answer %r', t2)
    need(set(f) <= {'username', 'realm', 'nonce', 'uri', 'response', 'algorithm', 'qop', 'nc', 'cnonce', 'opaque'}, 'answer %r', t2)
    d = digest(f, pw, m, b)
    need(f['response'] == d, 'answer %r, should be %s', t2, d)
    p = A(body=t2)
    p.parse()
    need(str(p) == t2 or read(str(p)) == f, 'answer %r reprinted %r', t2, str(p))
    return A, f


def grid(ch, ctx, cfg):
    m, b = ch.pick(METHODS[:2]), ch.pick(BODIES)
    user, pw, realm, uri = USERS[0], PWS[0], REALMS[0], URIS[0]
    k = ch.choose(4)
    if k == 0:
        user, realm = ch.pick(USERS), ch.pick(REALMS)
    elif k == 1:
        pw = ch.pick(PWS)
    elif k == 2:
        uri = ch.pick(URIS)
    r = answer(ch, cfg, m, b, user, pw, realm, uri)
    if r is None:
        ctx.outcome = 'unsupported'
        return
    A, f = r
    verify(A, f, pw, m, b, True, 'right', ch.choose(5) if k == 3 else 0, ctx)
    # everything else changed
    for x in PWS:
        if x != pw:
            verify(A, f, x, m, b, False, 'other password', 0, ctx)
    for x in METHODS:
        if x != m:
            verify(A, f, pw, x, b, False, 'other method', 0, ctx)
    for x in BODIES:
        same = f.get('qop') != 'auth-int' or (x or '') == (b or '')
        verify(A, f, pw, m, x, same, 'other body', 0, ctx)
    ctx.outcome = '%s %s' % (cfg['alg'], f.get('qop'))


def offered(ch, ctx, cfg):
    r = answer(ch, cfg, 'INVITE', 'x', USERS[ch.choose(2)], PWS[0], REALMS[ch.choose(2)], URIS[0])
    if r is not None:
        verify(r[0], r[1], PWS[0], 'INVITE', 'x', True, 'right', 0, ctx)
        verify(r[0], r[1], PWS[0], 'INVITE', 'y', r[1].get('qop') != 'auth-int', 'other body', 0, ctx)
    ctx.outcome = str(r is None)


def changes(ch, ctx, cfg):
    m, b = ch.pick(METHODS[:2]), ch.pick(BODIES[1:3])
    r = answer(ch, cfg, m, b, USERS[0], PWS[0], REALMS[0], URIS[0])
    if r is None:
        ctx.outcome = 'unsupported'
        return
    A, f = r
    w = SipWWWAuthenticate(realm='x', algorithm=cfg['alg'])
    w2 = SipWWWAuthenticate(realm='x', algorithm=ALGS[(ALGS.index(cfg['alg']) + 1 + ch.choose(2) * 2) % 7])
    vals = {'username': USERS, 'realm': REALMS, 'uri': URIS, 'nonce': [w.nonce, w2.nonce, '', 'abc', f['nonce'][:-1], f['nonce'] + 'A'],
            'response': ['', '0' * len(f['response']), f['response'][:-1], f['response'] + '0', f['response'][::-1]] +
                        [f['response'][:i] + '%x' % (int(c, 16) ^ 1) + f['response'][i + 1:] for i, c in enumerate(f['response'])],
            'algorithm': ALGS + ['SHA-1', '', 'MD5-sess-sess', 'none'], 'qop': [None, 'auth', 'auth-int', '', 'auth,auth-int', 'AUTH', 'foo'],
            'nc': ['00000002', '00000001', '1', ''], 'cnonce': ['0a4f113b', '', 'x' * 70, 'a b']}
    masks = {'nonce': {f['nonce']: AMASK[cfg['alg']]}}
    issued = {f['nonce']: AMASK[cfg['alg']], w.nonce: AMASK[cfg['alg']], w2.nonce: AMASK[w2.algorithm]}

    def judge(g, what, form=0):
        if g.get('qop') is not None and not (g.get('nc') and g.get('cnonce')) and digest(dict(g, qop=None), PWS[0], m, b) == g.get('response'):
            return False        # protection named but not applied: not said what to make of it
        d = digest(g, PWS[0], m, b)
        ok = d is not None and d == g.get('response')
        if ok:
            ok = issued.get(g.get('nonce')) == AMASK[g.get('algorithm')]
        verify(A, g, PWS[0], m, b, ok, what, form, ctx)
        return ok
    names = list(vals)
    one = ch.pick(names)
    for v in vals[one] + [None]:
        g = dict(f)
        g[one] = v
        same = g == f
        ok = judge(g, '%s=%r' % (one, v), ch.choose(2) * 3 if v is None else 0)
        cov = {'username', 'realm', 'uri', 'nonce', 'response', 'algorithm', 'qop'} | ({'nc', 'cnonce'} if f.get('qop') else set())
        if one in cov and not (one == 'algorithm' and {v, f.get('algorithm')} == {None, 'MD5'}):
            if v != f.get(one):
                need(not ok, 'harness: changed %s verifies', one)
        # the same for answers made with the changed value: right where the algorithm allows, refused otherwise
        if one != 'response':
            d = digest(g, PWS[0], m, b)
            if d is not None:
                g['response'] = d
                judge(g, 'recomputed with %s=%r' % (one, v))
        for other in names:
            if other != one:
                g2 = dict(g)
                g2[other] = None
                judge(g2, '%s=%r without %s' % (one, v, other))
    # too old
    _ns[0] += 33 * 10 ** 9
    verify(A, f, PWS[0], m, b, False, 'too old', 0, ctx)
    _ns[0] -= 33 * 10 ** 9
    verify(A, f, PWS[0], m, b, True, 'right', 0, ctx)
    ctx.outcome = one


def offers(ch, ctx, cfg):
    """what is said to be supported can be computed, and nothing else is"""
    for a in ALGS + ['SHA-1', 'SHA-512', 'MD4', 'AKAv1-MD5', 'sha256']:
        s = bool(sa.IsDigestAlgSupported(a))
        need(s == (a in HF), 'algorithm %r %s', a, 'supported' if s else 'unsupported')
        w = SipWWWAuthenticate(body='Digest realm="r",nonce="n",qop="auth"' + (',algorithm=%s' % a if a is not None else ''))
        w.parse()
        ok, q = w.supportedAlgorithm()
        need(ok == s, 'challenge with %r: %r', a, ok)
    w = SipWWWAuthenticate(body='Digest realm="r",nonce="n",algorithm=md5')
    w.parse()
    need(w.supportedAlgorithm()[0], 'md5 in small letters is not supported')
    for L in (ALGS[1:], ALGS[:1], ALGS[1:2], ALGS[3:6:2]):
        m = sa.NameList2AlgMask(L)
        need(tuple(m) == tuple(AMASK[a] for a in L), 'masks %s for %s', m, L)
    ctx.outcome = 'ok'


def copies(ch, ctx, cfg):
    """changing a copy leaves the original as it was, and the other way round"""
    r = answer(ch, cfg, 'INVITE', 'x', USERS[0], PWS[0], REALMS[0], URIS[0])
    if r is None:
        return
    A, f = r
    a = A(body=write(f, 4))
    a.parse()
    for way in (0, 1):
        c = a.getCopy()
        x, y = (a, c) if way == 0 else (c, a)
        before = str(x)
        for n in ('username', 'realm', 'nonce', 'uri', 'response', 'qop', 'nc', 'cnonce', 'algorithm'):
            if getattr(y, n) is not None:
                setattr(y, n, 'MD5' if n == 'algorithm' else 'zz')
        y.otherparams.append(('a', 'b'))
        need(str(x) == before, 'changing a copy changed the other: %s %s', before, x)
        need(str(y) != before, 'change has no effect')
    ctx.step('copies')
    ctx.outcome = 'ok'


if __name__ == '__main__':
    def body():
        c = Check('C22', 'model_checking')
        Q = ['own', None, ['auth'], ['auth-int'], ['auth', 'auth-int'], ['auth-int', 'auth'], ['foo'], ['foo', 'auth'], ['foo', 'auth-int']]
        L = [dict(alg=a, qop=q, proxy=p, opaque=o, copied=cp, tform=tf) for a in ALGS for q in Q for p, o, cp, tf in
             c.q([(0, None, 0, 0), (1, 'op, q=1', 1, 1)], [(p, o, cp, tf) for p in (0, 1) for o in (None, 'x', 'op, q=1') for cp in (0, 1) for tf in (0, 1)])]
        S = [l for l in L if c.thorough or l['qop'] in ('own', None, ['auth-int'], ['foo', 'auth'])]
        c.explore('grid', grid, S)
        c.explore('changes', changes, [l for l in S if c.thorough or not l['proxy'] and l['qop'] != ['foo', 'auth']])
        c.explore('offered', offered, L)
        c.explore('offers', offers, [{}])
        c.explore('copies', copies, L)
        c.finish()
    main(body)
