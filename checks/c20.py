"""C20: the registration agent against every bounded sequence of answers of a registrar."""
from ua_model import *
sim.load('sippy.SipRegistrationAgent')
from sippy.SipRegistrationAgent import SipRegistrationAgent
from sippy.SipURL import SipURL
import sippy.Time.MonoTime as _mt

REG = ('192.0.2.30', 5060)
OWN = 'sip:dev@10.0.0.1:5060'
OTHER = '<sip:dev@192.0.2.77:5062>'
USER, PWD = 'u 1', 'p:w'
# what of a 2xx: (contacts, Expires, granted or None if the asked time applies)
OKS = {
    'own': (['<%s>;expires=60' % OWN], None, 60),
    'hdr': (['<%s>' % OWN], '90', 90),
    'none': ([], None, None),
    'bare': (['<%s>' % OWN], None, None),
    'both': (['<%s>;expires=50' % OWN], '900', 50),
    'hdronly': ([], '70', 70),
    'first': ([OTHER + ';expires=3600', '<%s>;expires=40' % OWN], None, 40),
    'last': (['<%s>;expires=45' % OWN, OTHER + ';expires=10'], '3600', 45),
    'comma': (['%s;q=0.5;expires=3600, <%s>;expires=41;q=1' % (OTHER, OWN)], None, 41),
    'long': (['"D" <%s>;q=0.7;expires=7200' % OWN], None, 7200),
    'one': (['<%s>;expires=2' % OWN], None, 2),
    'zero': (['<%s>;expires=0' % OWN], None, 0),
    'bad': (['<%s>;expires=abc' % OWN], None, None),
    'neg': (['<%s>;expires=-5' % OWN], None, 0),
    'badhdr': (['<%s>' % OWN], 'soon', None),
}
CH = ('plain', 'md5', 'sha', 'int', 'second', 'foo', 'qop', 'none', 'other', 'broken', 'broken2')
CHS = dict(CHALS, broken=(['='], None), broken2=(['Digest nonce="n"'], None))
FAILS = (301, 403, 423, 503, 600)


class Run:
    def __init__(self, cfg):
        self.cfg = cfg
        self.w = sim.World()
        self.gc = {}
        self.tm = sim.mk_stm(self.w, lambda r, t: None, config=self.gc)
        self.base = len(self.w.timers)
        self.w.advance(0.1)
        self.cbs = []
        self.n = 0
        self.cid = None
        self.cseq = None
        self.cur = None
        self.hist = []
        self.tries = 0
        self.stopped = False
        self.ftag = None
        self.auth = {}
        kw = {}
        if cfg.get('cred', True):
            kw = dict(user=USER, passw=PWD)
        if cfg.get('half'):
            kw = {cfg['half']: 'x'}
        if cfg.get('cb', True):
            kw.update(rok_cb=lambda *a: self.cbs.append(('ok',) + a), rfail_cb=lambda *a: self.cbs.append(('fail',) + a), cb_arg='arg')
        if cfg.get('target'):
            kw['target'] = (('192.0.2.31', 5099), 'udp')
        self.dest = ('192.0.2.31', 5099) if cfg.get('target') else REG
        self.exp = cfg.get('exp', 180)
        if self.exp != 180:
            kw['exp'] = self.exp
        aor = SipURL(username='dev', host=REG[0], port=REG[1])
        self.agent = SipRegistrationAgent(self.gc, aor, SipURL(username='dev', host='10.0.0.1', port=5060), **kw)
        if cfg.get('src'):
            self.agent.source_address = ('10.0.0.1', 5060)
        self.agent.doregister()
        self.take('the start')

    def out(self):
        o = self.w.sent[self.n:]
        self.n = len(self.w.sent)
        if self.w.errors:
            need(False, 'exception escaped: %r after %s', self.w.errors[0], self.hist)
        return o

    def take(self, what):
        """exactly one new REGISTER goes out now"""
        o = self.out()
        need(len(o) == 1, '%d datagrams sent after %s: %s (%s)', len(o), what, [x[1].split('\r\n')[0] for x in o], self.hist)
        m = Msg(o[0][1])
        need(m.is_req and m.method == 'REGISTER', 'sent %s', m.sl)
        need(o[0][2] == self.dest, 'REGISTER sent to %s instead of %s', o[0][2], self.dest)
        need(m.ruri in ('sip:' + REG[0], 'sip:%s:%d' % REG), 'REGISTER for %s', m.ruri)
        for h in ('from', 'to'):
            need(minisip.uri(m.get(h)) == 'sip:dev@' + REG[0], '%s is %s', h, m.get(h))
        need(m.ftag and m.ttag is None, 'tags %s %s', m.ftag, m.ttag)
        need(m.body == '', 'REGISTER with a body')
        c = m.all('contact')
        need(len(c) == 1 and minisip.uri(c[0]) == OWN, 'contact %s', c)
        need(minisip.param(c[0], 'expires') == str(self.exp), 'asks for %s instead of %s', c, self.exp)
        if self.cid is None:
            self.cid, self.ftag = m.cid, m.ftag
        else:
            need(m.cid == self.cid, 'Call-ID changed (%s)', self.hist)
            need(m.ftag == self.ftag, 'From tag changed (%s)', self.hist)
            need(m.cseq[0] > self.cseq, 'CSeq %s after %d (%s)', m.cseq, self.cseq, self.hist)
            need(m.branch != self.cur.branch, 'branch used again (%s)', self.hist)
        need(m.cseq[1] == 'REGISTER', 'CSeq %s', m.get('cseq'))
        self.cseq = m.cseq[0]
        self.cur = m
        self.t0 = sim.now()
        for hf in ('authorization', 'proxy-authorization'):
            v = m.all(hf)
            need(len(v) <= 1, '%d %s headers (%s)', len(v), hf, self.hist)
            if not v:
                continue
            need(hf in self.auth, 'uncalled for %s (%s)', hf, self.hist)
            self.verify(v[0], self.auth[hf], m)
        return m

    def verify(self, v, ch, m):
        sch, d = chal_parts(v)
        _, c = chal_parts(ch)
        need(sch == 'Digest', 'scheme %s', sch)
        for n in ('realm', 'nonce', 'opaque', 'algorithm'):
            need(d.get(n) == c.get(n), 'credentials have %s=%r, challenge %r (%s)', n, d.get(n), c.get(n), self.hist)
        need(d['username'] == USER and d['uri'] == m.ruri, 'credentials for %r %r', d['username'], d['uri'])
        q = c.get('qop')
        need(('qop' in d) == bool(q) and (not q or d['qop'] in q.split(',')), 'qop %r for %r', d.get('qop'), q)
        r = digest(USER, PWD, 'REGISTER', d['uri'], d, '')
        need(d['response'] == r, 'digest %s, expected %s for %s (%s)', d['response'], r, v, self.hist)

    def callbacks(self, *want):
        got, self.cbs = self.cbs, []
        if not self.cfg.get('cb', True):
            return []
        need([g[0] for g in got] == list(want), 'reported %s, expected %s (%s)', [g[:1] + tuple(map(str, g[1:])) for g in got], want, self.hist)
        for g in got:
            need(g[-1] == 'arg', 'argument lost')
        return got

    def wait(self, lo, hi, what):
        """the next REGISTER comes between lo and hi seconds from now"""
        t = sim.now()
        while not self.w.sent[self.n:] and sim.now() < t + hi + 0.01:
            nd = self.w.next_due()
            if nd is None or nd > t + hi + 0.01:
                break
            self.w.advance(nd - sim.now())
        dt = sim.now() - t
        if not self.w.sent[self.n:]:
            self.out()
            need(False, 'no REGISTER within %s s after %s (%s)', hi, what, self.hist)
        need(dt >= lo - 0.01, 'REGISTER after %.2f s, not before %.2f s expected: %s (%s)', dt, lo, what, self.hist)
        self.callbacks()
        self.take(what)

    def answer(self, code, reason, contacts=(), extra=()):
        raw = minisip.response(self.cur, code, reason, 'rt%d' % self.cseq if code > 100 else None, extra=[('Contact', c) for c in contacts] + list(extra))
        self.last = raw
        sim.deliver(self.w, self.tm, raw, self.dest)

    def quiet(self, what):
        need(not self.out(), 'sent something: %s (%s)', what, self.hist)
        self.callbacks()

    def dup(self):
        # late copies change nothing
        sim.deliver(self.w, self.tm, self.last, self.dest)

    def pause(self, dt):
        """the registrar takes its time"""
        t = sim.now()
        while sim.now() < t + dt - 1e-9:
            self.w.advance(min(0.1, t + dt - sim.now()))
        for x in self.out():
            need(Msg(x[1]).raw == self.cur.raw and x[2] == self.dest, 'another request while one is pending: %s (%s)', x[1], self.hist)
        self.callbacks()

    def ok(self, k, code=200):
        cts, ex, g = OKS[k]
        g = self.exp if g is None else g
        t = sim.now()
        self.answer(code, 'OK', cts, [('Expires', ex)] if ex is not None else ())
        self.tries = 0
        cb = self.callbacks('ok')
        if g >= 1 and cb:
            rt = cb[0][1]
            need(abs(rt - (_mt.MonoTime().realt + g)) < 0.05, 'reported to last until %.2f s from now instead of %s (%s)', rt - _mt.MonoTime().realt, g, self.hist)
            if cts and k != 'neg':
                need(cb[0][2] is not None and OWN in str(cb[0][2]) and '192.0.2.77' not in str(cb[0][2]), 'reported contact %s (%s)', cb[0][2], self.hist)
        need(not self.out(), 'sent something after 200 (%s)', self.hist)
        return (0.5, 61) if g < 1 else (g * 0.5, g - 0.01)

    def fail(self, sl):
        cb = self.callbacks('fail')
        if cb:
            need(cb[0][1] == sl, 'reported %r, expected %r (%s)', cb[0][1], sl, self.hist)
        self.tries = 0
        need(not self.out(), 'sent something after a failure (%s)', self.hist)
        return (60, 60)


def scen(ch, ctx, cfg):
    r = Run(cfg)
    acts = cfg['acts']
    for i in range(cfg['depth']):
        a = acts[ch.choose(len(acts))]
        r.hist.append(a)
        k = a[0]
        nxt = None
        if k == 'stop':
            r.agent.stopregister()
            if a[1]:
                r.answer(a[1], 'X', ['<%s>;expires=60' % OWN])
            t = sim.now()
            for j in range(40):
                r.w.advance(2.5)
            for x in r.out():
                need(x[1] == r.cur.raw and not a[1], 'sent after it was stopped: %s (%s)', x[1].split('\r\n')[0], r.hist)
            r.callbacks()
            break
        if k == 'stop2':
            lo = r.ok('own')
            r.w.advance(a[1])
            r.agent.stopregister()
            for j in range(60):
                r.w.advance(2.5)
            r.quiet('stopped')
            break
        if k == 'slow':
            r.pause(a[1])
            k, a = a[2][0], a[2]
        if k == 'prov':
            r.answer(a[1], 'Trying')
            r.quiet('provisional')
            r.pause(0.3)
            r.dup()
            r.quiet('provisional again')
            k, a = a[2][0], a[2]
        if k == 'ok':
            nxt = r.ok(a[1], a[2] if len(a) > 2 else 200)
        elif k == 'fail':
            r.answer(a[1], 'Because %d' % a[1])
            nxt = r.fail('SIP/2.0 %d Because %d' % (a[1], a[1]))
        elif k == 'lost':
            t = sim.now()
            while not r.cbs and cfg.get('cb', True) and sim.now() < t + 70 or not cfg.get('cb', True) and sim.now() < t + 32.05:
                r.w.advance(0.05)
            need(31 <= sim.now() - t <= 65, 'reported after %s s', sim.now() - t)
            for x in r.out():
                need(x[1] == r.cur.raw, 'another request while one is pending (%s)', r.hist)
            nxt = r.fail('SIP/2.0 408 Request Timeout')
            nxt = (59, 61)
            r.last = None
        elif k == 'chal':
            code, label = a[1:]
            hs, idx = CHS[label]
            hn = 'WWW-Authenticate' if (code == 401) != (label == 'other') else 'Proxy-Authenticate'
            if label == 'other':
                idx = None
            can = cfg.get('cred', True) and idx is not None and r.tries < 3
            if can:
                hf = 'authorization' if code == 401 else 'proxy-authorization'
                r.auth[hf] = hs[idx]
            r.answer(code, 'Auth', (), [(hn, h) for h in hs])
            if can:
                r.tries += 1
                r.callbacks()
                r.take('challenge')
                need(r.cur.all(hf), 'challenge %s not answered (%s)', label, r.hist)
            else:
                nxt = r.fail('SIP/2.0 %d Auth' % code)
        if nxt is not None:
            if cfg.get('dup') and r.last is not None:
                r.w.advance(0.2)
                r.dup()
                r.quiet('a response repeated')
                nxt = (nxt[0] - 0.2, nxt[1] - 0.2)
            r.wait(nxt[0], nxt[1], str(a))
        elif cfg.get('dup') and r.last is not None:
            r.dup()
            r.quiet('a challenge repeated')
        ctx.step(str(a), (cfg['name'], i, a, r.tries, tuple(sorted(r.auth)), tuple(r.hist)))
    r.agent.stopregister()
    for j in range(20):
        r.w.advance(400)
    r.out()
    need(len(r.tm.tclient) == 0, 'client transactions left behind (%s)', r.hist)
    need(len(r.w.timers) <= r.base, 'timers left behind (%s)', r.hist)
    ctx.outcome = str(r.hist[-1])


def acts(full):
    a = [('ok', k) for k in OKS] + [('fail', x) for x in FAILS] + [('chal', 401, l) for l in CH] + [('chal', 407, 'md5'), ('chal', 407, 'second'), ('chal', 407, 'other'), ('lost',),
         ('prov', 100, ('ok', 'own')), ('prov', 183, ('chal', 401, 'md5')), ('slow', 2.0, ('ok', 'first')), ('slow', 31.8, ('ok', 'own')), ('slow', 0.6, ('chal', 401, 'plain')), ('ok', 'own', 202),
         ('stop', 0), ('stop', 200), ('stop', 403), ('stop2', 0.1), ('stop2', 53.0), ('prov', 100, ('lost',))]
    return a


DEEP = [('ok', 'own'), ('ok', 'one'), ('fail', 403), ('chal', 401, 'md5'), ('chal', 407, 'sha'), ('chal', 401, 'foo'), ('lost',), ('stop', 0)]

if __name__ == '__main__':
    def body():
        c = Check('C20', 'model_checking')
        q = c.q
        A = acts(True)
        c.explore('answers', scen, [
            dict(name='all', acts=A, depth=q(2, 3)),
            dict(name='dup', acts=A, depth=2, dup=True),
            dict(name='deep', acts=DEEP, depth=q(4, 6)),
            dict(name='nocred', acts=A, depth=q(1, 2), cred=False),
            dict(name='row', acts=[('chal', 401, 'md5'), ('ok', 'own'), ('fail', 403)], depth=q(5, 8)),
            dict(name='half1', acts=A, depth=1, cred=False, half='user'),
            dict(name='half2', acts=A, depth=1, cred=False, half='passw'),
            dict(name='nocb', acts=A, depth=q(1, 2), cb=False),
            dict(name='target', acts=A, depth=q(1, 2), target=True, src=True, exp=75),
        ])
        c.explore('long', scen, [dict(name='long%d' % k, acts=DEEP if k > 2 else A, depth=q(24, 60), cycle=k) for k in q((1, 2), (1, 2, 3))])
        c.finish()
    main(body)
