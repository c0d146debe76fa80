"""C11: hunting over the routes the authority (or the configuration) gives, against a
reference list; every attempt checked for its own parameters."""
from urllib.parse import quote
from b2b_model import *
import c10


def rt(dest='1', cld='5552', **p):
    """a route and its text"""
    a = CALLEES[dest]
    s = ('%s@' % cld if cld is not None else '') + '%s:%d' % a
    for k, v in p.items():
        if k == 'ash':
            for x in v:
                s += ';ash=' + quote(x)
        elif k == 'cnam':
            s += ';cnam=' + quote(v)
        else:
            s += ';%s=%s' % (k.replace('hs', 'hs_scodes').replace('cr', 'credit-time') if k in ('hs', 'cr') else k, v)
    return dict(p, dest=dest, cld=cld, text=s)


SETS = {
    'plain3': [rt('1'), rt('2', '7001'), rt('3', None)],
    'hs': [rt('1', hs='486,600'), rt('2', hs='503,'), rt('3')],
    'lim': [rt('1', np_expires=5, expires=30), rt('2', nr_expires=4, np_expires=9), rt('3', expires=11, cr=20)],
    'skip': [rt('1', cr=0), rt('2', cr=15), rt('3', expires=0), rt('1', '9', cr=-1)],
    'own': [rt('1', cli='4444', cnam='Bob B', ash=('X-One: 1', 'X-Two: a;b="c"')), rt('2', cli='', cnam='', auth='usr:pa:ss'), rt('3', auth='nopass', ash=('X-One: 3',))],
    'grp': [rt('1', gt='6,2'), rt('1', '71'), rt('2', '72', gt='5,1'), rt('3')],
    'grp0': [rt('1', gt='6,2', expires=20), rt('2', cr=0), rt('2', '72', cr=0), rt('3', gt='7,9')],
    'np0': [rt('1', np_expires=-1, expires=-1, nr_expires=-1), rt('2', expires=6)],
    'allskip': [rt('1', cr=0), rt('2', expires=0)],
    'one': [rt('1', expires=8)],
    'hsmid': [rt('1', hs='486'), rt('2'), rt('3', hs='503'), rt('1', '8')],
    'many': [rt('123'[i % 3], '7%03d' % i, **({'hs': '486', 'expires': 20} if i % 4 == 3 else {'cr': 50 + i})) for i in range(18)],
    'same': [rt('1', hs='486'), rt('1', hs='503', cr=9), rt('1')],
}


class Hunt:
    def __init__(self, br, cfg, A):
        self.br, self.cfg, self.A = br, cfg, A
        self.routes = []
        for i, r in enumerate(SETS[cfg['set']][:None if cfg.get('rad', True) else 1]):
            r = dict(r, rnum=i + 1)
            cr = r.get('cr')
            if cr is None:
                cr = cfg.get('crt')
            elif cr < 0:
                cr = None
            mx = cfg.get('maxcr')
            if mx is not None and (cr is None or cr > mx):
                cr = mx
            r['credit'] = cr
            if cr == 0 or r.get('expires') == 0:
                continue
            self.routes.append(r)
        self.exp = []
        self.st = 'try'
        self.cur = self.B = None
        self.groups = []
        self.credit_at = None
        self.deferred = []          # legs abandoned before they said anything
        self.t0 = None
        self.newleg = None
        if not self.routes:
            self.final(500)
        else:
            self.place()

    at = None

    def e(self, leg, *w):
        self.exp.append((leg,) + w)

    def final(self, code, reason=None, ct=()):
        self.e(self.A, 'resp', 'INVITE', code, reason, '', ct)
        self.st = 'over'

    def place(self):
        r = self.cur = self.routes.pop(0)
        self.t0 = self.at or sim.now()
        self.prov = self.prog = False
        self.B = None
        self.newleg = r
        if r.get('gt'):
            t, s = r['gt'].split(',')
            self.groups.append((self.t0 + int(t), r['rnum'] + int(s)))

    def fail(self, code, reason=None, ct=()):
        """the current attempt is over"""
        hs = [int(x) for x in str(self.cur.get('hs', '')).split(',') if x.strip()]
        if self.routes and (code is None or code not in hs):
            self.place()
        else:
            self.final(code or 500, reason, ct)

    def abandon(self):
        if self.prov:
            self.e(self.B, 'CANCEL', ())
        else:
            self.deferred.append(self.B)

    def deadlines(self):
        L = []
        if self.st in ('try', 'ring'):
            r = self.cur
            if not self.prov:
                L.append((self.t0 + 32.0, 'dead'))
            g = lambda k: r.get(k) if r.get(k) is not None and r.get(k) > 0 else None
            if g('nr_expires') and not self.prov:
                L.append((self.t0 + g('nr_expires'), 'lim'))
            if g('np_expires') and not self.prog:
                L.append((self.t0 + g('np_expires'), 'lim'))
            if g('expires'):
                L.append((self.t0 + g('expires'), 'lim'))
            L += [(t, ('grp', s)) for t, s in self.groups]
        if self.st == 'conn' and self.credit_at is not None:
            L.append((self.credit_at, 'credit'))
        return sorted(L, key=lambda x: x[0])

    def fire(self, what):
        if what == 'dead':
            self.fail(408)
        elif what == 'lim':
            self.abandon()
            self.fail(None)
        elif what == 'credit':
            self.e(self.A, 'BYE', ())
            self.e(self.B, 'BYE', ())
            self.st = 'over'
        else:
            s = what[1]
            self.groups = [g for g in self.groups if g[1] != s or g[0] > sim.now() + 0.01]
            if not self.routes or self.routes[0]['rnum'] > s:
                return
            if s > self.routes[-1]['rnum']:
                self.routes = []
                return
            self.routes = [r for r in self.routes if r['rnum'] >= s]
            self.abandon()
            self.fail(None)

    def sync(self, after):
        """compare with what was seen"""
        br = self.br
        got = br.take()
        if self.newleg is not None:
            r, self.newleg = self.newleg, None
            inv = [x for x in got if x[1] == 'INVITE']
            need(len(inv) == 1, 'after %s route %d should be tried: %d calls were placed', after, r['rnum'], len(inv))
            self.B = inv[0][0]
            got.remove(inv[0])
            self.check_invite(r, self.B)
        for leg in {id(x[0]): x[0] for x in got + self.exp}.values():
            g = [x[1:] for x in got if x[0] is leg]
            w = [x[1:] for x in self.exp if x[0] is leg]
            ok = len(g) == len(w) and all(len(a) == len(b) and all(q is None or p == q for p, q in zip(a, b)) for a, b in zip(sorted(g, key=str), sorted(w, key=str)))
            need(ok, 'after %s %s saw %s, expected %s', after, leg.name, g, w)
        self.exp = []

    def check_invite(self, r, leg):
        m = leg.inv
        need(leg.name == r['dest'], 'route %d was tried at %s instead of %s', r['rnum'], leg.name, r['dest'])
        num = r['cld'] if r['cld'] is not None else '5551'
        u = minisip.uri(m.ruri)
        need(u.split('@')[0] == 'sip:' + num, 'route %d called %s instead of %s', r['rnum'], u, num)
        need(c10_addr(u) == CALLEES[r['dest']], 'route %d called %s', r['rnum'], u)
        f = m.get('from')
        cli = r.get('cli', '1001')
        need(minisip.uri(f).split('@')[0] == 'sip:' + cli if cli else '@' not in minisip.uri(f), 'route %d: caller given as %s, not %s', r['rnum'], f, cli)
        nm = r.get('cnam', 'Alice')
        need(f.split('<')[0].strip().strip('"') == nm, 'route %d: caller name in %s is not %s', r['rnum'], f, nm)
        for n in ('X-One', 'X-Two', 'X-Pass'):
            w = [x.split(': ', 1)[1] for x in r.get('ash', ()) if x.startswith(n)] + (['keep; me', '2'] if n == 'X-Pass' else [])
            g = m.all(n.lower())
            need(g == w, 'route %d: header %s is %s instead of %s', r['rnum'], n, g, w)
        need(m.body == SDP['A'], 'route %d: body changed: %r', r['rnum'], m.body)
        need(m.cid == self.A.cid + '-b2b_%d' % r['rnum'], 'route %d: call-id %s', r['rnum'], m.cid)
        need(not m.all('authorization'), 'credentials offered unasked')


def c10_addr(u):
    h = u.split('@')[-1].replace('sip:', '').split(';')[0]
    a, _, p = h.partition(':')
    return a, int(p or 5060)


def scen(ch, ctx, cfg):
    rad = cfg.get('rad', True)
    conf = [('auth_enable', 'on' if rad else 'off'), ('digest_auth', 'off')]
    if cfg.get('maxcr') is not None:
        conf.append(('max_credit_time', str(cfg['maxcr'])))
    if not rad:
        conf.append(('static_route', SETS[cfg['set']][0]['text']))
    br = Bridge(dict(conf=conf + [('pass_headers', 'x-pass,x-none')]))
    A = br.call(extra=[('X-Pass', 'keep; me'), ('X-Other', 'no'), ('X-Pass', '2')])
    br.pump()
    if rad:
        q = br.requests('AUTH')
        need(len(q) == 1 and not br.take(), 'the call was placed without authorisation')
        lines = ["h323-ivr-in = 'Routing:%s'" % r['text'] for r in SETS[cfg['set']]]
        if cfg.get('crt') is not None:
            lines.insert(0, "h323-credit-time = 'h323-credit-time=%d'" % cfg['crt'])
        br.verdict(q[0], lines, 0)
    h = Hunt(br, cfg, A)
    br.pump()
    h.sync('the verdict')
    for i in range(cfg['depth']):
        if h.st == 'over' and not h.deferred:
            break
        acts = []
        if h.st in ('try', 'ring'):
            acts = [('B', 486), ('B', 503), ('B', 180), ('B', 200), ('t', 3.3), ('t', 7.4), ('A', 'cancel'), ('B', 302), ('B', 600), ('B', 100)]
            if h.cfg['set'] in ('plain3', 'hs', 'np0'):
                acts.append(('t', 33.0))
            if h.cur.get('auth') and h.st == 'try' and not h.prov and not getattr(h.B, 'chal', 0):
                acts.append(('B', 401))
        elif h.st == 'conn':
            acts = [('B', 'bye'), ('A', 'bye'), ('t', 21.0), ('t', 7.4)]
        for k, l in enumerate(h.deferred):
            acts += [('D', k, 180), ('D', k, 200), ('D', k, 486)]
        a = acts[ch.choose(len(acts))]
        B = h.B
        if a[0] == 't':
            end = sim.now() + a[1]
            while True:
                # nothing is heard from those who were left behind: they time out silently
                h.deferred = [l for l in h.deferred if sim.now() < l.tinv + 31]
                d = [x for x in h.deadlines() if x[0] <= end]
                if not d:
                    break
                t, what = d[0]
                br.advance(t - 0.003 - sim.now())
                h.sync('waiting')
                br.advance(0.006)
                h.at = t
                h.fire(what)
                h.at = None
                h.sync('%s at %.3f' % (what, t - sim.T0))
            br.advance(end - sim.now())
            h.sync(a)
            h.deferred = [l for l in h.deferred if sim.now() < l.tinv + 31]
        elif a[0] == 'D':
            l = h.deferred.pop(a[1])
            l.answer(a[2], SDP['C'] if a[2] < 300 else '')
            if a[2] < 200:
                h.e(l, 'CANCEL', ())
            elif a[2] < 300:
                h.e(l, 'ACK', '')
                h.e(l, 'BYE', ())
        elif a == ('A', 'cancel'):
            h.e(A, 'resp', 'INVITE', 487, None, '', ())
            h.abandon()
            h.st = 'over'
            A.cancel()
        elif a[1] == 'bye':
            me, o = (A, B) if a[0] == 'A' else (B, A)
            h.e(o, 'BYE', ())
            h.st = 'over'
            me.bye()
        else:
            code = a[1]
            if code == 100:
                h.prov = True
                B.answer(100)
            elif code < 200:
                h.e(A, 'resp', 'INVITE', code, REASONS[code], '', ())
                h.prov = h.prog = True
                h.st = 'ring'
                B.answer(code)
            elif code == 200:
                h.e(A, 'resp', 'INVITE', 200, 'OK', SDP['C'], ())
                h.e(B, 'ACK', '')
                h.st = 'conn'
                h.credit_at = None if h.cur['credit'] is None else sim.now() + h.cur['credit']
                B.answer(200, SDP['C'])
            elif code == 302:
                h.final(302, 'Moved', ('sip:x@192.0.2.99',))
                B.answer(302, extra=[('Contact', '<sip:x@192.0.2.99>')])
            elif code == 401:
                if h.cur['auth'] == 'nopass':
                    h.fail(401, 'Unauthorized')
                else:
                    # same attempt, now with the credentials of this route
                    h.exp.append((B, 'reINVITE', SDP['A']))
                    h.prov = False
                B.answer(401, extra=[('WWW-Authenticate', 'Digest realm="r", nonce="n"')])
            else:
                h.fail(code, REASONS[code])
                B.answer(code)
        br.pump()
        if a[1:] == (401,) and any(x[1] == 'reINVITE' for x in br.log):
            m = B.pend
            need('username="usr"' in m.get('authorization', ''), 'the challenge was not answered with the credentials of the route')
            B.chal = True
            B.inv, B.pend, B.final, B.st = m, None, None, 'new'
            # the call's limits go on
        h.sync(a)
        ctx.step(str(a), (cfg['name'], h.st, len(h.routes), len(h.deferred), h.cur and h.cur['rnum'], h.prov if h.cur else 0, h.prog if h.cur else 0))
        if a[0] != 't':
            br.advance(0.05)
            h.sync('a little later')
    ctx.outcome = (cfg['name'], h.st, len(h.routes), h.cur and h.cur['rnum'])
    if h.st in ('try', 'ring'):
        A.cancel()
    elif h.st == 'conn':
        A.bye()
    for l in br.legs:
        l.party.deaf |= l in h.deferred
    br.pump()
    br.quiet_end()


if __name__ == '__main__':
    def body():
        c = Check('C11', 'model_checking')
        d = c.q(4, 5)
        L = [dict(name=s, set=s, depth=d) for s in SETS if s != 'many']
        L += [dict(name='crt', set='same', depth=d, crt=25), dict(name='crt0', set='same', depth=2, crt=0), dict(name='max', set='lim', depth=d, crt=50, maxcr=12),
              dict(name='static', set='one', depth=d, rad=False), dict(name='staticown', set='own', depth=d, rad=False, maxcr=30)]
        c.explore('hunt', scen, L)
        # many routes: the same few things happen to one after another
        c.explore('long', scen, [dict(name='long%d' % k, set='many', depth=c.q(16, 40), cycle=k) for k in c.q((1, 2), (1, 2, 3))])
        c.finish()
    main(body)
