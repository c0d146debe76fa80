"""C12: accounting records of both legs of a call, compared with a reference ledger kept from
the outside: every record's kind, moment, parties, times, duration, cause and releasing side."""
from calendar import timegm
import time as _t
from b2b_model import *
from c10 import fresh
from c11 import rt
import sippy.RadiusAccounting as racct
from sippy.Time.MonoTime import MonoTime

CAUSE = {400: '7f', 401: '39', 402: '15', 403: '39', 404: '1', 405: '7f', 406: '7f', 407: '15', 408: '66', 409: '29', 410: '1', 411: '7f', 413: '7f', 414: '7f',
         415: '4f', 420: '7f', 480: '12', 481: '7f', 482: '7f', 483: '7f', 484: '1c', 485: '1', 486: '11', 487: '12', 488: '7f', 500: '29', 501: '4f', 502: '26',
         503: '3f', 504: '66', 505: '7f', 580: '2f', 600: '11', 603: '15', 604: '1', 606: '3a'}
ROUTES = {
    'one': [rt('1')],
    'two': [rt('1', nr_expires=5, expires=21), rt('2', '7002', cli='4444', expires=9)],
    'hs': [rt('1', hs='486'), rt('2')],
    'bill': [rt('1', **{'bill-to': 'payer', 'bill-cli': '111', 'bill-cld': '222'}), rt('2', cli='')],
    'fof': [rt('1', forward_on_fail=1), rt('2')],
    'cr': [rt('1', cr=130)],
    'proc': [rt('1', po_proc='VAL2Xattrs[foo=bar,baz=x x]'), rt('2', po_proc='VAL2XattrsO[qu=ux]')],
    'procA': [rt('1', po_proc='VAL2XattrsA[foo=bar]')],
}


def parse_ts(s):
    need(re.match(r'^\d\d:\d\d:\d\d\.\d\d\d GMT \w\w\w \w\w\w \d\d? \d{4}$', s), 'time %r', s)
    hms, frac = s.split(' ')[0].split('.')
    return timegm(_t.strptime(hms + ' ' + s.split(' ', 1)[1], '%H:%M:%S GMT %a %b %d %Y')) + int(frac) / 1000.0


class Rec:
    """one leg's ledger"""
    def __init__(self, led, origin, t, **w):
        self.led, self.origin, self.setup = led, origin, t
        self.conn = self.alive = self.first = self.rang = None
        self.want = w
        self.done = False
        self.rel = None
        led.recs.append(self)

    def connect(self, t):
        self.conn = t
        c = self.led.cfg
        if c.get('start'):
            self.led.exp.append((self, 'Start', t, None, None))
        if c.get('period'):
            self.alive = t + c['period']

    def stop(self, t, cause, rel):
        need(not self.done, 'harness')
        self.done = True
        self.alive = None
        self.led.exp.append((self, 'Stop', t, cause, rel))


class Ledger:
    def __init__(self, br, cfg):
        self.br, self.cfg = br, cfg
        self.recs, self.exp = [], []
        self.nseen = 0
        self.off = MonoTime().realt - sim.now()

    def sync(self, after):
        self.br.pump()
        reqs = self.br.requests('ACCT')
        got = [attrs(x.data) for x in reqs[self.nseen:]]
        self.nseen = len(reqs)
        need(len(got) == len(self.exp), 'after %s %d accounting records were made instead of %d: %s instead of %s', after, len(got), len(self.exp),
             [(g.get('h323-call-origin'), g.get('Acct-Status-Type')) for g in got], [(e[0].origin, e[1]) for e in self.exp])
        for e in self.exp:
            for g in got:
                if g.get('h323-call-origin') == [e[0].origin] and g.get('Acct-Status-Type') == [e[1]]:
                    got.remove(g)
                    self.compare(after, g, *e)
                    break
            else:
                raise Violation('after %s no %s record for the %s leg: %s' % (after, e[1], e[0].origin, got))
        self.exp = []

    def compare(self, after, g, r, kind, t, cause, rel):
        prec = self.cfg.get('precise')
        tol = 0.03 if prec else 1.51
        x = lambda n: parse_ts(one(g, n)) - self.off
        what = '%s record of the %s leg after %s' % (kind, r.origin, after)
        for k, v in r.want.items():
            k = k.replace('_', '-')
            need(g.get(k) == [v], '%s: %s is %s instead of %s', what, k, g.get(k), v)
        need(g.get('Acct-Session-Id') == g.get('call-id') and one(g, 'h323-session-protocol') == 'sipv2' and one(g, 'h323-call-type') == 'VoIP', '%s: %s', what, g)
        pt = r.first
        if pt:
            need(abs(x('provisional-timepoint') - pt) < tol, '%s: first sign of the callee is off by %.3f s', what, x('provisional-timepoint') - pt)
        else:
            need('provisional-timepoint' not in g, '%s: %s', what, g)
        if r.rang:
            need(abs(int(one(g, 'Acct-Delay-Time')) - self.off - r.rang) < 1.6, '%s: ringing time %s', what, g)
        else:
            need('Acct-Delay-Time' not in g, '%s: %s', what, g)
        need(abs(x('h323-setup-time') - r.setup) < tol, '%s: setup time is off by %.3f s', what, x('h323-setup-time') - r.setup)
        ct = r.conn if r.conn is not None else t
        need(abs(x('h323-connect-time') - ct) < tol, '%s: connect time is off by %.3f s', what, x('h323-connect-time') - ct)
        if kind == 'Start':
            need('Acct-Session-Time' not in g and 'release-source' not in g and 'h323-disconnect-cause' not in g, '%s tells how the call ended: %s', what, g)
            return
        need(abs(x('h323-disconnect-time') - t) < tol, '%s: end time is off by %.3f s', what, x('h323-disconnect-time') - t)
        dur = t - r.conn if r.conn is not None else 0
        need(abs(int(one(g, 'Acct-Session-Time')) - dur) <= (0.53 if dur else 0), '%s: duration %s instead of %.3f', what, g['Acct-Session-Time'], dur)
        if kind == 'Stop':
            need(one(g, 'h323-disconnect-cause') in cause, '%s: cause %s instead of %s', what, g['h323-disconnect-cause'], cause)
            need(one(g, 'release-source') in rel, '%s: released by %s instead of %s', what, g['release-source'], rel)
        else:
            need('release-source' not in g, '%s: %s', what, g)


def one(g, n):
    need(len(g.get(n, ())) == 1, 'record has %s: %s', n, g.get(n))
    return g[n][0]


class Call:
    def __init__(self, br, led, cfg, A, t0, user):
        self.br, self.led, self.cfg, self.A = br, led, cfg, A
        self.user = user
        self.routes = list(enumerate(ROUTES[cfg['routes']]))
        self.ra = Rec(led, 'answer', t0, User_Name=user, Calling_Station_Id='1001', Called_Station_Id='5551', call_id=A.cid, h323_remote_address=A.party.addr[0])
        self.st = 'try'
        self.ro = None
        self.place()

    def place(self):
        i, r = self.routes.pop(0)
        self.cur = r
        self.t0 = self.at if self.at else sim.now()
        self.prov = self.rung = False
        if r.get('forward_on_fail'):
            self.ro = None
        else:
            self.ro = Rec(self.led, 'originate', self.t0, User_Name=r.get('bill-to', self.user), Calling_Station_Id=r.get('bill-cli', r.get('cli', '1001')),
                          Called_Station_Id=r.get('bill-cld', r['cld']), call_id=self.A.cid, h323_remote_address=CALLEES[r['dest']][0])
        p = r.get('po_proc')
        if p:
            kv = dict(x.split('=') for x in p.split('[')[1][:-1].split(','))
            for rec, n in ((self.ra, 'VAL2XattrsA'), (self.ro, 'VAL2XattrsO')):
                if p.startswith(n + '[') or p.startswith('VAL2Xattrs['):
                    rec.want.update(kv)
    at = None

    def end(self, t, cause, rel, who='AO'):
        if 'O' in who and self.ro and not self.ro.done:
            self.ro.stop(t, cause, rel)
        if 'A' in who:
            self.ra.stop(t, cause, rel)
            self.st = 'over'

    def fail(self, t, code, rel):
        """the attempt is over; code None: we gave up ourselves"""
        ca = (CAUSE.get(code, '7f'),) if code and code >= 400 else ('0',) if code else ('10', '29')
        self.end(t, ca, rel, 'O')
        hs = [int(x) for x in str(self.cur.get('hs', '')).split(',') if x.strip()]
        if self.routes and code not in hs and (code is None or code >= 400):
            self.place()
        else:
            self.end(t, ca, rel, 'A')

    def deadlines(self):
        L = []
        if self.st in ('try', 'ring'):
            if not self.prov:
                L.append((self.t0 + 32.0, 408))
                if self.cur.get('nr_expires'):
                    L.append((self.t0 + self.cur['nr_expires'], 'lim'))
            if self.cur.get('expires'):
                L.append((self.t0 + self.cur['expires'], 'lim'))
        elif self.st == 'conn':
            if self.cur.get('cr'):
                L.append((self.ra.conn + self.cur['cr'], 'credit'))
        L += [(r.alive, r) for r in self.led.recs if r.alive is not None]
        return sorted(L, key=lambda x: x[0])

    def wait(self, dt):
        end = sim.now() + dt
        while True:
            d = [x for x in self.deadlines() if x[0] <= end]
            if not d:
                break
            t, what = d[0]
            if t - 0.003 > sim.now():
                self.br.advance(t - 0.003 - sim.now())
                self.led.sync('waiting')
            if t + 0.003 > sim.now():
                self.br.advance(t + 0.003 - sim.now())
            self.at = t
            if what == 'lim':
                self.fail(t, None, ('8',))
            elif what == 'credit':
                self.end(t, ('10',), ('8',))
            elif what == 408:
                self.fail(t, 408, ('4', '8'))
            for r in self.led.recs:
                if r.alive is not None and r.alive <= t + 0.002:
                    self.led.exp.append((r, 'Alive', r.alive, None, None))
                    r.alive += self.cfg['period']
            self.at = None
            self.led.sync('%s at %.3f' % (what, t - sim.T0))
        if end > sim.now():
            self.br.advance(end - sim.now())
        self.led.sync('waiting')


CODES = sorted(CAUSE) + [499, 699]
FAILS = (486, 503, 302, 404, 603, 480)


def scen(ch, ctx, cfg):
    conf = [('auth_enable', 'on'), ('digest_auth', 'on' if cfg.get('user') else 'off'), ('acct_enable', 'on'), ('start_acct_enable', 'on' if cfg.get('start') else 'off')]
    if 'period' in cfg:
        conf.append(('alive_acct_int', str(cfg['period'])))
    if cfg.get('precise'):
        conf.append(('precise_acct', 'on'))
    br = Bridge(dict(conf=conf))
    led = Ledger(br, cfg)
    extra = [('User-Agent', 'Phone/1.0')]
    if cfg.get('user'):
        extra.append(('Authorization', 'Digest username="bob", realm="r", nonce="n", uri="sip:x@y", response="abc"'))
    tA = sim.now()
    A = br.call(extra=extra)
    br.pump()
    dt = (0.0, 1.3)[ch.choose(2)]
    br.advance(dt)
    wi = br.requests('AUTH')[0]
    lines = ["h323-ivr-in = 'Routing:%s'" % r['text'] for r in ROUTES[cfg['routes']]]
    early = ch.choose(4) if cfg.get('early') else 0
    if early == 1:
        # the caller gives up first: the authority has already counted the call
        A.cancel()
        br.pump()
        led.sync('the caller gave up')
        br.advance(2.0)
        need(not br.requests('ACCT'), 'accounting for a call nobody has admitted')
        if not wi.cancelled:
            r = Rec(led, 'answer', tA, User_Name=cfg.get('user') or A.party.addr[0], call_id=A.cid)
            r.stop(sim.now() - 2.0, ('10',), ('2',))
        br.verdict(wi, lines, 0)
        led.sync('late verdict')
        br.quiet_end()
        led.sync('the end')
        return
    if early == 2:
        br.verdict(wi, lines, 1)
        led.sync('a refusal')
        br.quiet_end()
        led.sync('the end')
        return
    if early == 3:
        r = Rec(led, 'answer', tA, User_Name=cfg.get('user') or A.party.addr[0], call_id=A.cid)
        r.stop(sim.now(), ('29',), ('8',))
        br.verdict(wi, [], 0)
        led.sync('no route')
        br.quiet_end()
        led.sync('the end')
        return
    br.verdict(wi, lines, 0)
    c = Call(br, led, cfg, A, tA, cfg.get('user') or A.party.addr[0])
    c.ra.want['h323_ivr_out'] = 'sip_ua:Phone/1.0'
    br.take()
    led.sync('admission')
    for i in range(cfg['depth']):
        if c.st == 'over':
            break
        B = [l for l in br.legs if not l.out][-1]
        if c.st in ('try', 'ring'):
            acts = [('B', 180), ('B', 183), ('B', 100), ('B', 200), ('t', 2.35), ('t', 7.6), ('A', 'cancel'), ('op', None)] + [('B', f) for f in (CODES if cfg.get('codes') else FAILS)]
            if cfg['depth'] > 3 or cfg['routes'] == 'one':
                acts.append(('t', 33.0))
        else:
            acts = [('A', 'bye'), ('B', 'bye'), ('op', None), ('t', 7.6), ('t', 61.23), ('op', 'media_timeout'), ('A', 're'), ('B', 're')]
        a = acts[ch.choose(len(acts))]
        if a[0] == 't':
            c.wait(a[1])
        elif a[0] == 'op':
            c.end(sim.now(), ('10',) if c.st == 'conn' else ('10', '29'), ('8',))
            for cc in tuple(br.cmap.ccmap):
                cc.disconnect(**({'origin': a[1]} if a[1] else {}))
        elif a == ('A', 'cancel'):
            c.end(sim.now(), ('10',), ('2',))
            A.cancel()
        elif a[1] == 'bye':
            c.end(sim.now(), ('10',), ('2',) if a[0] == 'A' else ('4',))
            (A if a[0] == 'A' else B).bye()
        elif a[1] == 're':
            l, o = (A, B) if a[0] == 'A' else (B, A)
            l.reinvite(fresh(br))
            br.pump()
            o.answer_re(200, fresh(br))
        elif a[1] < 200:
            t = sim.now()
            for r in (c.ra, c.ro) if a[1] > 100 else ():
                if r:
                    r.rang = r.rang or t
            if c.ro and a[1] == 100 and not c.rung:
                c.ro.first = c.ro.first or t
            c.prov = True
            if a[1] > 100:
                c.st, c.rung = "ring", True
            B.answer(a[1])
        elif a[1] == 200:
            c.st = 'conn'
            t = sim.now()
            c.ra.connect(t)
            if c.ro:
                c.ro.want['h323_ivr_out'] = 'sip_ua:Gate 2'
                c.ro.connect(t)
            B.answer(200, SDP['C'], extra=[('Server', 'Gate 2')])
        else:
            c.fail(sim.now(), a[1], ('4',))
            B.answer(a[1], extra=[('Contact', '<sip:x@192.0.2.99>')] if a[1] == 302 else ())
        led.sync(a)
        br.take()
        ctx.step(str(a), (cfg['name'], c.st, len(c.routes), c.prov, a[0], a[1]))
        if a[0] != 't':
            c.wait(0.3)
    ctx.outcome = (cfg['name'], c.st, len(c.routes))
    if c.st in ('try', 'ring'):
        c.end(sim.now(), ('10',), ('2',))
        A.cancel()
    elif c.st == 'conn':
        c.end(sim.now(), ('10',), ('2',))
        A.bye()
    led.sync('hanging up')
    for l in br.legs:
        if not l.out and l.st == 'new':
            l.party.deaf = True
    br.pump()
    br.quiet_end()
    led.sync('the end')
    need(all(r.done for r in led.recs), 'harness')


if __name__ == '__main__':
    def body():
        c = Check('C12', 'model_checking')
        d = c.q(3, 5)
        L = []
        for r in ROUTES:
            for n, kw in (('plain', {}), ('full', dict(start=True, period=60, user='bob', precise=True)), ('alive', dict(period=5)), ('start', dict(start=True))):
                if n in ('plain', 'full') or r in ('one', 'two'):
                    L.append(dict(kw, name=r + n, routes=r, depth=d))
        L.append(dict(name='zero', routes='one', depth=3, period=0))
        L.append(dict(name='early', routes='one', depth=1, early=True))
        L.append(dict(name='earlyu', routes='one', depth=1, early=True, user='bob', precise=True, start=True))
        L.append(dict(name='codes', routes='one', depth=2, codes=True, precise=True))
        c.explore('ledger', scen, L)
        c.finish()
    main(body)
