"""C10: one call bridged between a scripted caller and callee; what each side sees is
compared step by step with a reference of the bridge, and all pairs of crossing actions
are checked for both legs ending and nothing being left."""
from b2b_model import *

ROUTE = '%s:%d' % CALLEES['1']


def fresh(br):
    n = br.uniq()
    return minisip.sdp(host='198.51.100.%d' % (n % 200), port=20000 + 2 * n, ver=n)


class Ref:
    rsn = None

    """what the other side must see"""
    def __init__(self, br, leg, late):
        self.br, self.A, self.late = br, leg, late
        self.a, self.b = 'try', 'new'
        self.exp = []
        self.upd = None             # (who asked, body)
        self.B = None
        self.lastA = self.lastB = None      # session last agreed, as told to A/B
        self.offA = None

    def e(self, leg, *what):
        self.exp.append((leg,) + what)

    def actions(self):
        L = []
        if self.a in ('try', 'ring'):
            L += [('A', 'cancel'), ('A', 'cancelr')]
            if self.b in ('new', 'prov'):
                L += [('B', 180, ''), ('B', 183, 'B'), ('B', 200, 'C'), ('B', 486, ''), ('B', 302, ''), ('B', 600, ''), ('B', 503, '', RSN), ('op', 'disc')]
                if self.a == 'try':
                    L += [('B', 401, '')]
            if self.b == 'new':
                L += [('t', 40.0)]
        elif self.a == 'conn':
            L += [('A', 'bye'), ('A', 'byer'), ('B', 'bye'), ('B', 'byer'), ('op', 'disc')]
            if self.upd is None:
                L += [('A', 're', 'D'), ('B', 're', 'E'), ('A', 'info'), ('B', 'info')]
            else:
                L += [('up', 200, 'F'), ('up', 488, ''), ('up', 481, ''), ('up', 180, '')]
        elif self.b in ('cancelw',):
            L += [('B', 180, ''), ('B', 200, 'C'), ('B', 486, '')]
        return L

    def over(self):
        self.a = self.b = 'over'
        self.upd = None

    def apply(self, a):
        br, A, B = self.br, self.A, self.B
        who, what = a[0], a[1]
        body = fresh(br) if len(a) > 2 and a[2] else ''
        if who == 't':
            self.e(A, 'resp', 'INVITE', 408, 'Request Timeout', '', ())
            self.over()
            br.advance(a[1])
            return
        if who == 'op':
            if self.a == 'conn':
                self.pend_end('A', ())
                self.pend_end('B', ())
                self.e(A, 'BYE', ())
                self.e(B, 'BYE', ())
                self.over()
            else:
                self.e(A, 'resp', 'INVITE', 500, 'Disconnected', '', ())
                self.a = 'over'
                self.cancel_b(())
            for cc in tuple(br.cmap.ccmap):
                cc.disconnect()
            return
        if who == 'A' and what in ('cancel', 'cancelr'):
            rs = (RSN,) if what == 'cancelr' else ()
            self.e(A, 'resp', 'INVITE', 487, 'Request Terminated', '', ())
            self.a = 'over'
            self.cancel_b(rs)
            A.cancel(extra=[('Reason', x) for x in rs])
        elif who == 'B' and isinstance(what, int):
            extra = ()
            if what == 302:
                extra = [('Contact', '<sip:other@192.0.2.99>')]
            elif what == 401:
                extra = [('WWW-Authenticate', 'Digest realm="r", nonce="n"')]
            if self.a == 'over':
                if what < 200:
                    self.e(B, 'CANCEL', self.crs)
                elif what < 300:
                    self.e(B, 'ACK', '')
                    self.e(B, 'BYE', ())
                self.b = 'over'
            elif what < 200:
                self.e(A, 'resp', 'INVITE', what, REASONS[what], body, ())
                self.a, self.b = 'ring', 'prov'
            elif what < 300:
                self.e(A, 'resp', 'INVITE', 200, 'OK', body, ())
                self.e(B, 'ACK', SDP['H'] if self.late else '')
                self.a = self.b = 'conn'
            else:
                x = ('sip:other@192.0.2.99',) if what == 302 else ('Digest realm="r", nonce="n"',) if what == 401 else ()
                self.e(A, 'resp', 'INVITE', what, REASONS[what], '', x)
                self.over()
            if len(a) > 3:
                extra = [('Reason', a[3])]
                self.rsn = a[3]
            B.answer(what, body, extra)
        elif what in ('bye', 'byer'):
            rs = (RSN,) if what == 'byer' else ()
            me, other = (A, B) if who == 'A' else (B, A)
            self.pend_end('A', rs, ended=who)
            self.pend_end('B', rs, ended=who)
            self.e(other, 'BYE', rs)
            self.over()
            me.bye(extra=[('Reason', x) for x in rs])
        elif what == 're':
            me, other = (A, B) if who == 'A' else (B, A)
            self.upd = (who, body)
            self.upd_prov = False
            self.e(other, 'reINVITE', body)
            me.reinvite(body)
        elif what == 'info':
            me, other = (A, B) if who == 'A' else (B, A)
            self.e(other, 'INFO', 'Signal=5\r\n')
            self.e(me, 'resp', 'INFO', 200, 'OK', '', ())
            me.mine = me.req('INFO', 'Signal=5\r\n')
        elif who == 'up':
            asker, answerer = (A, B) if self.upd[0] == 'A' else (B, A)
            b = body
            self.e(asker, 'resp', 'INVITE', what, REASONS[what], b, ())
            self.upd_prov = True
            if what >= 200:
                if what == 200:
                    self.e(answerer, 'ACK', '' if self.upd[1] else SDP['H'])
                elif what == 481:
                    self.e(asker, 'BYE', ())
                    self.e(answerer, 'BYE', ())
                    self.over()
                self.upd = None
            answerer.answer_re(what, b)

    def cancel_b(self, rs):
        self.crs = rs
        if self.b == 'prov':
            self.e(self.B, 'CANCEL', rs)
            self.b = 'over'
        else:
            self.b = 'cancelw'

    def pend_end(self, side, rs, ended=None):
        """the answer owed to the asker and the fate of the unanswered re-INVITE"""
        if self.upd is None:
            return
        asker, answerer = (self.A, self.B) if self.upd[0] == 'A' else (self.B, self.A)
        leg = self.A if side == 'A' else self.B
        if leg is asker:
            self.e(leg, 'resp', 'INVITE', 487, 'Request Terminated', '', ())


def scen(ch, ctx, cfg):
    br = Bridge(dict(conf=(('static_route', ROUTE),) + cfg.get('conf', ()), inside=cfg.get('inside', {}), ws=cfg.get('ws'), proxied=cfg.get('proxied'), host=cfg.get('host', '10.0.0.1')))
    late = cfg.get('late')
    A = br.call(body='' if late else SDP['A'])
    r = Ref(br, A, late)
    br.pump()
    l = br.take()
    need(len(l) == 1 and l[0][0].party is br.p1 and l[0][1:] == ('INVITE', '' if late else SDP['A']), 'the attempt was relayed as %s', l)
    r.B = l[0][0]
    for i in range(cfg['depth']):
        acts = r.actions()
        if cfg.get('cycle'):
            acts = [('B', 200, 'C')] if r.a == 'try' else [x for x in acts if x[1] in ('re', 'info') or x[0] == 'up' and x[1] != 481]
        if not acts:
            break
        a = acts[ch.choose(len(acts))]
        r.exp = []
        was = (r.a, r.b, r.upd)
        r.apply(a)
        br.pump()
        got = br.take()
        for leg, nm in ((A, 'caller'), (r.B, 'callee')):
            g = [x[1:] for x in got if x[0] is leg]
            w = [x[1:] for x in r.exp if x[0] is leg]
            if was[2] is not None:
                g = [x for x in g if x[0] != 'CANCEL']      # what becomes of an unanswered re-INVITE is C09's
            need(sorted(map(str, g)) == sorted(map(str, w)), 'after %s in %s the %s saw %s, expected %s', a, was, nm, g, w)
        if r.rsn:
            m = [Msg(x[1]) for x in br.w.sent if x[2] == A.party.dest()]
            m = [x for x in m if not x.is_req and x.code == a[1]][-1]
            need([re.sub(' *; *', ';', x) for x in m.all('reason')] == [r.rsn], 'failed for %s, the caller was told %s', r.rsn, m.all('reason'))
            r.rsn = None
        ctx.step(str(a), (r.a, r.b, r.upd, cfg['name']))
        br.advance(0.05)
        r.exp = []
        need(not br.take(), 'more was said later')
    ctx.outcome = (cfg['name'], r.a, r.b, r.upd is None)
    # closing time
    if r.a in ('try', 'ring'):
        A.cancel()
    elif r.a == 'conn':
        A.bye()
    if r.b == 'new' or r.b == 'cancelw':
        pass
    br.pump()
    br.quiet_end()


def cross_actions(br, A, B, used, hold):
    L = []
    if B.st == 'new' and sim.now() > br.t0 + 31:
        B.st = 'over'           # the attempt has timed out, the callee has no call
    if 'op' not in used:
        L.append(('op',))
    for k, leg in (('A', A), ('B', B)):
        if leg is None or leg.party.deaf:
            continue
        if leg is A and leg.st == 'new' and leg.mine is leg.inv and 'cancel' not in used:
            L.append((k, 'cancel'))
        if leg is B and leg.st in ('new', 'early') and leg.final is None:
            L += [(k, 'ans', 180), (k, 'ans', 200), (k, 'ans', 486)]
        if leg.st == 'est':
            L.append((k, 'bye'))
            if leg.mine is None and leg.pend is None:
                L.append((k, 're'))
            if leg.pend is not None:
                L += [(k, 'rans', 200), (k, 'rans', 488), (k, 'rans', 491)]
        if leg.st != 'over':
            L.append((k, 'deaf'))
    if not hold:
        L += [('t', 0.7), ('t', 40.0)]
    return L


def cross(ch, ctx, cfg):
    """any two or more things at once, peers that stop listening: both legs must end"""
    br = Bridge(dict(conf=(('static_route', ROUTE),) + cfg.get('conf', ()), inside=cfg.get('inside', {}), ws=cfg.get('ws'), proxied=cfg.get('proxied'), host=cfg.get('host', '10.0.0.1')))
    A = br.call()
    br.t0 = sim.now()
    br.pump()
    B = [l for l in br.legs if not l.out][0]
    for a in cfg.get('pre', ()):
        B.answer(a, SDP['B'] if a < 300 else '')
        br.pump()
    br.take()
    used = set()
    for i in range(cfg['depth']):
        acts = cross_actions(br, A, B, used, br.hold)
        if A.st == 'over' and B.st == 'over' or not acts:
            break
        a = acts[ch.choose(len(acts))]
        if a[0] == 't':
            br.advance(a[1])
        elif a[0] == 'op':
            used.add('op')
            for cc in tuple(br.cmap.ccmap):
                cc.disconnect()
        else:
            leg = A if a[0] == 'A' else B
            if a[1] == 'cancel':
                used.add('cancel')
                leg.cancel()
            elif a[1] == 'bye':
                leg.bye()
            elif a[1] == 're':
                leg.reinvite(fresh(br))
            elif a[1] == 'ans':
                leg.answer(a[2], SDP['B'] if a[2] < 300 else '')
            elif a[1] == 'rans':
                leg.answer_re(a[2], fresh(br) if a[2] < 300 else '')
            elif a[1] == 'deaf':
                leg.party.deaf = True
                leg.party.noack = True
        ctx.step(str(a), (A.st, B.st, A.pend is None, B.pend is None, A.party.deaf, B.party.deaf, br.hold))
        br.hold = a[0] != 't' and i + 1 < cfg['depth'] and bool(ch.choose(2, cost=(0, 1)))
        br.pump()
        if not br.hold:
            br.advance(0.02)
            check_both(br, A, B, False)
        if br.hold:
            ctx.trace.append('   and at the same time')
    br.hold = False
    br.pump()
    br.advance(0.02)
    check_both(br, A, B, False)
    if A.st != 'over' and B.st != 'over' and not A.party.deaf:
        if A.st == 'est':
            A.bye()
        elif A.mine is A.inv and 'cancel' not in used:
            A.cancel()
        br.pump()
        br.advance(0.02)
        check_both(br, A, B, False)
    elif A.party.deaf and not B.party.deaf:
        # the caller is gone for good: the callee answers, and hangs up if he is not told
        if B.final is None and (B.st == 'early' or B.st == 'new' and sim.now() < br.t0 + 31):
            B.answer(200, SDP['B'])
            br.advance(34.0)
        if B.st == 'est' and A.mine is None:
            B.bye()
    elif A.party.deaf and B.party.deaf:
        for cc in tuple(br.cmap.ccmap):
            cc.disconnect()
    ctx.outcome = (cfg['name'], A.st, B.st)
    br.quiet_end(1300.0 if cfg['name'] == 'ka' else 400.0)
    check_both(br, A, B, True)


def check_both(br, A, B, final):
    for l in br.legs:
        n = sum(1 for x in br.log if x[0] is l and x[1] == 'BYE')
        need(n <= 1, 'a second BYE to %s', l.name)
        n = sum(1 for x in br.log if x[0] is l and x[1] == 'resp' and x[2] == 'INVITE' and x[3] >= 200) if l.out else 0
    fin = [x for x in br.log if x[0] is A and x[1] == 'resp' and x[2] == 'INVITE' and x[3] >= 200]
    if A.st == 'over' and (A.party.deaf or B.party.deaf) and not final:
        return
    a_over, b_over = A.st == 'over', B.st == 'over'
    if final:
        need(a_over or A.party.deaf, 'the caller was never told that the call is over')
        need(b_over or B.party.deaf or B.st == 'new', 'the callee was never told that the call is over')
        return
    if A.party.deaf or B.party.deaf:
        return
    if a_over:
        need(b_over or B.st == 'new', 'the caller leg is over, the callee leg is not')
    if b_over and B.final is not None:
        need(a_over, 'the callee leg is over, the caller leg is not')


def aband(ch, ctx, cfg):
    """an attempt is given up for another one, its callee takes its time; the end comes in between"""
    br = Bridge(dict(conf=[('auth_enable', 'on'), ('digest_auth', 'off')]))
    A = br.call()
    br.pump()
    R = ["h323-ivr-in = 'Routing:%s:%d;%s'" % (CALLEES[k] + (p,)) for k, p in (('1', 'np_expires=4' if cfg['ring1'] != 183 else 'gt=4,2'), ('2', 'expires=70'), ('3', 'expires=70'))]
    if cfg['ring1'] == 183:
        R[0] = R[0].replace('gt=4,2', 'expires=4')
    br.verdict(br.requests()[-1], R, 0)
    leg = lambda p: [l for l in br.legs if l.party is p and not l.out]
    B1 = leg(br.p1)[0]
    br.p1.deaf = True
    if cfg['ring1']:
        B1.answer(cfg['ring1'] if cfg['ring1'] == 183 else 100)
        br.pump()
    br.advance(4.5)
    need(len(leg(br.p2)) == 1, 'the second route was not tried')
    B2 = leg(br.p2)[0]
    a2 = (None, 180, 200)[ch.choose(3)]
    if a2:
        B2.answer(a2, SDP['B'])
        br.pump()
    br.advance(0.1)
    late = (None, 180, 200, 486)[ch.choose(4)] if cfg['ring1'] != 0 else (None, 200)[ch.choose(2)]
    when = ch.choose(4)
    ender = ('A', 'op', 'B2', 'deaf')[ch.choose(4)]
    deaf2 = bool(ch.choose(2))
    ctx.step('%s %s %s %s %s' % (a2, late, when, ender, deaf2), (cfg['name'], a2, late, when, ender, deaf2))

    def l1():
        if late:
            br.p1.deaf = False
            del br.log[:]
            B1.answer(late, SDP['C'] if late == 200 else '')
            br.pump()
            br.advance(0.1)
            got = [x[1] for x in br.log if x[0] is B1]
            need('BYE' in got and 'ACK' in got if late == 200 and (cfg['ring1'] or sim.now() < B1.tinv + 31) else True, 'a callee given up before answered: he was told %s', got)
    if when == 0:
        l1()
    if deaf2:
        br.p2.deaf = True
    if ender == 'A':
        A.bye() if A.st == 'est' else A.cancel()
    elif ender == 'op':
        for cc in tuple(br.cmap.ccmap):
            cc.disconnect()
    elif ender == 'deaf':
        br.pA.deaf = True
        if a2 == 200 and B2.st == 'est':
            B2.bye()
        else:
            br.advance(75.0)
    elif a2 == 200:
        B2.bye()
    else:
        B2.answer(600)
    br.pump()
    if when:
        br.advance((0.2, 40.0, 200.0)[when - 1])
        l1()
    br.advance(0.1)
    if A.st != 'over' and ender == 'B2' and len(leg(br.p3)) == 1:
        need(len(br.cmap.ccmap) == 1, 'a call in progress is not among the calls')
        B3 = leg(br.p3)[0]
        B3.answer(200, SDP['D'])
        br.pump()
        need(A.st == 'est', 'answer of the third route did not arrive')
        br.advance(50.0)
        need(len(br.cmap.ccmap) == 1, 'a call in progress is not among the calls')
        A.bye()
        br.pump()
    ctx.outcome = (cfg['name'], a2, late, when, ender, deaf2, A.st, B2.st)
    br.quiet_end(700.0)
    need(A.st == 'over' or br.pA.deaf, 'the caller was never told')
    need(B2.st == 'over' or deaf2 or B2.st == 'new', 'the second callee was never told')


if __name__ == '__main__':
    def body():
        c = Check('C10', 'model_checking')
        d = c.q(4, 6)
        c.explore('relay', scen, [dict(name='plain', depth=d), dict(name='late', depth=d, late=1)])
        # long calls: a few re-INVITEs and requests over and over
        c.explore('long', scen, [dict(name='long%d%s' % (k, n), depth=c.q(24, 60), cycle=k, late=n == 'late') for k in c.q((2, 3, 5), (2, 3, 4, 6)) for n in ('', 'late')])
        e = c.q(3, 4)
        c.explore('crossing', cross, [dict(name='start', depth=e), dict(name='ringing', depth=e, pre=(180,)), dict(name='up', depth=e, pre=(200,)),
                                      dict(name='ka', depth=e, pre=(200,), conf=(('keepalive_ans', '10'), ('keepalive_orig', '10')))], max_cost=c.q(2, 3))
        c.explore('abandoned', aband, [dict(name='ab%d' % x, ring1=x) for x in (0, 100, 183)])
        c.finish()
    main(body)
