"""C01/C03: client transactions of the real SipTransactionManager, in lockstep with
an independent timed reference automaton, over every bounded sequence of
(delay, response) steps."""
from common import *

sim.std_setup()
from sippy.SipRequest import SipRequest
from sippy.SipURL import SipURL
from sippy.SipTo import SipTo
from sippy.SipFrom import SipFrom
from sippy.SipAddress import SipAddress
from sippy.SipContact import SipContact
from sippy.SipCallId import SipCallId
from sippy.SipExpires import SipExpires
from sippy.SipMaxForwards import SipMaxForwards
from sippy.SipRoute import SipRoute
from sippy.SipVia import SipVia
sim.seed_tokens()

PEER = ('192.0.2.9', 5070)
EPS = 1e-6
RETR = [0.5, 1.5, 3.5, 7.5, 15.5, 31.5]


def mkreq(method, cid, cseq, expires, routes=()):
    url = SipURL('sip:bob@192.0.2.9:5070')
    fr = SipFrom(address=SipAddress(url=SipURL('sip:alice@10.0.0.1')))
    fr.setTag('ftag' + cid)
    kw = {}
    if expires is not None:
        kw['expires'] = SipExpires(number=expires)
    rts = [SipRoute(r) for r in routes]
    for r in rts:
        r.parse()
    r = SipRequest(method=method, ruri=url, fr0m=fr, callid=SipCallId(cid),
                   cseq=cseq, contact=SipContact(address=SipAddress(url=SipURL('sip:alice@10.0.0.1:5060'))),
                   maxforwards=SipMaxForwards(number=70), routes=rts,
                   target=((addr_of(minisip.uri(routes[0])), 'udp') if routes else (PEER, 'udp')), **kw)
    return r


# route variants of the 2xx: (record-route headers, contact) -> expected (dest, ruri, route headers)
def rr_expect(rrs, contact):
    rr = list(reversed(rrs))
    if not rr:
        if contact is None:
            return None
        return addr_of(contact), contact, []
    if ';lr' in rr[0]:
        return addr_of(minisip.uri(rr[0])), contact, rr
    strict = minisip.uri(rr[0])
    return addr_of(strict), strict, rr[1:] + (['<%s>' % contact] if contact else [])


def addr_of(uri):
    u = uri.split(':', 1)[1]
    u = u.split(';')[0]
    if '@' in u:
        u = u.split('@')[1]
    h, _, p = u.partition(':')
    return (h, int(p) if p else 5060)


RRS = {
    'none': [],
    'lr1': ['<sip:p1.example.net:5080;lr>'],
    'lr2': ['<sip:192.0.2.101:5081;lr>', '<sip:192.0.2.102;lr>'],
    'strict1': ['<sip:192.0.2.103:5083>'],
    'strict2': ['<sip:192.0.2.101:5081;lr>', '<sip:192.0.2.104:5084>'],
}


class Ref:
    """What the property allows one client transaction to do."""

    def __init__(self, method, expires, t0, uack):
        self.method = method
        self.inv = method == 'INVITE'
        self.expires = (expires if expires else 300) if self.inv else 32
        self.state = 'TRYING'
        self.retr = [t0 + x for x in RETR]
        self.tout = t0 + 32.0
        self.uack = uack
        self.cancel_pending = False
        self.dups = {}      # raw -> (time, kind)  kind: 'ack' / 'mute'
        self.final = None

    def until(self, t):
        """autonomous outputs with time <= t"""
        o = []
        while True:
            if self.state == 'TRYING' and self.retr and self.retr[0] <= t + EPS and self.retr[0] < self.tout:
                o.append((self.retr.pop(0), 'retr'))
                continue
            if self.state in ('TRYING', 'PROC') and self.tout <= t + EPS:
                o.append((self.tout, '408'))
                self.state = 'OVER'
                self.tover = self.tout
                continue
            break
        return o

    def resp(self, code, raw, t):
        """expected outputs of a matching response; None = anything of dup class allowed"""
        if raw in self.dups:
            t1, kind = self.dups[raw]
            if t - t1 < 32 - EPS:
                return ['reack'] if kind == 'ack' else []
            if kind == 'ack':
                return ['maybe-reack']
            # forgotten copies may only be reported again while provisional
            if self.state in ('TRYING', 'PROC'):
                return ['maybe-cb']
            return []
        if self.state in ('TRYING', 'PROC'):
            if code < 200:
                self.state = 'PROC'
                self.tout = t + self.expires
                self.dups[raw] = (t, 'mute')
                if self.cancel_pending:
                    self.cancel_pending = False
                    return ['cancel', 'cb']
                return ['cb']
            self.state = 'OVER'
            self.final = raw
            if self.inv:
                if self.uack and code < 300:
                    self.state = 'UACK'
                    self.dups[raw] = (t, 'mute')
                    return ['cb']
                self.dups[raw] = (t, 'ack')
                return ['ack', 'cb']
            self.dups[raw] = (t, 'mute')
            return ['cb']
        return []

    def cancel(self):
        if self.state == 'PROC':
            return ['cancel']
        if self.state == 'TRYING':
            self.cancel_pending = True
        return []

    def ack(self, t):
        assert self.state == 'UACK'
        self.state = 'OVER'
        self.dups[self.final] = (t, 'ack')
        return ['ack']


class Peer:
    """the transaction's live wire/callback record"""

    def __init__(self, i, tm, method, expires, uack, routes):
        self.cbs = []
        self.i = i
        self.cid = 'cid%d@x' % i
        self.tm = tm
        self.method = method
        self.uack = uack
        self.req = mkreq(method, self.cid, 100 + i, expires, routes)
        self.routes = routes
        self.t0 = sim.now()
        self.tr = tm.newTransaction(self.req, resp_cb=self.gotresp, cb_ifver=2)
        self.ref = Ref(method, expires, self.t0, uack)
        self.ackraw = None
        self.craw = None
        self.cref = None
        self.cancelled = False

    def gotresp(self, resp, tr):
        self.cbs.append((sim.now(), resp))
        if self.uack and 200 <= resp.getSCode()[0] < 300:
            tr.uack = True      # the way the user agent asks for it

    def start(self, world):
        s = world.sent[-1]
        self.raw = s[1]
        self.m = Msg(s[1])
        self.dest = s[2]
        exp = addr_of(minisip.uri(self.routes[0])) if self.routes else PEER
        need(self.dest == exp, 'request sent to %s, expected %s', self.dest, exp)
        need(self.m.sl == '%s sip:bob@192.0.2.9:5070 SIP/2.0' % self.method, 'bad start line %r', self.m.sl)


REASON = 'Q.850;cause=31;text="because"'


def check_cancel(p, raw, dest):
    c = Msg(raw)
    need(c.is_req and c.method == 'CANCEL', 'expected CANCEL, got %r', c.sl)
    need(c.ruri == p.m.ruri, 'CANCEL request-URI %r', c.ruri)
    need(c.cseq == (p.m.cseq[0], 'CANCEL'), 'CANCEL CSeq %r', c.cseq)
    need(c.cid == p.m.cid and c.get('from') == p.m.get('from') and c.get('to') == p.m.get('to'), 'CANCEL Call-ID/From/To differ')
    need(c.all('via') == p.m.all('via'), 'CANCEL Via %r, INVITE Via %r', c.all('via'), p.m.all('via'))
    need(c.all('route') == p.m.all('route'), 'CANCEL Route differs')
    need(dest == p.dest, 'CANCEL sent to %s, INVITE to %s', dest, p.dest)
    need([x.replace(' ', '') for x in c.all('reason')] == ([REASON] if p.creason else []), 'CANCEL Reason headers %r', c.all('reason'))


def check_ack(p, raw, dest, respraw, first):
    a, r = Msg(raw), Msg(respraw)
    need(a.is_req and a.method == 'ACK', 'expected ACK, got %r', a.sl)
    need(a.cseq == (p.m.cseq[0], 'ACK'), 'ACK CSeq %r vs INVITE %r', a.cseq, p.m.cseq)
    need(a.cid == p.m.cid and a.get('from') == p.m.get('from'), 'ACK Call-ID/From differ')
    need(a.ttag == r.ttag, 'ACK To tag %r, response has %r', a.ttag, r.ttag)
    need(len(a.all('via')) == 1, 'ACK must carry one Via')
    if r.code >= 300:
        need(a.branch == p.m.branch, 'ACK to %d must reuse the INVITE branch', r.code)
        need(a.ruri == p.m.ruri, 'ACK to %d must keep the request-URI: %r', r.code, a.ruri)
        need(dest == p.dest, 'ACK to %d sent to %s, INVITE went to %s', r.code, dest, p.dest)
        need(a.all('route') == p.m.all('route'), 'ACK to %d must carry the INVITE route set: %r', r.code, a.all('route'))
    else:
        need(a.branch and a.branch != p.m.branch and a.branch.startswith('z9hG4bK'), 'ACK to 2xx needs a branch of its own')
        ct = r.get('contact')
        exp = rr_expect(r.all('record-route'), minisip.uri(ct) if ct else None)
        if exp is None:
            exp = (p.dest, p.m.ruri, [])
        need(dest == exp[0], 'ACK to 2xx sent to %s, expected %s', dest, exp[0])
        if exp[1] is not None:
            need(a.ruri == exp[1], 'ACK to 2xx request-URI %r, expected %r', a.ruri, exp[1])
        need(a.all('route') == exp[2], 'ACK to 2xx Route %r, expected %r', a.all('route'), exp[2])


def mkreason():
    from sippy.SipHeader import SipHeader
    return (SipHeader('Reason: ' + REASON),)


def mkresp(p, kind, rrs):
    m = p.m
    if kind == '100':
        return minisip.response(m, 100, 'Trying', rr=False)
    if kind == '180':
        return minisip.response(m, 180, 'Ringing', 'ta', contact='<sip:bob@192.0.2.50:5066>')
    if kind == '183':
        return minisip.response(m, 183, 'Session Progress', 'tb', contact='<sip:bob@192.0.2.50>', body=minisip.sdp())
    ex = [('Record-Route', x) for x in rrs]
    if kind == '200':
        return minisip.response(m, 200, 'OK', 'ta', contact='<sip:bob@192.0.2.50:5066>', extra=ex, body=minisip.sdp())
    if kind == '200b':
        return minisip.response(m, 200, 'OK', 'tb', contact='<sip:bob@192.0.2.51>', body=minisip.sdp())
    if kind == '202n':
        return minisip.response(m, 202, 'Accepted', 'tc')
    if kind == '486':
        return minisip.response(m, 486, 'Busy Here', 'ta')
    if kind == '302':
        return minisip.response(m, 302, 'Moved', 'tb', contact='<sip:x@192.0.2.77:7777>', extra=ex)
    if kind == '699':
        return minisip.response(m, 699, 'Odd')
    if kind == 'stray':
        return minisip.response(m, 200, 'OK', 'ta', contact='<sip:bob@192.0.2.50:5066>').replace('branch=' + m.branch, 'branch=' + m.branch[:-1] + 'x')
    raise AssertionError(kind)


def scen(ch, ctx, cfg):
    name, methods, expires, uack, rrk, routes, depth, kinds, delays = cfg[:9]
    cancel = len(cfg) > 9 and cfg[9]
    rrs = RRS[rrk]
    w = sim.World()
    tm = sim.mk_stm(w)
    base_timers = len(w.timers)
    w.advance(1.3)
    ps = []
    for i, meth in enumerate(methods):
        p = Peer(i, tm, meth, expires, uack, routes)
        p.start(w)
        ps.append(p)
        w.advance(0.05)
    nsent = len(w.sent)
    hist = []
    seen = {p.i: [] for p in ps}
    ncb = {p.i: 0 for p in ps}
    nsent = [nsent]

    def verify(what, exp_by_peer):
        """compare new observations with predictions, per transaction"""
        if w.errors:
            raise Violation('exception escaped: %s after %s' % (w.errors[0][0], hist), w.errors[0][1])
        new = w.sent[nsent[0]:]
        nsent[0] = len(w.sent)
        for p in ps:
            exp = exp_by_peer.get(p.i, [])
            got = []
            for t, raw, dest, srv in new:
                if ('Call-ID: ' + p.cid) in raw or Msg(raw).cid == p.cid:
                    got.append((t, 'send', raw, dest))
            for t, r in p.cbs[ncb[p.i]:]:
                got.append((t, 'cb', r, None))
            ncb[p.i] = len(p.cbs)
            got.sort(key=lambda x: (x[0], x[1] != 'send'))
            k = 0
            for e in exp:
                t, kind = e[0], e[1]
                g = got[k] if k < len(got) else None
                if kind == 'maybe-reack':
                    if g is not None and g[1] == 'send':
                        need(g[2] == p.ackraw, '%s: unexpected datagram %r', what, g[2][:60])
                        k += 1
                    continue
                if kind == 'maybe-cb':
                    if g is not None and g[1] == 'cb':
                        k += 1
                        p.ref.tout = t + p.ref.expires
                    continue
                need(g is not None, '%s: expected %s at +%.3f, nothing happened (history %s)', what, kind, t - p.t0, hist)
                need(abs(g[0] - t) < 1e-3, '%s: %s at +%.3f, expected at +%.3f (history %s)', what, kind, g[0] - p.t0, t - p.t0, hist)
                if kind == 'retr':
                    need(g[1] == 'send' and g[2] == p.raw and g[3] == p.dest, '%s: retransmission differs from the request (history %s)', what, hist)
                elif kind == '408':
                    need(g[1] == 'cb' and g[2].getSCode()[0] == 408, '%s: expected a local 408', what)
                    need(g[2].getHFBody('cseq').getCSeq() == p.m.cseq, '%s: 408 for the wrong request', what)
                elif kind == 'cb':
                    need(g[1] == 'cb', '%s: expected the response to be reported, got %r (history %s)', what, g, hist)
                    r = Msg(e[2])
                    need(g[2].getSCode() == (r.code, r.reason), '%s: reported %r', what, g[2].getSCode())
                    need((g[2].getBody() is None and not r.body) or str(g[2].getBody()) == r.body, '%s: body altered', what)
                    need(g[2].getHFBody('to').getTag() == r.ttag, '%s: to-tag altered', what)
                elif kind == 'ack':
                    need(g[1] == 'send', '%s: expected ACK first (history %s)', what, hist)
                    check_ack(p, g[2], g[3], e[2], True)
                    p.ackraw = g[2]
                    p.ackdest = g[3]
                elif kind == 'cancel':
                    need(g[1] == 'send', '%s: expected CANCEL (history %s)', what, hist)
                    check_cancel(p, g[2], g[3])
                    need(p.craw is None, 'second CANCEL')
                    p.craw = g[2]
                    p.cref = Ref('CANCEL', None, t, False)
                elif kind == 'cretr':
                    need(g[1] == 'send' and g[2] == p.craw and g[3] == p.dest, '%s: CANCEL retransmission differs (history %s)', what, hist)
                elif kind == 'reack':
                    need(g[1] == 'send' and g[2] == p.ackraw and g[3] == p.ackdest, '%s: repeated answer not acknowledged as before (history %s)', what, hist)
                k += 1
            if k < len(got):
                g = got[k]
                raise Violation('%s: unexpected %s at +%.3f: %s (history %s)' % (
                    what, g[1], g[0] - p.t0, g[2][:50] if g[1] == 'send' else g[2].getSCode(), hist))
        known = {p.cid for p in ps}
        for t, raw, dest, srv in new:
            need(Msg(raw).cid in known, '%s: datagram of nobody: %r', what, raw[:60])

    def advance(dt):
        w.advance(dt)
        now = sim.now()
        def auto(p):
            o = p.ref.until(now)
            if p.cref is not None:
                o += [(t, 'cretr') for t, k in p.cref.until(now) if k == 'retr']
                o.sort(key=lambda x: (x[0], x[1] == '408'))
            return o
        verify('after %.2f s' % dt, {p.i: auto(p) for p in ps})

    for step in range(depth):
        dt = ch.pick(delays, 1)
        advance(dt)
        opts = []
        for p in ps:
            for k in kinds:
                opts.append((p, k))
            for j in range(len(seen[p.i])):
                if seen[p.i][j] is not None:
                    opts.append((p, j))
            if p.ref.state == 'UACK':
                opts.append((p, 'ACK'))
            if cancel:
                if not p.cancelled and p.ref.state in ('TRYING', 'PROC'):
                    opts.append((p, 'CANCEL'))
                    opts.append((p, 'CANCELr'))
                if p.craw is not None:
                    opts.append((p, 'c200'))
                    opts.append((p, 'c481'))
        p, k = opts[ch.choose(len(opts))]
        now = sim.now()
        hist.append('%.2f:%s%s' % (dt, k, '' if len(ps) == 1 else '#%d' % p.i))
        if k == 'ACK':
            exp = [(now, 'ack', p.ref.final)]
            p.ref.ack(now)
            tm.sendACK(p.tr)
            verify('sendACK', {p.i: exp})
        elif k in ('CANCEL', 'CANCELr'):
            p.cancelled = True
            p.creason = k == 'CANCELr'
            exp = [(now, o) for o in p.ref.cancel()]
            tm.cancelTransaction(p.tr, **({'extra_headers': mkreason()} if p.creason else {}))
            verify('cancel', {p.i: exp})
        elif k in ('c200', 'c481'):
            raw = minisip.response(Msg(p.craw), int(k[1:]), 'Whatever', 'ta')
            p.cref.resp(int(k[1:]), raw, now)
            sim.deliver(w, tm, raw, p.dest)
            verify('answer to CANCEL', {})
        else:
            if isinstance(k, int):
                raw = seen[p.i][k]
            else:
                raw = mkresp(p, k, rrs)
                if raw in seen[p.i]:
                    raise Prune()
                seen[p.i].append(raw)
            if k == 'stray':
                exp = []
            else:
                exp = [(now, o, raw) for o in p.ref.resp(Msg(raw).code, raw, now)] if 'x\r' not in raw.split('\r\n')[1] + '\r' else []
            sim.deliver(w, tm, raw, p.dest)
            verify('delivery of %s' % k, {p.i: exp})
        ctx.step(hist[-1], (name, tuple((q.ref.state, len(q.ref.retr), round(q.ref.tout - sim.now(), 2), len(q.ref.dups)) for q in ps)))
    # drain: everything must resolve by itself
    for p in ps:
        if p.ref.state == 'UACK':
            exp = [(sim.now(), 'ack', p.ref.final)]
            p.ref.ack(sim.now())
            tm.sendACK(p.tr)
            verify('final sendACK', {p.i: exp})
    advance(700)
    n = len(w.timers) - base_timers
    need(n == 0, '%d timers left after everything ended: %s (history %s)', n, [t.name for t in w.timers], hist)
    need(not tm.tclient, 'transactions left: %r (history %s)', len(tm.tclient), hist)
    need(not tm.l1rcache and not tm.l2rcache, 'retransmission cache never emptied')
    ctx.outcome = (name, tuple(hist), tuple(p.ref.state for p in ps), tuple(len(p.cbs) for p in ps))
