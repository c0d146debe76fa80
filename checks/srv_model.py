"""C02/C03: server transactions, lockstep against a timed reference automaton."""
from common import *

sim.std_setup()
from sippy.SipRequest import SipRequest
from sippy.SipHeader import SipHeader
sim.seed_tokens()

EPS = 1e-6
RETR = [0.5, 1.5, 3.5, 7.5, 15.5, 31.5]

# name -> (via headers with %s for the branch, source, expected top via (hostport, extra params), response destination, nat flag)
VIAS = {
    'plain': (['SIP/2.0/UDP 192.0.2.9:5070;branch=%s'], ('192.0.2.9', 5070), {}, ('192.0.2.9', 5070), False),
    'received': (['SIP/2.0/UDP 192.168.1.5:5071;branch=%s'], ('192.0.2.9', 6000), {'received': '192.0.2.9'}, ('192.0.2.9', 5071), False),
    'rport': (['SIP/2.0/UDP 192.168.1.5:5071;rport;branch=%s'], ('192.0.2.9', 6001), {'received': '192.0.2.9', 'rport': '6001'}, ('192.0.2.9', 6001), False),
    'noport': (['SIP/2.0/UDP 192.0.2.9;branch=%s'], ('192.0.2.9', 5060), {}, ('192.0.2.9', 5060), False),
    'twovia': (['SIP/2.0/UDP 192.0.2.10:5080;branch=%s', 'SIP/2.0/UDP 192.0.2.11:5099;branch=z9hG4bKouter;received=1.2.3.4'],
               ('192.0.2.10', 5080), {}, ('192.0.2.10', 5080), False),
    'hostname': (['SIP/2.0/UDP host.example.com:5090;rport;branch=%s'], ('192.0.2.12', 7000), {'received': '192.0.2.12', 'rport': '7000'}, ('192.0.2.12', 7000), False),
    'nat': (['SIP/2.0/UDP 192.168.1.5:5071;branch=%s'], ('192.0.2.9', 6000), {'received': '192.0.2.9', 'rport': '6000'}, ('192.0.2.9', 6000), True),
}


def via_parts(v):
    h, *ps = [x.strip() for x in v.split(';')]
    d = {}
    for p in ps:
        k, _, x = p.partition('=')
        d[k] = x if _ else None
    return h, d


class Ref:
    def __init__(self, method, t0, expires):
        self.method = method
        self.inv = method == 'INVITE'
        self.state = 'PEND'
        self.last = None
        self.last_t = None
        self.retr = []
        self.tnoack = None
        self.texp = t0 + (expires if expires else 300) if self.inv else None
        self.acked = False
        self.totag = None
        self.killed = False

    def final(self, t):
        if self.inv:
            self.state = 'FINAL'
            self.retr = [t + x for x in RETR]
            self.tnoack = t + 32.0
        else:
            self.state = 'DONE'
        self.tfinal = self.last_t = t

    def until(self, t):
        o = []
        while True:
            if self.state == 'FINAL':
                if self.retr and self.retr[0] <= t + EPS:
                    o.append((self.retr.pop(0), 'again'))
                    continue
                if self.tnoack <= t + EPS:
                    o.append((self.tnoack, 'noack'))
                    self.state = 'DONE'
                    continue
            elif self.state in ('PEND', 'PROC') and self.inv and self.texp <= t + EPS:
                o.append((self.texp, '487x'))
                o.append((self.texp, 'cancelcb'))
                self.final(self.texp)
                continue
            break
        return o


class Leg:
    def __init__(self, i, via, method, expires, rr):
        self.i = i
        self.cid = 'srv%d@x' % i
        self.method = method
        vs, self.src, self.vx, self.dest, self.nat = VIAS[via]
        self.branch = 'z9hG4bKleg%d' % i
        vias = [v % self.branch if '%s' in v else v for v in vs]
        extra = [('Record-Route', x) for x in rr]
        if expires is not None:
            extra.append(('Expires', str(expires)))
        self.hdrs = dict(ruri='sip:bob@10.0.0.1', frm='<sip:alice@a.example>;tag=ft%d' % i, to='<sip:bob@10.0.0.1>')
        self.vias = vias
        self.cseq = 7 + i
        self.raw = minisip.request(method, 'sip:bob@10.0.0.1', self.hdrs['frm'], self.hdrs['to'], self.cid, self.cseq,
                                   None, None, contact='<sip:alice@192.0.2.9:5070>', extra=extra, vias=vias, body=minisip.sdp() if method == 'INVITE' else '')
        self.raw2 = self.raw.replace('Max-Forwards: 70', 'Max-Forwards: 69')
        self.m = Msg(self.raw)
        self.reqs = []
        self.cbs = []
        self.sip_t = None
        self.ref = None
        self.acks = {}
        self.cancelraw = None
        self.dup2 = False

    def mk(self, method, totag, branch=None, cseq=None):
        vias = list(self.vias)
        if branch:
            vias = [vias[0].replace(self.branch, branch)] + vias[1:]
        else:
            vias = [vias[0]]
        to = self.hdrs['to'] + (';tag=' + totag if totag else '')
        return minisip.request(method, 'sip:bob@10.0.0.1', self.hdrs['frm'], to, self.cid, cseq or self.cseq, None, None, vias=vias)


def check_resp(leg, raw, dest, code, what, totag=None, ofm=None):
    r = Msg(raw)
    m = ofm or leg.m
    need(not r.is_req and r.code == code, '%s: expected a %d, got %r', what, code, r.sl)
    need(dest == leg.dest, '%s: answer sent to %s, the Via path says %s', what, dest, leg.dest)
    need(r.get('from') == m.get('from') and r.cid == m.cid and r.get('cseq') == m.get('cseq'), '%s: From/Call-ID/CSeq altered', what)
    rv, mv = r.all('via'), m.all('via')
    need(len(rv) == len(mv) and rv[1:] == mv[1:], '%s: Via stack altered: %r', what, rv)
    h1, d1 = via_parts(rv[0])
    h2, d2 = via_parts(mv[0])
    d2.update(leg.vx)
    need((h1, d1) == (h2, d2), '%s: top Via %r, request had %r', what, rv[0], mv[0])
    need(minisip.uri(r.get('to')) == minisip.uri(m.get('to')), '%s: To altered', what)
    if code > 100 and not ofm:
        need(r.ttag, '%s: no To tag', what)
    if not ofm:
        need(r.all('record-route') == m.all('record-route'), '%s: Record-Route not copied', what)
    return r


def scen(ch, ctx, cfg):
    name, legs, expires, rr, mode, depth, codes, acts, delays = cfg
    w = sim.World()
    cur = {}

    def req_cb(req, sip_t):
        cid = str(req.getHFBody('call-id'))
        leg = cur.get(cid)
        if leg is None:
            raise Violation('application got a request nobody sent: %s' % cid)
        leg.reqs.append((sim.now(), req, sip_t))
        def cancel_cb(rtime, creq=None):
            leg.cbs.append((sim.now(), 'cancelcb', creq))
        def noack_cb(rtime=None):
            leg.cbs.append((sim.now(), 'noack', None))
        if mode == 'later':
            return (None, cancel_cb, noack_cb)
        resp = req.genResponse(mode, 'Now')
        return (resp, cancel_cb, noack_cb)
    tm = sim.mk_stm(w, req_cb)
    base = len(w.timers)
    w.advance(1.7)
    ls = []
    for i, (via, method) in enumerate(legs):
        l = Leg(i, via, method, expires, rr)
        ls.append(l)
        cur[l.cid] = l
        if l.nat:
            tm.nat_traversal = True
    nsent = [0]
    ncb = {l.i: 0 for l in ls}
    nreq = {l.i: 0 for l in ls}
    hist = []

    def verify(what, exp_by, exp_req=None):
        if w.errors:
            raise Violation('exception escaped: %s after %s' % (w.errors[0][0], hist), w.errors[0][1])
        new = w.sent[nsent[0]:]
        nsent[0] = len(w.sent)
        owned = 0
        for l in ls:
            exp = exp_by.get(l.i, [])
            got = []
            for t, raw, dest, srv in new:
                if Msg(raw).cid == l.cid:
                    owned += 1
                    got.append((t, 'send', raw, dest))
            for t, k, x in l.cbs[ncb[l.i]:]:
                got.append((t, k, x, None))
            ncb[l.i] = len(l.cbs)
            got.sort(key=lambda x: (x[0], x[1] != 'send'))
            want_req = 1 if exp_req is l else 0
            need(len(l.reqs) - nreq[l.i] == want_req, '%s: request handed to the application %d times, expected %d (history %s)',
                 what, len(l.reqs) - nreq[l.i], want_req, hist)
            nreq[l.i] = len(l.reqs)
            k = 0
            for e in exp:
                t, kind = e[0], e[1]
                g = got[k] if k < len(got) else None
                need(g is not None, '%s: expected %s at %.3f, nothing happened (history %s)', what, kind, t, hist)
                need(abs(g[0] - t) < 1e-3, '%s: %s at %.3f, expected %s at %.3f (history %s)', what, g[1], g[0], kind, t, hist)
                if kind == 'again':
                    need(g[1] == 'send' and g[2] == l.ref.last and g[3] == l.dest, '%s: expected the last answer repeated, got %r (history %s)', what, g[2][:60] if g[1] == 'send' else g[1], hist)
                elif kind == 'resp':
                    need(g[1] == 'send', '%s: no answer sent', what)
                    r = check_resp(l, g[2], g[3], e[2], what)
                    if l.ref.totag is None:
                        l.ref.totag = r.ttag
                    l.ref.last = g[2]
                elif kind == '487x':
                    need(g[1] == 'send', '%s: no 487', what)
                    r = check_resp(l, g[2], g[3], 487, what)
                    l.ref.last = g[2]
                    l.ref.totag = r.ttag
                elif kind == 'other':
                    need(g[1] == 'send', '%s: no answer sent', what)
                    check_resp(l, g[2], g[3], e[2], what, ofm=e[3])
                else:
                    need(g[1] == kind, '%s: expected %s, got %s (history %s)', what, kind, g[1] if g[1] != 'send' else g[2][:40], hist)
                k += 1
            if k < len(got):
                g = got[k]
                raise Violation('%s: unexpected %s (history %s)' % (what, g[2][:50] if g[1] == 'send' else g[1], hist))
        need(owned == len(new), '%s: datagram of nobody', what)

    def advance(dt):
        w.advance(dt)
        now = sim.now()
        verify('after %.2f s' % dt, {l.i: l.ref.until(now) if l.ref else [] for l in ls})

    def answer(l, code):
        req, sip_t = l.reqs[0][1], l.reqs[0][2]
        resp = req.genResponse(code, 'Answer')
        if l.ref.totag:
            resp.getHFBody('to').setTag(l.ref.totag)
        def ack_cb(areq):
            l.cbs.append((sim.now(), 'ackcb', areq))
        tm.sendResponse(resp, ack_cb=ack_cb)

    for step in range(depth):
        dt = ch.pick(delays, 1)
        advance(dt)
        now = sim.now()
        opts = []
        for l in ls:
            if l.ref is None:
                opts.append((l, 'REQ'))
                if 'CANCEL' in acts:
                    opts.append((l, 'CANCEL'))
                continue
            # a repeat is a repeat only while the protocol says so
            fresh = l.ref.state in ('PEND', 'PROC') or now - l.ref.last_t < 31.9
            if fresh:
                opts.append((l, 'DUP'))
            if l.ref.state in ('PEND', 'PROC'):
                if not l.dup2:
                    opts.append((l, 'DUP2'))    # same transaction, other bytes
                for c in codes:
                    opts.append((l, c))
            if l.ref.inv:
                for a in acts:
                    if a == 'ACK' and l.ref.state in ('FINAL', 'DONE'):
                        opts.append((l, 'ACK'))
                        opts.append((l, 'ACK2'))
                    elif a == 'ACKx':
                        opts.append((l, 'ACKx'))
                    elif a == 'CANCEL':
                        opts.append((l, 'CANCEL'))
                        opts.append((l, 'CANCELx'))
            if 'stray' in acts:
                opts.append((l, 'stray'))
        l, k = opts[ch.choose(len(opts))]
        hist.append('%.2f:%s%s' % (dt, k, '' if len(ls) == 1 else '#%d' % l.i))
        if k == 'REQ':
            l.ref = Ref(l.method, now, expires)
            sim.deliver(w, tm, l.raw, l.src)
            if mode == 'later':
                exp = []
            else:
                exp = [(now, 'resp', mode)]
                if mode >= 200:
                    l.ref.final(now)
                else:
                    l.ref.state = 'PROC'
                l.ref.last_t = now
            verify('request', {l.i: exp}, l)
        elif k in ('DUP', 'DUP2'):
            sim.deliver(w, tm, l.raw if k == 'DUP' else l.raw2, l.src)
            verify('repeated request', {l.i: [(now, 'again')] if l.ref.last else []})
            if k == 'DUP2':
                l.dup2 = True
        elif isinstance(k, int):
            answer(l, k)
            if k >= 200:
                l.ref.final(now)
            else:
                l.ref.state = 'PROC'
            l.ref.last_t = now
            verify('answer %d' % k, {l.i: [(now, 'resp', k)]})
        elif k in ('ACK', 'ACK2'):
            branch = 'z9hG4bKack%d' % step if k == 'ACK2' else None
            raw = l.mk('ACK', l.ref.totag, branch)
            live = l.ref.state == 'FINAL'
            sim.deliver(w, tm, raw, l.src)
            # 487 made by the transaction layer has nobody waiting for its ACK
            verify('ACK', {l.i: [(now, 'ackcb')] if live and l.ref.last is not None and 'Answer' in l.ref.last.split('\r\n')[0] else []})
            if live:
                l.ref.state = 'DONE'
        elif k == 'ACKx':
            raw = l.mk('ACK', 'nosuchtag')
            sim.deliver(w, tm, raw, l.src)
            verify('stray ACK', {})
        elif k == 'stray':
            raw = minisip.response(Msg(l.raw), 200, 'OK', 'tz')
            sim.deliver(w, tm, raw, l.src)
            verify('stray response', {})
        elif k in ('CANCEL', 'CANCELx'):
            if k == 'CANCEL':
                if l.cancelraw is not None and now - l.tcancel > 31.9:
                    raise Prune()
                raw = l.mk('CANCEL', None)
            else:
                raw = l.mk('CANCEL', None, 'z9hG4bKother%d' % step)
            m = Msg(raw)
            if k == 'CANCEL' and l.cancelraw == raw:
                # repeated CANCEL: the answer it got before
                exp = [(now, 'other', l.cancelcode, m)]
            elif k == 'CANCEL' and l.ref is not None and l.ref.state in ('PEND', 'PROC'):
                exp = [(now, 'other', 200, m), (now, '487x'), (now, 'cancelcb')]
                l.ref.final(now)
                l.ref.last_t = now
                l.cancelraw, l.cancelcode, l.tcancel = raw, 200, now
            else:
                exp = [(now, 'other', 481, m)]
                if k == 'CANCEL':
                    l.cancelraw, l.cancelcode, l.tcancel = raw, 481, now
            sim.deliver(w, tm, raw, l.src)
            verify('CANCEL', {l.i: exp})
        for q in ls:
            if q.ref is not None and q.ref.state in ('FINAL', 'DONE') and q.ref.last_t is None:
                q.ref.last_t = q.ref.tfinal
        ctx.step(hist[-1], (name, tuple((q.ref and (q.ref.state, len(q.ref.retr), q.ref.last is not None)) for q in ls)))
    advance(700)
    for l in ls:
        if l.ref and l.ref.state in ('PEND', 'PROC') and not l.ref.inv:
            answer(l, 200)
            l.ref.state = 'DONE'
            verify('closing answer', {l.i: [(sim.now(), 'resp', 200)]})
    advance(200)
    need(len(w.timers) == base, 'timers left: %s (history %s)', [t.name for t in w.timers], hist)
    need(not tm.tserver, 'transactions left (history %s)', hist)
    need(not tm.l1rcache and not tm.l2rcache, 'retransmission cache never emptied')
    ctx.outcome = (name, tuple(hist), tuple(l.ref and l.ref.state for l in ls))


def loop_scen(ch, ctx, cfg):
    """requests whose Via stack shows a transaction of our own are refused with 482"""
    import cli_model as cm
    w = sim.World()
    got = []
    tm = sim.mk_stm(w, lambda req, t: got.append(req) or (None, None, None))
    p = cm.Peer(0, tm, cfg[0], None, False, ())
    m = Msg(w.sent[-1][1])
    own = m.get('via')
    n = len(w.sent)
    pos = ch.choose(4)
    above = ['SIP/2.0/UDP 192.0.2.3%d:5060;branch=z9hG4bKabove%d' % (i, i) for i in range(pos)]
    below = ['SIP/2.0/UDP 192.0.2.40:5060;branch=z9hG4bKbelow'] if ch.choose(2) else []
    kind = ch.pick(['own', 'otherbranch', 'othercid', 'othermethod', 'finished'])
    v = own if kind not in ('otherbranch',) else own.replace('z9hG4bK', 'z9hG4bKz')
    method = m.method if kind != 'othermethod' else ('MESSAGE')
    cid = m.cid if kind != 'othercid' else 'elsewhere@x'
    if kind == 'finished':
        sim.deliver(w, tm, minisip.response(m, 404, 'Gone', 'x'), cm.PEER)
    n = len(w.sent)
    raw = minisip.request(method, m.ruri, m.get('from'), m.get('to'), cid, m.cseq[0], None, None, vias=above + [v] + below)
    src = ('192.0.2.30', 5060) if pos else ('10.0.0.1', 5060)
    sim.deliver(w, tm, raw, src)
    if w.errors:
        raise Violation('exception escaped', w.errors[0][1])
    new = [Msg(s[1]) for s in w.sent[n:]]
    ctx.step('%s pos=%d below=%d' % (kind, pos, len(below)), (kind, pos, len(below)))
    if kind == 'own':
        need(not got and len(new) == 1 and new[0].code == 482, 'looped request: %r, delivered %d', new, len(got))
        need(new[0].cid == m.cid and len(new[0].all('via')) == len(above) + 1 + len(below), 'bad 482')
        # repeats of it are answered the same way
        sim.deliver(w, tm, raw, src)
        need(not got and [Msg(s[1]).code for s in w.sent[n:]] == [482, 482], 'repeat of looped request')
    else:
        need(len(got) == 1 and not new, 'request of kind %s: delivered %d, answers %r', kind, len(got), new)
    ctx.outcome = (kind, pos, len(below), method)
