"""C19: the stateful proxy between its clients and the place it serves."""
from common import *
sim.std_setup()
sim.load('sippy.StatefulProxy')
from sippy.StatefulProxy import StatefulProxy
import sippy.StatefulProxy as _sp
import itertools, re
from minisip import Msg
_sp.print = lambda *a, **k: None
for _m in list(sys.modules.values()):
    if getattr(_m, '__name__', '').startswith('sippy') and hasattr(_m, 'dump_exception'):
        _m.dump_exception = lambda *a, **k: None
sim.seed_tokens()
DST = ('192.0.2.9', 5070)
C1, C2 = ('192.0.2.1', 5061), ('192.0.2.2', 5060)
RETR = [0.5, 1.5, 3.5, 7.5, 15.5, 31.5]
ME = ('10.0.0.1', 5060)


def vias(m):
    return [x.strip() for v in m.all('via') for x in v.split(',')]


def vp(v):
    """(sent-by host, port, {params})"""
    a, *ps = [x.strip() for x in v.split(';')]
    hp = a.split()[-1]
    h, _, p = hp.partition(':')
    return h, int(p) if p else 5060, dict((x.partition('=')[0], x.partition('=')[2]) for x in ps)


def rest(m, skip=()):
    """everything else, each header with its values in order"""
    d = {}
    for n, v in m.h:
        if n in ('via', 'content-length', 'max-forwards') + tuple(skip):
            continue
        d.setdefault(n, []).append(re.sub(r'\s*([,;])\s*', r'\1', v))
    return {n: ','.join(v) for n, v in d.items()}, m.body


def newtm(req_cb=None):
    w = sim.World()
    gc_ = {}
    tm = sim.mk_stm(w, None, config=gc_)
    p = StatefulProxy(gc_, DST)
    tm.req_cb = lambda r, t: p.recvRequest(r)
    w.advance(0.1)
    return w, tm


class Tx:
    """what is due for one request"""
    def __init__(self, n, raw, src):
        self.n, self.raw, self.m, self.src = n, raw, Msg(raw), src
        self.state = 'new'
        self.last = None        # the last thing said to the client
        self.fwd = None
        self.fwdraw = None
        self.due = []
        self.end = None


class Net:
    def __init__(self, cfg):
        self.w, self.tm = newtm()
        self.base = len(self.w.timers)
        self.n = 0
        self.hist = []
        self.txs = []

    def out(self):
        o = self.w.sent[self.n:]
        self.n = len(self.w.sent)
        if self.w.errors:
            need(False, 'exception escaped: %s after %s', self.w.errors[0][0], self.hist)
        return o

    def arrive(self, t):
        first = t.state == 'new'
        sim.deliver(self.w, self.tm, t.raw, t.src)
        o = self.out()
        if first:
            mf = t.m.get('max-forwards')
            if mf == '0':
                need(len(o) == 1 and not Msg(o[0][1]).is_req and Msg(o[0][1]).code == 483, 'sent %s for Max-Forwards of 0', [x[1].split('\r\n')[0] for x in o])
                t.state = 'refused'
                t.last = o[0][1]
                self.check_back(t, o[0], None)
                return
            need(len(o) == 1, '%s %s: %d datagrams sent (%s)', t.m.method, t.n, len(o), [x[1].split('\r\n')[0] for x in o])
            self.check_fwd(t, o[0])
            t.state = 'trying'
            t0 = sim.now()
            t.due = [t0 + x for x in RETR]
            t.end = t0 + 32.0
        elif t.last is None:
            need(not o, 'a repeated request had effects: %s (%s)', [x[1].split('\r\n')[0] for x in o], self.hist)
        else:
            need(len(o) == 1 and o[0][1] == t.last and o[0][2] == t.back, 'a repeated request was answered %s instead of %s again (%s)', [x[1].split('\r\n')[0] for x in o], t.last.split('\r\n')[0], self.hist)

    def check_fwd(self, t, x):
        m, r = Msg(x[1]), t.m
        need(x[2] == DST, 'passed on to %s', x[2])
        need(m.sl == r.sl, 'passed on as %r instead of %r', m.sl, r.sl)
        a, b = vias(m), vias(r)
        need(len(a) == len(b) + 1, 'Vias %s of %s', a, b)
        h, p, ps = vp(a[0])
        need((h, p) == ME and ps.get('branch', '').startswith('z9hG4bK'), 'own Via %s', a[0])
        need(ps['branch'] not in [vp(v)[2].get('branch') for v in b] + [vp(vias(Msg(y.fwdraw))[0])[2]['branch'] for y in self.txs if y.fwdraw], 'branch %s is not new', ps['branch'])
        need([vp(v) for v in a[2:]] == [vp(v) for v in b[1:]], 'Vias %s of %s', a, b)
        o, n = vp(b[0]), vp(a[1])
        need(n[:2] == o[:2], 'Via %s became %s', b[0], a[1])
        ex = dict(o[2])
        if o[0] != t.src[0]:
            ex['received'] = t.src[0]
        if 'rport' in ex:
            ex['rport'] = str(t.src[1])
        need(n[2] == ex, 'Via %s became %s', b[0], a[1])
        mf = r.get('max-forwards')
        need(m.all('max-forwards') == [str(int(mf) - 1)] if mf is not None else m.get('max-forwards') == '70', 'Max-Forwards %s became %s', mf, m.all('max-forwards'))
        want, body = rest(r, ('path', 'supported'))
        got, gb = rest(m, ('path', 'supported'))
        need(got == want and gb == body, 'passed on with %s instead of %s', (got, gb), (want, body))
        caps = lambda q: [y.strip() for v in q.all('supported') for y in v.split(',')]
        need(caps(m) == caps(r), 'Supported %s became %s', caps(r), caps(m))
        pl = lambda q: [y.strip() for v in q.all('path') for y in v.split(',')]
        pm, pr = pl(m), pl(r)
        if r.method == 'REGISTER' and 'path' in caps(r):
            need(pm[1:] == pr and len(pm) == len(pr) + 1, 'Path %s became %s', pr, pm)
            u = minisip.uri(pm[0])
            hp, *ups = u.split(';')
            need(hp in ('sip:10.0.0.1', 'sip:10.0.0.1:5060') and 'lr' in ups, 'own Path is %s', pm[0])
        else:
            need(pm == pr, 'Path %s became %s', pr, pm)
        t.fwd, t.fwdraw = m, x[1]

    def check_back(self, t, x, resp):
        """a response on its way to the client"""
        t.seen = sim.now()
        o = vp(vias(t.m)[0])
        h = t.src[0] if o[0] != t.src[0] else o[0]
        p = t.src[1] if 'rport' in o[2] else o[1]
        t.back = (h, p)
        need(x[2] == t.back, 'answer sent to %s instead of %s (%s)', x[2], t.back, self.hist)
        m = Msg(x[1])
        if resp is None:
            return
        r = Msg(resp)
        need(m.sl == r.sl, 'answered %r instead of %r (%s)', m.sl, r.sl, self.hist)
        need([vp(v) for v in vias(m)] == [vp(v) for v in vias(r)[1:]], 'Vias of the answer %s, were %s', vias(m), vias(r))
        (a, ab), (b, bb) = rest(m, ('to',)), rest(r, ('to',))
        need(a == b and ab == bb, 'answer with %s instead of %s (%s)', (a, ab), (b, bb), self.hist)
        need(minisip.uri(m.get('to')) == minisip.uri(r.get('to')) and (r.ttag is None or r.ttag == m.ttag), 'To %s became %s', r.get('to'), m.get('to'))

    def respond(self, t, code, reason='R', extra=(), body='', raw=None, tag=None):
        if raw is None:
            raw = minisip.response(t.fwd, code, reason, (tag or 'dt%d' % t.n) if code > 100 else None, extra=extra, body=body)
        live = t.state in ('trying', 'proc')
        seen = raw in getattr(t, 'resps', ())
        t.resps = getattr(t, 'resps', ()) + (raw,)
        sim.deliver(self.w, self.tm, raw, DST)
        o = self.out()
        if not live or seen:
            need(not o, 'a late or repeated %d was passed on: %s (%s)', code, [x[1].split('\r\n')[0] for x in o], self.hist)
            return
        if code == 100 and not o:
            pass
        else:
            need(len(o) == 1, '%d datagrams for a %d (%s)', len(o), code, self.hist)
            self.check_back(t, o[0], raw)
            t.last = o[0][1]
        t.due = []
        if code >= 200:
            t.state = 'done'
            t.end = None
        else:
            t.state = 'proc'
            t.end = sim.now() + 32.0

    def advance(self, dt):
        to = sim.now() + dt
        while 1:
            evs = [(x, t) for t in self.txs for x in t.due[:1]] + [(t.end, t) for t in self.txs if t.end is not None]
            evs = [e for e in evs if e[0] <= to]
            at = min(e[0] for e in evs) if evs else to
            self.w.advance(max(0, at - 0.01 - sim.now()))
            need(not self.out(), 'something was sent (%s)', self.hist)
            if not evs:
                self.w.advance(to - sim.now())
                need(not self.out(), 'something was sent (%s)', self.hist)
                return
            self.w.advance(at + 0.01 - sim.now())
            o = self.out()
            for e, t in evs:
                if e > at + 0.01:
                    continue
                if e == t.end:
                    x = [y for y in o if not Msg(y[1]).is_req and Msg(y[1]).cid == t.m.cid and Msg(y[1]).cseq == t.m.cseq and Msg(y[1]).branch == vp(vias(t.m)[0])[2]['branch']]
                    need(len(x) == 1 and Msg(x[0][1]).code == 408, 'no timeout answer but %s (%s)', [y[1].split('\r\n')[0] for y in o], self.hist)
                    m = Msg(x[0][1])
                    need([vp(v)[2].get('branch') for v in vias(m)] == [vp(v)[2].get('branch') for v in vias(t.m)], 'Vias of the timeout answer: %s', vias(m))
                    self.check_back(t, x[0], None)
                    t.last = x[0][1]
                    t.state = 'done'
                    t.end, t.due = None, []
                else:
                    x = [y for y in o if y[1] == t.fwdraw and y[2] == DST]
                    need(len(x) == 1, 'the request was not repeated (%s)', self.hist)
                    t.due.pop(0)
                o.remove(x[0])
            need(not o, 'something was sent: %s (%s)', [y[1].split('\r\n')[0] for y in o], self.hist)
            if sim.now() >= to:
                return

    def finish(self):
        self.advance(80)
        need(not self.tm.tclient and not self.tm.tserver, 'transactions left behind: %s %s (%s)', list(self.tm.tclient), list(self.tm.tserver), self.hist)
        need(len(self.w.timers) <= self.base, 'timers left behind (%s)', self.hist)


def mk(n, method, src, cid=None, cseq=1, branch=None, vhost=None, rport=False, more=(), joined=False, mf='70', extra=(), body='', ftag=None):
    v = ['SIP/2.0/UDP %s;branch=%s%s' % (vhost or '%s:%d' % src, branch or 'z9hG4bKc%d' % n, ';rport' if rport else '')] + list(more)
    if joined:
        v = [', '.join(v)]
    ct = 'application/x-y'
    return minisip.request(method, 'sip:example.org;x=1' if method == 'REGISTER' else 'sip:bob@example.org:5080', '"A, B" <sip:a@example.org>;tag=%s' % (ftag or 'f%d' % n), '<sip:a@example.org>', cid or 'cid%d@x' % n, cseq, None, None,
                           contact='<sip:a@%s:%d>' % src, extra=[('Expires', '300'), ('X-Odd', 'a;b="c,d"'), ('Allow', 'INVITE, ACK')] + list(extra), body=body, ctype=ct, mf=mf, vias=v)


def hist(ch, ctx, cfg):
    """two or more requests on their way at once"""
    net = Net(cfg)
    ms = cfg['methods']
    plans = []
    for i, kind in enumerate(cfg['reqs']):
        m = ms[i % len(ms)]
        if kind == 'a':
            r, s = mk(1, m, C1), C1
        elif kind == 'b':
            r, s = mk(2, m, C2, rport=True, vhost='10.1.1.1:5999', more=['SIP/2.0/UDP 10.2.2.2;branch=z9hG4bKx']), C2
        elif kind == 'next':      # the next one of the same client and call
            r, s = mk(3, m, C1, cid='cid1@x', cseq=2, ftag='f1'), C1
        elif kind == 'fork':      # the same request on another path
            r, s = mk(4, m, C2, cid='cid1@x', cseq=1, ftag='f1', branch='z9hG4bKother'), C2
        plans.append(Tx(i, r, s))
    net.txs = plans
    for i in range(cfg['depth']):
        acts = []
        for t in plans:
            if t.state == 'new':
                acts.append(('req', t))
                continue
            if t.state in ('trying', 'proc') or sim.now() - t.seen < 30:
                acts.append(('req', t))
            if t.fwd is not None:
                for c in cfg['codes']:
                    acts.append(('resp', t, c))
                if getattr(t, 'resps', ()):
                    acts.append(('again', t))
        acts += [('t', x) for x in cfg['times']]
        if len(plans) == 1 or any(t.state != 'new' for t in plans):
            acts.append(('cancel', plans[0]))
            acts.append(('stray', plans[0]))
        a = acts[ch.choose(len(acts))]
        net.hist.append((a[0],) + tuple(x if not isinstance(x, Tx) else x.n for x in a[1:]))
        if a[0] == 'req':
            net.arrive(a[1])
        elif a[0] == 'resp':
            net.respond(a[1], a[2], extra=[('Contact', '<sip:z@z>;expires=9')] if a[2] == 200 else [('X-N', str(i))] if i % 2 else ())
        elif a[0] == 'again':
            r = a[1].resps[-1]
            net.respond(a[1], Msg(r).code, raw=r)
        elif a[0] == 't':
            net.advance(a[1])
        elif a[0] == 'cancel':
            t = a[1]
            raw = minisip.request('CANCEL', t.m.ruri, t.m.get('from'), t.m.get('to'), t.m.cid, t.m.cseq[0], None, None, vias=[vias(t.m)[0]])
            sim.deliver(net.w, net.tm, raw, t.src)
            o = net.out()
            need(len(o) <= 1 and all(not Msg(x[1]).is_req and x[2] == t.src for x in o), 'CANCEL: %s', [(x[1].split('\r\n')[0], x[2]) for x in o])
        elif a[0] == 'stray':
            t = plans[0]
            if t.fwdraw:
                raw = re.sub(r'(;branch=z9hG4bK)', r'\1zz', minisip.response(t.fwd, 200, 'OK', 'x'), count=1)
                sim.deliver(net.w, net.tm, raw, DST)
                need(not net.out(), 'a response to nothing was passed on (%s)', net.hist)
        ctx.step(str(net.hist[-1]), (cfg['name'], tuple((t.state, t.last is not None, len(t.due)) for t in plans), net.hist[-1]))
    ctx.outcome = str(sorted(t.state for t in plans))
    net.finish()


def inputs(ch, ctx, cfg):
    """everything a request or response can carry"""
    method = cfg['method']
    net = Net(cfg)
    src = C1
    o = dict(vhost=ch.pick([None, '192.0.2.1', '10.9.9.9', '10.9.9.9:6000']), rport=ch.pick([False, True]))
    o['more'] = ch.pick([(), ('SIP/2.0/UDP 10.3.3.3:5099;branch=z9hG4bKm1',), ('SIP/2.0/UDP 10.3.3.3:5099;branch=z9hG4bKm1', 'SIP/2.0/TCP h.example.org;received=1.2.3.4;branch=z9hG4bKm2')])
    o['joined'] = ch.pick([False, True]) if o['more'] else False
    o['mf'] = ch.pick([None, '0', '1', '2', '70', '255'] if not o['more'] else ['1', '70'])
    sup = ch.pick([(), ('path',), ('timer, path', ), ('timer',), ('timer', 'path'), ('path', '100rel')])
    path = ch.pick([(), ('<sip:e1;lr>',), ('<sip:e1;lr>', '<sip:e2:5099;lr;x=1>'), ('<sip:e1;lr>,<sip:e2;lr>',)]) if method == 'REGISTER' or not sup else ()
    o['extra'] = [('Supported', x) for x in sup] + [('Path', x) for x in path]
    o['body'] = ch.pick(['', 'x: y\r\n\r\nz'])
    t = Tx(0, mk(1, method, src, **o), src)
    net.txs = [t]
    net.arrive(t)
    net.arrive(t)
    ctx.step('request', (method, str(o)))
    if t.fwd is not None:
        k = ch.choose(3)
        if k == 1:
            net.respond(t, 183, 'Session, "odd" Progress')
        code = (200, 200, 404)[k]
        net.respond(t, code, 'OK 2', extra=[('Contact', '<sip:a@b>;expires=5, "Q" <sip:c@d>'), ('Service-Route', '<sip:s;lr>'), ('WWW-Authenticate', 'Digest realm="a", nonce="b"')], body='b\r\n' if k == 0 else '')
        net.arrive(t)
        net.respond(t, 500, 'late')
    ctx.outcome = '%s %s' % (method, t.state)
    net.finish()


ODD = [('mf', 'x'), ('mf', '-3'), ('mf', ''), ('mf', '9' * 30), ('Supported', ''), ('Supported', ','), ('Path', '<'), ('Path', ''), ('Route', '<sip:r;lr>'), ('Route', '<'), ('Require', 'path'), ('Expires', 'x'), ('Contact', '*'), ('Contact', '<')]


def odd(ch, ctx, cfg):
    """what cannot be made sense of is passed on or refused, and nothing stays behind"""
    net = Net(cfg)
    k, v = ch.pick(ODD)
    e = [(k, v)] + ([('Supported', 'path')] if k == 'Path' else [])
    raw = mk(1, cfg['method'], C1, **(dict(mf=v) if k == 'mf' else dict(extra=e)))
    sim.deliver(net.w, net.tm, raw, C1)
    del net.w.errors[:]         # the network layer drops it
    o = net.out()
    ctx.step('%s %r' % (k, v), (k, v, [x[1].split(' ')[0] for x in o] == []))
    need(len(o) <= 1, '%d datagrams for one with %s: %r', len(o), k, v)
    if o and Msg(o[0][1]).is_req:
        need(o[0][2] == DST, 'passed on to %s', o[0][2])
        m = Msg(o[0][1])
        if ch.choose(2):
            sim.deliver(net.w, net.tm, minisip.response(m, 200, 'OK', 'x'), DST)
            b = net.out()
            need(len(b) == 1 and b[0][2] == C1 and Msg(b[0][1]).code == 200, 'answer got lost: %s', b)
            if k not in ('mf',):
                w, g = Msg(raw), m
                need([x for n, x in w.h if n == k.lower()][:1] == [x for n, x in g.h if n == k.lower()][-1:] or k == 'Path' or k in ('Expires', 'Contact'), '%s: %r became %r', k, v, g.all(k.lower()))
    elif o:
        need(Msg(o[0][1]).code >= 400 and o[0][2] == C1, 'answered %s', o[0])
    ctx.outcome = '%s' % (o and o[0][1].split(' ')[0])
    net.txs = []
    net.w.advance(100)
    net.out()
    net.finish()


def b2b(ch, ctx, cfg):
    """the proxy as part of the B2BUA: what goes through it, while a call is on"""
    import b2b_model as bm
    br = bm.Bridge(dict(conf=[('static_route', '5552@%s:%d' % bm.CALLEES['1']), ('auth_enable', 'off')]))
    w = br.w
    if cfg['proxy']:
        br.cmap.proxy = StatefulProxy(br.gc, DST)
    leg = br.call()
    br.pump()
    o = br.legs[-1]
    o.answer(200, bm.SDP['B'])
    br.pump()
    src = ('192.0.2.60', 5066)
    method = ch.pick(['REGISTER', 'SUBSCRIBE', 'NOTIFY', 'PING', 'OPTIONS', 'MESSAGE', 'PUBLISH', 'INFO'])
    n0 = len(w.sent)
    raw = mk(9, method, src)
    sim.deliver(w, br.tm, raw, src)
    got = w.sent[n0:]
    fwd = cfg['proxy'] and method in ('REGISTER', 'SUBSCRIBE')
    need(len(got) == 1, '%s: %d datagrams', method, len(got))
    m = Msg(got[0][1])
    if fwd:
        need(m.is_req and got[0][2] == DST and m.method == method, '%s became %s to %s', method, m.sl, got[0][2])
        code = ch.pick([200, 403, 302])
        sim.deliver(w, br.tm, minisip.response(m, code, 'X', 'tt', extra=[('X-A', 'b')]), DST)
        got = w.sent[n0 + 1:]
        need(len(got) == 1 and got[0][2] == src, '%s: answer sent to %s', method, [x[2] for x in got])
        m = Msg(got[0][1])
        need(m.code == code and m.reason == 'X' and m.get('x-a') == 'b' and vias(m) == vias(Msg(raw)), '%s: answered %s', method, got[0][1])
    else:
        need(not m.is_req and got[0][2] == src, '%s became %s to %s', method, m.sl, got[0][2])
        need(m.code == (200 if method in ('NOTIFY', 'PING') else 501), '%s: answered %s', method, m.sl)
    ctx.step(method, (cfg['proxy'], method, m.sl))
    del w.sent[n0:]
    br.nsent = n0
    leg.reinvite(bm.SDP['C'])
    br.pump()
    need(o.pend is not None, 'the call does not go on')
    o.answer_re(200, bm.SDP['D'])
    br.pump()
    leg.bye()
    br.pump()
    br.quiet_end(140.0)
    ctx.outcome = method


if __name__ == '__main__':
    def body():
        c = Check('C19', 'model_checking')
        q = c.q
        c.explore('contents', inputs, [dict(method=m) for m in ('REGISTER', 'SUBSCRIBE')])
        c.explore('odd requests', odd, [dict(method=m) for m in ('REGISTER', 'SUBSCRIBE')])
        c.explore('in the B2BUA', b2b, [dict(proxy=p) for p in (True, False)])
        codes = (100, 200, 401)
        times = (0.3, 4.0, 33.0)
        c.explore('histories', hist, [
            dict(name='one', reqs=('a',), methods=('REGISTER',), codes=(100, 180, 200, 302, 503), times=(0.3, 4.0, 20.0, 33.0), depth=q(5, 6)),
            dict(name='sub', reqs=('b',), methods=('SUBSCRIBE',), codes=(202, 489), times=times, depth=q(4, 5)),
            dict(name='two', reqs=('a', 'b'), methods=('REGISTER', 'SUBSCRIBE'), codes=codes, times=times, depth=q(4, 5)),
            dict(name='next', reqs=('a', 'next'), methods=('REGISTER',), codes=(200, 401), times=(4.0, 33.0), depth=q(4, 5)),
            dict(name='fork', reqs=('a', 'fork'), methods=('SUBSCRIBE',), codes=(200, 401), times=(4.0, 33.0), depth=q(4, 5)),
            dict(name='long', reqs=('a', 'b'), methods=('REGISTER',), codes=(200,), times=(0.6,), depth=q(12, 30), cycle=3),
            dict(name='three', reqs=('a', 'b', 'next'), methods=('REGISTER',), codes=(200,), times=(0.6,), depth=q(4, 6)),
        ])
        c.finish()
    main(body)
