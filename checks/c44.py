"""C44: the UDP transport under every schedule within the preemption bound: real sending and receiving threads over a
stand-in socket that fails where the explorer says; and the same server on real sockets."""
from common import *
import errno, socket as _socket, types
sim.virtualize_dispatcher()
import sched
from sched import Sched
nets = sched.load_with_stubs('sippy.Network_server')
us = sched.load_with_stubs('sippy.Udp_server')
FILES = {us.__file__, nets.__file__}
for m in (us, nets):
    m.dump_exception = lambda *a, **k: None
I4, I6 = _socket.AF_INET, _socket.AF_INET6
ME = {I4: ('192.0.2.1', 5060), I6: ('[2001:db8::1]', 5060)}
NAMES = {'peer.example.com': '192.0.2.50', 'peer6.example.com': '2001:db8::50', '[peer6.example.com]': '2001:db8::50'}


def must(ok, *a):
    # the code under test swallows what sockets raise
    try:
        need(ok, *a)
    except Violation as e:
        Env.cur.bad = Env.cur.bad or e
        raise


class Env:
    cur = bad = None

    def __init__(self, ch, cfg, w):
        Env.cur = self
        self.ch, self.cfg, self.w = ch, cfg, w
        self.faults = cfg.get('faults', 0)
        self.out, self.inbox, self.dropped, self.socks, self.tries = [], [], [], [], 0

    def fault(self, kind, m):
        if self.faults <= 0 or kind not in self.cfg.get('kinds', ('send', 'recv')):
            return None
        f = m[self.ch.choose(len(m))]
        if f:
            self.faults -= 1
        return f


class Sock:
    def __init__(self, family=I4, type=_socket.SOCK_STREAM, *a):
        must(type == _socket.SOCK_DGRAM, 'socket type %s', type)
        self.family, self.bound, self.down, self.closed = family, None, False, False
        self.empty = self.spurious = 0
        Env.cur.socks.append(self)

    def setsockopt(self, *a):
        pass

    def bind(self, addr):
        must(self.bound is None and '[' not in addr[0], 'bound to %s', addr)
        self.bound = addr

    def getsockname(self):
        return self.bound

    def sendto(self, data, addr, *a):
        E = Env.cur
        Sched.cur.point('sendto')
        must(isinstance(data, bytes), 'text sent: %r', data)
        must(not self.closed, 'sent by a closed socket')
        must(len(addr) == (4 if self.family == I6 else 2) and '[' not in addr[0] and addr[0] not in NAMES, 'sent to %s', addr)
        E.tries += 1
        if E.cfg.get('full'):
            raise OSError(errno.EAGAIN, 'full')
        f = E.fault('send', (None, 'EAGAIN', 'ENOBUFS', 'EPERM', 'ENETUNREACH'))
        if f:
            if f not in ('EAGAIN', 'ENOBUFS'):
                E.dropped.append(data)
            raise OSError(getattr(errno, f), f)
        E.out.append((data, addr[:2], self))
        return len(data)

    def recvfrom(self, n, *a):
        E = Env.cur
        must(n >= 8192, 'only %d octets of a datagram are taken', n)
        if not self.down:
            Sched.cur.point('recvfrom', lambda: E.inbox or self.down or self.closed)
        if self.closed:
            raise OSError(errno.EBADF, 'closed')
        if self.down:
            # that is how Linux tells
            self.empty += 1
            must(self.empty < 2000, 'socket shut down is read forever')
            return b'', None
        if E.cfg.get('empties') and self.spurious < E.cfg['empties']:
            # happens on Linux, says the code
            self.spurious += 1
            return b'', None
        self.spurious = 0
        f = E.fault('recv', (None, 'EINTR', 'ENOBUFS', 'ENOMEM', 'odd'))
        if f == 'odd':
            raise RuntimeError('odd')
        if f:
            raise OSError(getattr(errno, f), f)
        data, addr = E.inbox.pop(0)
        return data, addr + (0, 0) if self.family == I6 else addr

    def shutdown(self, how):
        self.down = True
        raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')

    def close(self):
        self.closed = True


def getaddrinfo(host, port, family=0, *a, **k):
    must('[' not in host, 'looking up %s', host)
    if host == 'nowhere.example.com':
        raise _socket.gaierror(-2, 'Name or service not known')
    ip = NAMES.get(host, host)
    if family not in (0, I6 if ':' in ip else I4):
        raise _socket.gaierror(-9, 'Address family for hostname not supported')
    return [(family, 2, 17, '', (ip, port or 0) + ((0, 0) if ':' in ip else ()))]


fake = types.SimpleNamespace(**{k: getattr(_socket, k) for k in dir(_socket) if not k.startswith('__')})
fake.socket, fake.getaddrinfo = Sock, getaddrinfo
us.socket = fake


def nap(t=0):
    sim._now[0] += t
    Sched.cur.point('sleep')


us.sleep = nap


def dests(fam):
    return [('192.0.2.10', 5061), ('192.0.2.11', 5062), ('peer.example.com', 5063)] if fam == I4 else [('[2001:db8::10]', 5061), ('[2001:db8::11]', 5062), ('[peer6.example.com]', 5063)]


def scen(ch, ctx, cfg):
    s = Sched(ch, FILES if cfg.get('lines') else ())
    died = []
    s.onexc = lambda t, e: died.append((t.name, repr(e)))
    try:
        return scen1(ch, ctx, cfg, s, died)
    finally:
        s.close()
        Env.cur.ch = None


def scen1(ch, ctx, cfg, s, died):
    w = sim.World()
    E = Env(ch, cfg, w)
    fam = cfg.get('fam', I4)
    x, got = {}, []

    def cb(data, addr, server, rtime):
        try:
            need(s.me() is x['loop'] or cfg.get('direct'), 'datagram %r handed over outside of the main loop', data)
            need(not x.get('off'), 'datagram %r handed over after the end', data)
            need(server is x['u'], 'handed over by %s', server)
            got.append((data, addr if cfg.get('direct') else (addr.address, addr.received, addr.transport)))
        except Violation as e:
            x['bad'] = e
            raise
        if cfg.get('raise'):
            raise RuntimeError('owner fails')

    def loop():
        while True:
            s.point('loop', lambda: w.thread_calls or x.get('quit'))
            if not w.thread_calls:
                return
            f, p = w.thread_calls.pop(0)
            try:
                f(*p)
            except Exception as e:
                x['bad'] = x.get('bad') or Violation('main loop: %r' % (e,))

    x['loop'] = s.spawn('loop', loop)
    s.quiet = True

    def starter():
        o = us.Udp_server_opts(ME[fam], cb)
        o.nworkers = cfg.get('workers', 1)
        o.direct_dispatch = bool(cfg.get('direct'))
        x['u'] = us.Udp_server({}, o)
    s.spawn('starter', starter)
    s.run()
    u = x.get('u')
    need(u is not None, 'server is not made: %s', died)
    s.quiet = False
    need(len(E.socks) == 1 and E.socks[0].bound[0] == ME[fam][0].strip('[]') and E.socks[0].family == fam, 'bound to %s', E.socks[0].bound)
    need(u.getSIPaddr() == (ME[fam], 'udp'), 'address shown is %s', u.getSIPaddr())
    D = dests(fam)
    sent, came = [], []

    def script(ops):
        def body():
            for op in ops:
                ctx.step('%s' % (op,), None)
                if op[0] == 'send':
                    d = D[op[1] % 3] if op[1] < 90 else (('nowhere.example.com' if fam == I4 else '[nowhere.example.com]'), 5)
                    data = 'm%d \u00e9' % op[1]
                    if op[1] < 90:
                        sent.append((data.encode('utf-8'), (NAMES.get(d[0], d[0].strip('[]')), d[1])))
                    u.send_to(data.encode('utf-8') if op[1] % 2 else data, d)
                elif op[0] == 'in':
                    data, a = b'' if op[1] == 'empty' else b'i%d' % op[1], (D[0][0].strip('[]'), 6000)
                    if data:
                        came.append((data, a))
                    E.inbox.append((data, a))
                    s.point('in')
                elif op[0] == 'wait':
                    s.point('wait', lambda: not E.inbox and not w.thread_calls)
                elif op[0] == 'down':
                    u.shutdown()
                    x['off'] = True
        return body
    for k, ops in enumerate(cfg['scripts']):
        s.spawn('script%d' % k, script(ops))
    left = s.run()
    if x.get('bad') or E.bad:
        raise x.get('bad') or E.bad
    names = [t.name for t in left]
    need(not [n for n in names if 'script' in n], 'threads stuck: %s', names)
    if not x.get('off'):
        left_in = list(E.inbox)
        need(not left_in, 'not received: %s (threads ended by %s)', left_in, died)
        s.spawn('final', lambda: (u.shutdown(), x.update(off=True)))
        s.run()
        need(x.get('off'), 'shutting down does not end (threads ended by %s)', died)
        chk = True
    else:
        chk = False
    x['quit'] = True
    left = s.run()
    if x.get('bad') or E.bad:
        raise x.get('bad') or E.bad
    need(not left, 'threads left after shutdown: %s', [t.name for t in left])
    need(E.socks[0].closed, 'socket left open')
    need(not died, 'threads ended by %s', died)
    # sent
    want = [m for m in sent if m[0] not in E.dropped]
    out = [(d, a) for d, a, _ in E.out]
    if cfg.get('full'):
        need(not out and 2 * len(sent) <= E.tries <= 100 * len(sent), '%d datagrams tried %d times', len(sent), E.tries)
    else:
        need(sorted(out) == sorted(want), 'sent %s instead of %s', out, want)
        if cfg.get('workers', 1) == 1 and len(cfg['scripts']) == 1:
            need(out == want, 'sent out of order: %s', out)
    # received
    h = [g[0] for g in got]
    need(len(set(h)) == len(h), 'handed over twice: %s', h)
    for d, a in got:
        need(d in [c[0] for c in came], 'handed over %r', d)
        src = ('[%s]' % dict(came)[d][0] if fam == I6 else dict(came)[d][0], 6000)
        need(a == (src if cfg.get('direct') else (src, src[0], 'udp')), 'datagram from %s handed over as from %s', src, a)
    if chk:
        need(len(h) == len(came), 'handed over %s of %s', h, came)
    if cfg.get('workers', 1) == 1:
        need(h == sorted(h), 'handed over out of order: %s', h)
    ctx.outcome = (tuple(out), tuple(h), tuple(E.dropped))
    ctx.steps += s.steps
    ctx.step('end', (cfg['name'], tuple(out), tuple(h), tuple(s.switches[-6:])))


def real(ch, ctx, cfg):
    """the same on real sockets with real threads: the stand-in tells the truth"""
    import importlib.util, time
    fam = ch.pick([I4, I6])
    w = sim.World()
    mods = []
    for m in (nets, us):
        sp = importlib.util.spec_from_file_location(m.__name__ + '_real', m.__file__)
        r = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(r)
        mods.append(r)
    U = mods[1]
    import queue
    U.Network_server.__init__.__globals__['Queue'] = queue.Queue
    try:
        got = []
        try:
            L = []
            for k in range(2):
                o = U.Udp_server_opts(('127.0.0.1' if fam == I4 else '[::1]', 0), lambda data, a, s, t: got.append((data, a.address, s)))
                L.append(U.Udp_server({}, o))
        except OSError:
            ctx.outcome = 'no such socket'
            return
        a, b = [('127.0.0.1' if fam == I4 else '[::1]', u.uopts.laddress[1]) for u in L]
        need(L[0].getSIPaddr()[0] == a, 'address shown is %s', L[0].getSIPaddr())
        want = []
        for i in range(6):
            L[i % 2].send_to(b'm%d' % i, (b, a)[i % 2])
            want.append((b'm%d' % i, (a, b)[i % 2], L[1 - i % 2]))
            t = time.time()
            while len(got) <= i and time.time() - t < 20:
                if w.thread_calls:
                    f, p = w.thread_calls.pop(0)
                    f(*p)
                else:
                    time.sleep(0.002)
        need(got == want, 'real sockets: %s', got)
        th = [t for u in L for t in u.asenders + u.areceivers] if getattr(L[0], 'asenders', None) else []
        for u in L:
            u.shutdown()
        need(not [t for t in th if t.is_alive()], 'threads left')
    finally:
        U.Network_server.__init__.__globals__['Queue'] = sched.CQueue
    ctx.outcome = fam


if __name__ == '__main__':
    def body():
        c = Check('C44', 'model_checking')
        S = lambda *a: [('send', i) for i in a]
        R = lambda *a: [('in', i) for i in a]
        mix = [S(0, 1, 2) + R(1)]
        L = []
        for fam in (I4, I6):
            n = 'v4' if fam == I4 else 'v6'
            L += [dict(name='mix ' + n, fam=fam, scripts=[S(0, 99, 1, 2) + R(1, 2)], mc=c.q(2, 3)), dict(name='in ' + n, fam=fam, scripts=[R(1, 'empty', 2), S(0, 1)], mc=c.q(1, 2)),
                  dict(name='faults ' + n, fam=fam, scripts=[S(0, 1, 2) + R(1, 2, 3)], faults=2, mc=c.q(0, 1)), dict(name='direct ' + n, fam=fam, direct=True, scripts=[R(1, 2), S(0)], mc=c.q(1, 2))]
        L += [dict(name='empties', empties=60, scripts=[R(1, 2, 3) + S(0)], mc=0), dict(name='end', scripts=[S(0, 1) + R(1, 2) + [('down',)]], mc=c.q(2, 3)), dict(name='end2', workers=2, scripts=[S(0, 1, 2) + R(1, 2) + [('down',)]], mc=c.q(1, 2)),
              dict(name='end3', workers=3, scripts=[S(0, 1) + R(1) + [('down',)]], mc=1),
              dict(name='two', workers=2, scripts=[S(0, 1) + R(1), S(2, 3) + R(2)], mc=c.q(1, 2)), dict(name='lines', lines=True, workers=2, scripts=[S(0, 1) + R(1, 2)], mc=1), dict(name='lines end', lines=True, scripts=[S(0) + R(1) + [('down',)]], mc=c.q(1, 2)),
              dict(name='full', full=True, scripts=[S(0, 1)], mc=0), dict(name='raise', scripts=[R(1, 2) + S(0)], mc=1, **{'raise': True}),
              dict(name='storm', scripts=[R(*range(1, 7)) + S(0)], faults=c.q(3, 4), kinds=('recv',), mc=0), dict(name='faults2', workers=2, scripts=[S(0, 1, 2) + R(1, 2)], faults=2, mc=c.q(0, 1))]
        for mc in sorted({d['mc'] for d in L}):
            c.explore('threads%d' % mc, scen, [d for d in L if d['mc'] == mc], max_cost=mc)
        c.explore('real sockets', real, [dict(name='real')])
        c.finish()
    main(body)
