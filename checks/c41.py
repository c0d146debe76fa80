"""C41: SIP over WebSocket: the real server under every order of its connections' events, and whole calls of parties
behind it in lock-step with the reference of C10."""
import c10
from b2b_model import *
import asyncio, inspect
from asyncio import base_events
import sippy.Wss_server as wss
from sippy.Network_server import Network_server
from websockets import ConnectionClosed
from websockets.exceptions import ConnectionClosedOK, ConnectionClosedError


import sippy.Network_server
sippy.Network_server.dump_exception = lambda *a, **k: None
import sippy.SipTransactionManager
sippy.SipTransactionManager.dump_exception = lambda *a, **k: None


class Stop(BaseException):
    pass


class Loop(base_events.BaseEventLoop):
    """asyncio's own loop; what comes from outside comes when the explorer says"""
    def __init__(self, h):
        super().__init__()
        self.h = h
        self._selector = self
        self.set_exception_handler(lambda l, c: h.trouble.append(c))

    def time(self):
        return sim.now()

    def _process_events(self, l):
        pass

    def _write_to_self(self):
        pass

    def select(self, timeout):
        self.h.turn(timeout)
        return []

    def close(self):
        self.h.closed = True
        super().close()

    def run_in_executor(self, ex, func, *args):
        f = self.create_future()
        self.h.jobs.append((f, func, args))
        return f


class Queue:
    def __init__(self):
        self.q = []

    def put(self, x):
        self.q.append(x)

    put_nowait = put

    def get(self, *a):
        return self.q.pop(0)


class Ws:
    def __init__(self, h, i):
        self.h, self.no, self.id = h, i, 'id%d' % i
        self.remote_address = ('192.0.2.%d' % (i + 1), 4000 + i)
        self.transport = self
        self.inbox, self.reading, self.pending, self.got = [], None, None, []
        self.gone = None
        self.wrote = []

    def get_extra_info(self, what):
        return self

    def getsockname(self):
        return ('10.0.0.1', 9443)

    def recv(self):
        f = self.h.loop.create_future()
        self.reading = f
        self.feed()
        return f

    def feed(self):
        f = self.reading
        if f is None or f.done():
            return
        if self.inbox:
            self.reading = None
            f.set_result(self.inbox.pop(0))
        elif self.gone:
            self.reading = None
            f.set_exception(self.gone)

    def __aiter__(self):
        return self

    async def __anext__(self):
        try:
            return await self.recv()
        except ConnectionClosedOK:
            raise StopAsyncIteration

    async def send(self, data):
        need(self.pending is None or self.pending.done(), 'two messages written to connection %d at once', self.no)
        if self.gone:
            raise self.gone
        self.pending = self.h.loop.create_future()
        if self.no not in self.h.cfg.get('slow', ()):
            self.pending.set_result(None)
        await self.pending
        self.got.append(data if isinstance(data, str) else bytes(data).decode())

    def end(self, exc):
        self.gone = exc
        self.feed()
        if self.pending is not None and not self.pending.done():
            self.pending.set_exception(exc)

    async def close(self, *a, **k):
        self.end(ConnectionClosedOK(None, None))

    async def wait_closed(self):
        pass


class Listener:
    closed = False

    def __init__(self, h, handler, args, kw):
        h.listener = self
        self.h, self.handler, self.args, self.kw = h, handler, args, kw

    def __await__(self):
        if self.h.cfg.get('busy'):
            raise OSError(98, 'Address already in use')
        return self
        yield

    async def __aenter__(self):
        return await self

    async def __aexit__(self, *a):
        self.close()

    def close(self, *a, **k):
        self.closed = True

    async def wait_closed(self):
        pass


class H:
    cur = None

    def __init__(self, ch, ctx, cfg):
        self.ch, self.ctx, self.cfg = ch, ctx, cfg
        self.jobs, self.trouble, self.ws, self.seen = [], [], [], {}
        self.expect = {}
        self.left = cfg['depth']
        self.closed = self.down = False
        self.n = 0
        self.ending = 0
        self.listener = None

    def pump(self):
        w = self.w
        while w.thread_calls:
            f, p = w.thread_calls.pop(0)
            f(*p)
        for j in self.jobs[:]:
            f, func, args = j
            if f.done():
                self.jobs.remove(j)
            elif getattr(func, '__self__', None) is not self.q or self.q.q:
                self.jobs.remove(j)
                f.set_result(func(*args))

    def events(self):
        L = []
        if self.listener is None or self.down:
            return L
        if len(self.ws) < self.cfg['conns']:
            L.append(('dial',))
        for w in self.ws:
            if w.gone is None:
                L += [('in', w.no), ('close', w.no), ('reset', w.no)]
            L.append(('out', w.no))
            if w.pending is not None and not w.pending.done():
                L.append(('sent', w.no))
        if self.ws:
            L.append(('out', 99))
        if self.cfg.get('down'):
            L.append(('down',))
        return L

    def do(self, e):
        self.n += 1
        self.ctx.step(e, None)
        if e[0] == 'dial':
            w = Ws(self, len(self.ws))
            self.ws.append(w)
            w.out, w.maybe = [], []

            async def conn():
                await self.listener.handler(w)
            if self.cfg.get('lost') == w.no:
                # it has gone before anybody looks
                w.remote_address = None
                w.gone = ConnectionClosedError(None, None)
            w.task = self.loop.create_task(conn())
            return
        if e[0] == 'down':
            self.down = True
            self.srv.sendqueue.put(None)
            return
        if e[0] == 'out' and e[1] == 99:
            self.srv.send_to('to nobody', ('nobody.invalid', 5060))
            return
        w = self.ws[e[1]]
        if e[0] == 'in':
            for i in range(self.cfg.get('burst', 1)):
                m = 'message %d.%d of %d' % (self.n, i, w.no)
                w.wrote.append(m)
                w.inbox.append(m if self.cfg.get('text') else m.encode())
            w.feed()
        elif e[0] == 'out':
            for i in range(self.cfg.get('burst', 1)):
                m = 'message %d.%d to %d' % (self.n, i, w.no)
                # a connection is known once the first message from it has been seen, or it has been up for a while
                self.srv.send_to(m if self.n % 2 else m.encode(), (w.id + '.invalid', 5060))
                (w.out if w.up else w.maybe).append(m)
        elif e[0] == 'sent':
            w.pending.set_result(None)
        elif e[0] in ('close', 'reset'):
            w.end((ConnectionClosedOK if e[0] == 'close' else ConnectionClosedError)(None, None))

    def turn(self, timeout):
        self.pump()
        idle = timeout is None or timeout > 0
        if idle and not self.loop._ready:
            for w in self.ws:
                w.up = True
        if self.loop._stopping or self.loop._ready and timeout is None:
            return
        if self.down and timeout is None:
            raise Stop('the server does not stop')
        if self.left and not self.down:
            ev = self.events()
            if idle:
                if ev:
                    self.left -= 1
                    self.do(ev[self.ch.choose(len(ev))])
                    self.pump()
                    return
                if self.listener is None:
                    raise Stop('not listening')
            else:
                if ev:
                    k = self.ch.choose(len(ev) + 1, 1)
                    if k:
                        self.left -= 1
                        self.do(ev[k - 1])
                        self.pump()
                return
        if not idle:
            return
        # nothing more happens: the slow ones catch up, then everybody goes, then the server is taken down
        for w in self.ws:
            if w.pending is not None and not w.pending.done():
                w.pending.set_result(None)
                return
        if self.ending == 0:
            self.ending = 1
            self.check()
            for w in self.ws:
                w.end(ConnectionClosedOK(None, None))
            return
        if self.ending == 1:
            self.ending = 2
            left = [t for t in asyncio.all_tasks(self.loop) if not t.done() and 'async_run' not in repr(t)]
            need(not left, 'tasks left when every connection is closed: %s', left)
            need(not self.srv.connections, 'connections left: %s', self.srv.connections)
            self.down = True
            self.srv.shutdown_()

    def check(self):
        for w in self.ws:
            got = self.seen.get(w.id + '.invalid', [])
            need(got == w.wrote, 'connection %d wrote %s, delivered were %s', w.no, w.wrote, got)
            g = [x for x in w.got if x not in w.maybe]
            need(g == (w.out if w.gone is None else w.out[:len(g)]), 'to connection %d was sent %s, it got %s', w.no, w.out, w.got)


Ws.up = False
wss.ws_serve = lambda handler, *a, **k: Listener(H.cur, handler, a, k)
wss.Wss_server.start = lambda self: None
wss.Wss_server.join = lambda self, *a: None


def server(ch, ctx, cfg):
    h = H.cur = H(ch, ctx, cfg)
    h.w = sim.World()

    def cb(data, address, srv, rtime):
        need(srv is h.srv and address.transport == 'wss', 'delivered from %s', address)
        w = [w for w in h.ws if w.id + '.invalid' == address.received]
        need(w and tuple(address.address) == w[0].remote_address, 'delivered with source %s', vars(address))
        h.seen.setdefault(address.received, []).append(data if isinstance(data, str) else data.decode())
        if cfg.get('echo'):
            srv.send_to('re ' + h.seen[address.received][-1], (address.received, 1))
            if w[0].gone is None:
                w[0].out.append('re ' + h.seen[address.received][-1])
        if cfg.get('fail') == len(h.seen[address.received]):
            raise RuntimeError('handler fails')
    h.srv = wss.Wss_server(None, wss.Wss_server_opts(('0.0.0.0' if cfg.get('any') else '10.0.0.1', 9443), cb))
    h.q = h.srv.sendqueue = Queue()
    h.srv.shutdown_ = h.srv.shutdown
    loop = h.loop = Loop(h)
    saved = wss.new_event_loop
    wss.new_event_loop = lambda: loop
    stopped = None
    import sippy.Core.EventDispatcher
    try:
        h.srv.run()
    except Stop as e:
        stopped = str(e)
    finally:
        wss.new_event_loop = saved
        asyncio.set_event_loop(None)
        for w in h.ws:
            w.task._log_destroy_pending = False
        bad = [c['exception'] for c in h.trouble if isinstance(c.get('exception'), Violation)]
        if not loop.is_closed():
            for t in asyncio.all_tasks(loop):
                t._log_destroy_pending = False
                t.cancel()
            loop._ready.clear()
            base_events.BaseEventLoop.close(loop)
    if bad:
        raise bad[0]
    if cfg.get('busy'):
        need(len(h.w.thread_calls) == 1, 'failure to listen is not reported')
        ctx.outcome = 'busy'
        return
    need(stopped is None, '%s', stopped)
    a = inspect.signature(lambda host=None, port=None, **k: 0).bind(*h.listener.args, **{k: v for k, v in h.listener.kw.items() if k in ('host', 'port')}).arguments
    need((a['host'], a['port']) == ('0.0.0.0' if cfg.get('any') else '10.0.0.1', 9443) and list(h.listener.kw.get('subprotocols', ())) == ['sip'], 'listening on %s %s', a, h.listener.kw)
    need(h.down and h.closed, 'the server has stopped by itself')
    if cfg.get('any') and h.ws:
        need(h.srv.uopts.laddress == ('10.0.0.1', 9443), 'own address is %s', h.srv.uopts.laddress)
    if cfg.get('down'):
        h.check_down = True
        for w in h.ws:
            got = h.seen.get(w.id + '.invalid', [])
            need(got == w.wrote[:len(got)], 'connection %d wrote %s, delivered were %s', w.no, w.wrote, got)
    ctx.outcome = repr([(w.wrote, w.got, w.gone is None) for w in h.ws])
    ctx.step('end', ctx.outcome)


def odd(ch, ctx, cfg):
    """requests that are not understood, stray ones and those that go on to the registrar, from behind a connection"""
    br = Bridge(dict(conf=(('static_route', 'sip:5551@192.0.2.2'),), ws={'1': 'cccc-3.invalid', '2': 'dddd-4.invalid'}, proxied=True))
    conn, addr = ('cccc-3.invalid', br.p1.addr) if ch.choose(2) else ('dddd-4.invalid', br.p2.addr)
    kind = cfg['kind']
    rport = ch.choose(2)
    via = 'SIP/2.0/%s xyz.invalid%s;branch=z9hG4bKq%s' % (('WSS', 'WS')[ch.choose(2)], ('', ':5071')[ch.choose(2)], ';rport' if rport else '')
    method = ('REGISTER', 'SUBSCRIBE', 'OPTIONS', 'BYE', 'INFO', 'PUBLISH', 'MESSAGE')[ch.choose(7)]
    ctx.step((conn, method, via), (conn, method, via))
    w = br.w
    raw = minisip.request(method, 'sip:example.com', '<sip:u@example.com>;tag=f', '<sip:u@example.com>', 'cq', 1, '', '', contact='<sip:u@xyz.invalid;transport=ws>', vias=[via])
    if kind == 'length':
        raw = raw.replace('Content-Length: 0', 'Content-Length: 77')
    elif kind == 'tagged':
        raw = raw.replace('To: <sip:u@example.com>', 'To: <sip:u@example.com>;tag=z')
    n = len(w.sent)
    sim.deliver(w, br.tm, raw, addr, 'wss', br.ws, conn)
    need(not w.errors, 'exception: %s', w.errors[:1])
    s = w.sent[n:]
    if kind == 'plain' and method in ('REGISTER', 'SUBSCRIBE'):
        need(len(s) == 1 and s[0][2] == CALLER and s[0][3] is not br.ws, 'sent on to %s', [x[2] for x in s])
        m = Msg(s[0][1])
        need(m.method == method and len(m.all('via')) == 2 and 'received=' + conn in m.all('via')[1] and m.all('via')[0].startswith('SIP/2.0/UDP '), 'sent on as %s', s[0][1])
        need('@' + conn in m.get('contact') and 'transport=ws' in m.get('contact'), 'sent on with contact %s', m.get('contact'))
        for code in ((200,), (100, 200), (401,), (202, 202))[ch.choose(4)]:
            n = len(w.sent)
            sim.deliver(w, br.tm, minisip.response(m, code, 'R', 'tt', '<sip:u@%s;transport=ws>' % conn if code < 300 and code > 100 else None), CALLER)
            need(not w.errors, 'exception: %s', w.errors[:1])
            s = w.sent[n:]
            need([(x[2][0], x[3]) for x in s] == [(conn, br.ws)] * len(s), 'answer went to %s', [x[2] for x in s])
            if code > 100 and s:
                a = Msg(s[0][1])
                need(a.code == code and len(a.all('via')) == 1 and a.branch == 'z9hG4bKq', 'answered %s', s[0][1])
        n = len([x for x in w.sent if x[3] is br.ws and Msg(x[1]).code >= 200])
        need(n == 1, '%d final answers', n)
    else:
        need(len(s) == 1 and s[0][3] is br.ws and s[0][2][0] == conn, 'answers to %s of %s went to %s', method, conn, [x[2] for x in s])
        m = Msg(s[0][1])
        need(not m.is_req and m.code >= 200 and m.branch == 'z9hG4bKq', 'answered %s', m.sl)
        if kind == 'length':
            need(m.code == 400, 'answered %s', m.sl)
        # and a repeat alike
        n = len(w.sent)
        sim.deliver(w, br.tm, raw, addr, 'wss', br.ws, conn)
        r = w.sent[n:]
        need([(x[1], x[2][0]) for x in r] == [(s[0][1], conn)], 'repeat answered with %s', r)
    ctx.outcome = (kind, method)


if __name__ == '__main__':
    def body():
        c = Check('C41', 'model_checking')
        S = [dict(name='two', conns=2, depth=c.q(6, 7)), dict(name='slow', conns=2, slow=(0,), depth=c.q(6, 7)), dict(name='burst', conns=2, slow=(0,), burst=300, depth=c.q(4, 5)), dict(name='text', conns=2, text=True, any=True, depth=4), dict(name='echo', conns=2, echo=True, depth=5),
             dict(name='fail', conns=2, fail=1, depth=4), dict(name='down', conns=2, down=True, depth=5), dict(name='slow down', conns=2, slow=(0, 1), down=True, depth=5), dict(name='lost', conns=2, lost=0, depth=4), dict(name='lost2', conns=2, lost=1, depth=4), dict(name='busy', conns=0, busy=True, depth=1)]
        c.explore('server', server, S, max_cost=0)
        c.explore('server long', server, [dict(name='long %d' % k, conns=12, slow=(1, 4), depth=c.q(40, 100), cycle=k, **({'echo': True} if k > 2 else {})) for k in c.q((2, 3), (2, 3, 4))], max_cost=0)
        c.explore('server turns', server, [dict(x, depth=x['depth'] - c.q(1, 0)) for x in S if x['name'] not in ('burst', 'busy')], max_cost=c.q(1, 2))
        c.explore('single requests', odd, [dict(name=k, kind=k) for k in ('plain', 'length', 'tagged')])
        W = [(dict(ws={'A': 'aaaa-1.invalid'}), 'caller'), (dict(ws={'1': 'cccc-3.invalid'}, proxied=True, host='cccc-3.invalid;transport=ws'), 'callee')]
        d = c.q(5, 6)
        c.explore('calls', c10.scen, [dict(w, name='ws-%s-%s%s' % (n, late, ka), conf=ka, late=late, depth=d) for w, n in W for late in (False, True) for ka in ((), (('hide_call_id', 'on'),), (('nat_traversal', 'on'),))])
        e = c.q(4, 5)
        c.explore('crossings', c10.cross, [dict(w, name='ws %s %s' % (n, pre), depth=e, **({'pre': pre} if pre else {})) for w, n in W for pre in ((), (180,), (200,))], max_cost=c.q(1, 2))
        c.finish()
    main(body)
