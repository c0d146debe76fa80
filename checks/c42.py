"""C42: relay control over stream sockets (unix, tcp, built-in relay): worker threads under every schedule within the
preemption bound, with connections refused, lost, reset or failing at every step; and what every form of a relay's address means."""
from common import *
import errno, socket as _socket, types
sim.virtualize_dispatcher()
import sched
from sched import Sched
P = 'sippy.Rtp_proxy.Client.'
wext = sched.load_with_stubs(P + 'Worker.external')
wint = sched.load_with_stubs(P + 'Worker.internal')
stream = sched.load_with_stubs(P + 'stream')
internal = sched.load_with_stubs(P + 'internal')
cl = sched.load_with_stubs('sippy.Rtp_proxy.client')
import sippy.Rtp_proxy.Client.udp as udp
from sippy.Rtp_proxy.cmd import Rtp_proxy_cmd
FILES = {wext.__file__, wint.__file__, stream.__file__}
for m in (wext, wint):
    m.dump_exception = lambda *a, **k: None


def must(ok, *a):
    # the code under test swallows what sockets raise
    try:
        need(ok, *a)
    except Violation as e:
        Env.cur.bad = e
        raise


def err(e):
    return OSError(getattr(errno, e), e)


class Sock:
    """one connection to the relay; answers come from Env"""
    def __init__(self, family=_socket.AF_INET, type=_socket.SOCK_STREAM, *a):
        self.env = Env.cur
        self.family, self.type = family, type
        self.up = self.lost = self.closed = False
        self.out = []
        self.env.socks.append(self)

    def connect(self, address):
        E = self.env
        Sched.cur.point('connect')
        E.addr.append((self.family, self.type, address))
        f = E.fault('connect', (None, 'ECONNREFUSED', 'ENOENT'))
        if f:
            E.failed(f)
            raise err(f)
        self.up = True

    def send(self, data, *a):
        E = self.env
        Sched.cur.point('send')
        must(isinstance(data, bytes), 'text written: %r', data)
        must(not self.closed, 'written to a closed socket')
        if not self.up:
            raise err('ENOTCONN')
        if self.lost:
            # the far end is gone: noticed at once, or only when its answer is waited for
            if self.family == _socket.AF_UNIX or E.ch.choose(2):
                raise err('EPIPE')
            return len(data)
        f = E.fault('send', (None, 'EINTR', 'EPIPE', 'ECONNRESET', 'EHOSTUNREACH'))
        if f:
            if f == 'EHOSTUNREACH':
                E.failed(f)
            if f != 'EINTR':
                self.lost = True
                E.losses += 1
            raise err(f)
        must(data.endswith(b'\n') and data.count(b'\n') == 1, 'written %r', data)
        must(not self.out, 'command %r written while %r is not answered yet', data, self.out)
        E.execs.append((Sched.cur.me().name, data))
        self.out.append(b'ans ' + data.strip())
        return len(data)

    def sendall(self, data, *a):
        self.send(data)

    def recv(self, n, *a):
        E = self.env
        Sched.cur.point('recv', lambda: self.lost or self.out or self.closed or not self.up)
        if not self.up:
            raise err('ENOTCONN')
        if self.lost and not self.out:
            if E.ch.choose(2):
                raise err('ECONNRESET')
            return b''
        if self.out and E.cfg.get('deaf'):
            f = 'closed'
        else:
            f = E.fault('recv', (None, 'EINTR', 'closed', 'ECONNRESET', 'ETIMEDOUT', 'garbage', 'blank'))
        sim._now[0] += 0.5
        if f in ('garbage', 'blank'):
            E.failed(f)
            self.out.pop(0)
            return b'\xff\xfe\n' if f == 'garbage' else b'\n'
        if f:
            if f == 'EINTR':
                raise err(f)
            self.lost = True
            self.out.clear()
            E.losses += 1
            if f == 'closed':
                return b''
            if f == 'ETIMEDOUT':
                E.failed(f)
            raise err(f)
        a = self.out.pop(0)
        if E.cfg.get('oneshot'):
            self.lost = True
        return a + b'\n'

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True

    settimeout = setsockopt = setblocking = lambda self, *a: None


class Env:
    bad = None

    def __init__(self, ch, cfg, w):
        Env.cur = self
        self.ch, self.cfg, self.w = ch, cfg, w
        self.faults = cfg.get('faults', 0)
        self.socks, self.addr, self.execs = [], [], []
        self.losses = self.fatal = 0

    def fault(self, kind, m):
        if self.faults <= 0 or kind not in self.cfg.get('kinds', ('connect', 'send', 'recv')):
            return None
        f = m[self.ch.choose(len(m))]
        if f:
            self.faults -= 1
        return f

    def failed(self, f):
        self.fatal += 1


def stubsock(m):
    ns = types.SimpleNamespace(**{k: getattr(_socket, k) for k in dir(_socket) if not k.startswith('__')})
    ns.socket = Sock
    for k, v in list(vars(m).items()):
        if v is _socket:
            setattr(m, k, ns)
        elif v is _socket.socket:
            setattr(m, k, Sock)


stubsock(wext)


class Relay:
    """stands in for the built-in relay"""
    rtpp_nsock, rtpp_nsock_spec = 'nsock', 'internal:spec'

    def __init__(self, **kw):
        self.kw = kw
        s = self.rtpp_sock = Sock(_socket.AF_UNIX)
        s.up = True
        Env.cur.relay = self


internal.rtpproxy = Relay
internal.Rtp_proxy_client_internal.failed = None


def scen(ch, ctx, cfg):
    s = Sched(ch, FILES)
    died = []
    s.onexc = lambda t, e: died.append((t.name, repr(e)))
    try:
        return scen1(ch, ctx, cfg, s, died)
    finally:
        s.close()
        Env.cur.ch = None


def scen1(ch, ctx, cfg, s, died):
    w = sim.World()
    E = Env(ch, cfg, w)
    x, got = {}, {}
    loop_err = []
    inner = cfg['path'].startswith('rtp.io:')

    def cb(result, i, tag, ex=None):
        try:
            need(tag == 'tag%d' % i, 'command %d called back with parameters of another: %s', i, tag)
            need(s.me() is x['loop'], 'callback of command %d outside of the main loop', i)
            need(i not in got, 'command %d called back twice', i)
            got[i] = result
            x.setdefault('ex', []).append(repr(ex))
            want = ('ans G%d' % i)
            need(result is None or result == want, 'command %d was answered %r', i, result)
            need(inner or result is not None or ex is not None or E.cfg.get('kinds') is None or True, 'no cause')
            need(ex is None or result is None, 'command %d answered %r with %r', i, result, ex)
        except Violation as e:
            x['bad'] = e
            raise
        if cfg.get('raise') == i:
            raise RuntimeError('owner fails')

    def loop():
        while True:
            s.point('loop', lambda: w.thread_calls or x.get('quit'))
            if not w.thread_calls:
                return
            f, p = w.thread_calls.pop(0)
            try:
                f(*p)
            except Violation:
                raise
            except Exception as e:
                if not (cfg.get('raise') is not None and 'owner fails' in repr(e)):
                    loop_err.append(repr(e))

    x['loop'] = s.spawn('loop', loop)

    def starter():
        kw = {}
        if cfg.get('workers'):
            kw['nworkers'] = cfg['workers']
        x['c'] = cl.Rtp_proxy_client(dict(_sip_address='10.9.9.9'), spath=cfg['path'], no_version_check=True, **kw)
    s.quiet = True
    st = s.spawn('starter', starter)
    s.run()
    s.quiet = False
    need(x.get('c') is not None, 'client is not made: %s', died)
    c = x['c']
    sent = []

    def script(ops):
        def body():
            for op in ops:
                ctx.step('%s' % (op,), None)
                if op[0] == 'cmd':
                    i = op[1]
                    sent.append(i)
                    t = 'G%d' % i
                    c.send_command(Rtp_proxy_cmd(t + '\n') if i % 3 == 2 else t + '\n' * (i % 3), cb, i, 'tag%d' % i)
                elif op[0] == 'mute':
                    c.send_command('M%d' % op[1])
                elif op[0] == 'down':
                    x['down'] = True
                    c.shutdown()
        return body
    for k, ops in enumerate(cfg['scripts']):
        s.spawn('script%d' % k, script(ops))
    left = s.run()
    if x.get('bad') or E.bad:
        raise x.get('bad') or E.bad
    need(not loop_err, 'exception on the main loop: %s', loop_err)
    names = sorted(t.name for t in left)
    need(all('Worker' in n or n == 'loop' for n in names), 'threads stuck: %s', names)
    for i in sent:
        need(i in got, 'command %d is never answered (threads ended by %s)', i, died)
    failed = [i for i in sent if got[i] is None]
    if cfg.get('deaf'):
        need(failed == sent, 'answered %s', got)
        n = len([e for e in E.execs])
        need(inner or 2 * len(sent) <= n <= 50 * len(sent), '%d commands were tried %d times', len(sent), n)
    else:
        limit = E.fatal if not inner else E.fatal + (len(sent) if E.losses else 0)
        need(len(failed) <= limit, 'commands %s fail though only %d fatal failures and %d losses: %s', failed, E.fatal, E.losses, x.get('ex'))
        n = len(E.execs)
        need(n <= len(sent) + E.losses + len([o for ops in cfg['scripts'] for o in ops if o[0] == 'mute']), '%d commands were sent %d times with %d losses', len(sent), n, E.losses)
        for i in sent:
            if got[i] is not None:
                need(any(d == b'G%d\n' % i for _, d in E.execs), 'command %d has not been sent', i)
        for ops in cfg['scripts']:
            for o in ops:
                if o[0] == 'mute':
                    need(any(d == b'M%d\n' % o[1] for _, d in E.execs) or E.fatal or inner and E.losses, 'command M%d has not been sent', o[1])
    if cfg.get('workers', 1) == 1 and len(cfg['scripts']) == 1:
        o = [int(d[1:]) for _, d in E.execs]
        need(o == sorted(o), 'commands sent out of order: %s', o)
        need(list(got) == sorted(got), 'answers out of order: %s', list(got))
    if cfg.get('addr'):
        need(set(E.addr) <= {cfg['addr'][:1] + (_socket.SOCK_STREAM,) + cfg['addr'][1:]}, 'connected to %s', E.addr)
    if inner:
        need(E.relay.kw == cfg.get('kw', {}), 'relay started with %s', E.relay.kw)
    d = c.get_rtpc_delay() if not x.get('down') else 0.3
    ok = len(sent) - len(failed)
    if ok and not E.losses and not E.fatal:
        need(0.25 < d, 'delay %s', d)
    need(0 <= d <= 0.5 * (1 + E.losses + E.fatal + len(sent)), 'delay %s', d)
    if not x.get('down'):
        s.spawn('final', lambda: c.shutdown())
        s.run()
    s.spawn('again', lambda: c.shutdown())
    s.run()
    x['quit'] = True
    left = s.run()
    need(not left, 'threads left after shutdown: %s', [t.name for t in left])
    ctx.outcome = (tuple(got.items()), E.losses, E.fatal)
    ctx.steps += s.steps
    ctx.step('end', (tuple(got.items()), tuple(E.execs), tuple(s.switches[-6:])))


U, I4, I6 = _socket.AF_UNIX, _socket.AF_INET, _socket.AF_INET6
# address of a relay -> kind, family, address, where its media is when it does not tell
FORMS = []
for k, f in (('udp', I4), ('tcp', I4)):
    FORMS += [(k + ':192.0.2.7', k, f, ('192.0.2.7', 22222), '192.0.2.7'), (k + ':192.0.2.7:1234', k, f, ('192.0.2.7', 1234), '192.0.2.7'), (k + ':127.0.0.1:65535', k, f, ('127.0.0.1', 65535), '127.0.0.1')]
for k in ('udp6', 'tcp6'):
    FORMS += [(k + ':[2001:db8::7]', k[:3], I6, ('2001:db8::7', 22222), '[2001:db8::7]'), (k + ':[2001:db8::7]:99', k[:3], I6, ('2001:db8::7', 99), '[2001:db8::7]'), (k + ':[::1]:22223', k[:3], I6, ('::1', 22223), '[::1]')]
for p in ('/var/run/rtpproxy.sock', '/tmp/a:b', 'rel.sock'):
    FORMS += [(q + p, 'unix', U, p, '10.9.9.9') for q in ('unix:', 'cunix:', '')]
FORMS = [f for f in FORMS if not f[0].startswith('rel') or True]


def forms(ch, ctx, cfg):
    spec, kind, fam, addr, media = ch.pick(FORMS)
    nw = ch.pick([None, 1, 2])
    s = Sched(ch, ())
    s.quiet = True
    w = sim.World()
    E = Env(ch, {}, w)
    made = []

    class Udp:
        def __init__(self, gc, uopts):
            made.append(self)
            self.uopts, self.sent = uopts, []

        def send_to(self, data, address, *a):
            self.sent.append((data, address))

        def shutdown(self):
            self.gone = True
    saved = udp.Udp_server
    udp.Udp_server = Udp
    x, got = {}, []
    ctx.step(spec, (spec, nw))

    def body():
        kw = {} if nw is None else dict(nworkers=nw)
        c = x['c'] = cl.Rtp_proxy_client(dict(_sip_address='10.9.9.9'), spath=spec, no_version_check=True, **kw)
        for k in range(2):
            c.send_command('VF 20071218', lambda r, **k: got.append(r))
    bad = []
    s.onexc = lambda t, e: bad.append(repr(e))
    try:
        s.spawn('main', body)
        s.run()
        need(not bad, 'address %s: %s', spec, bad)
        c = x['c']
        need(c.proxy_address == media, 'media of relay %s is at %s', spec, c.proxy_address)
        need(bool(c.is_local) == (kind == 'unix'), 'relay %s is local: %s', spec, c.is_local)
        need(c.online, 'relay %s is not in use', spec)
        if kind == 'udp':
            need(len(made) == 1 and not E.addr, 'relay %s is reached at %s %s', spec, made, E.addr)
            u = made[0]
            need(u.uopts.family == fam and u.uopts.nworkers == (nw or 1) and u.uopts.laddress is None, 'socket of relay %s: %s', spec, vars(u.uopts))
            want = (addr[0] if fam == I4 else '[%s]' % addr[0], addr[1])
            need([a for _, a in u.sent] == [want] * 2, 'relay %s is commanded at %s', spec, u.sent)
        else:
            while w.thread_calls:
                f, p = w.thread_calls.pop(0)
                f(*p)
            need(not made and E.addr and set(E.addr) == {(fam, _socket.SOCK_STREAM, addr)}, 'relay %s is reached at %s', spec, E.addr)
            need(len(c.workers) == (nw or 1), '%d workers', len(c.workers))
            need(got == ['ans VF 20071218'] * 2, 'relay %s answered %s', spec, got)
        s.spawn('down', c.shutdown)
        left = s.run()
        need(not left and not bad, 'left after shutdown: %s %s', left, bad)
        if kind == 'udp':
            need(getattr(u, 'gone', False), 'socket of relay %s is left open', spec)
    finally:
        udp.Udp_server = saved
        s.close()
        E.ch = None
    ctx.outcome = (kind, nw)


def real(ch, ctx, cfg):
    """the same client with real threads against a real relay on real sockets: the stand-in tells the truth"""
    import importlib.util, tempfile, threading, queue, time, shutil, os
    kind, oneshot = ch.pick(['unix', 'cunix', 'tcp', 'tcp6']), ch.choose(2)
    ctx.step('real', (kind, oneshot))
    w = sim.World()
    mods = []
    for m in (wext, stream):
        sp = importlib.util.spec_from_file_location(m.__name__ + '_real', m.__file__)
        r = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(r)
        mods.append(r)
    mods[0].dump_exception = lambda *a, **k: None
    d = tempfile.mkdtemp(prefix='c42.')
    ls = None
    try:
        if kind.endswith('unix'):
            fam, addr = _socket.AF_UNIX, d + '/s'
        elif kind == 'tcp':
            fam, addr = _socket.AF_INET, ('127.0.0.1', 0)
        else:
            fam, addr = _socket.AF_INET6, ('::1', 0)
        ls = _socket.socket(fam)
        try:
            ls.bind(addr)
        except OSError:
            ctx.outcome = 'no such socket'
            return
        ls.listen(5)
        got, seen = [], []

        def relay():
            try:
                while True:
                    c, _ = ls.accept()
                    f = c.makefile('rb')
                    while True:
                        l = f.readline()
                        if not l:
                            break
                        seen.append(l)
                        c.send(b'ans ' + l)
                        if oneshot:
                            break
                    f.close()
                    c.close()
            except OSError:
                pass
        threading.Thread(target=relay, daemon=True).start()
        if kind == 'tcp6':
            a = ('[::1]', ls.getsockname()[1])
        else:
            a = ls.getsockname()

        class C(mods[1].Rtp_proxy_client_stream):
            worker_class = mods[0].RTPPLWorker_external
        c = C({}, address=a, family=fam)
        for i in range(4):
            c.send_command('G%d' % i, lambda r, n, ex=None: got.append((n, r)), i)
            t = time.time()
            while len(got) <= i and time.time() - t < 20:
                if w.thread_calls:
                    f, p = w.thread_calls.pop(0)
                    f(*p)
                else:
                    time.sleep(0.002)
        need(got == [(i, 'ans G%d' % i) for i in range(4)], 'real relay answered %s', got)
        need(len(seen) == 4, 'real relay was sent %s', seen)
        c.shutdown()
    finally:
        if ls is not None:
            try:
                ls.shutdown(_socket.SHUT_RDWR)
            except OSError:
                pass
            ls.close()
        shutil.rmtree(d)
    ctx.outcome = (kind, oneshot)


if __name__ == '__main__':
    def body():
        c = Check('C42', 'model_checking')
        two = [[('cmd', 0), ('cmd', 1)]]
        three = [[('cmd', 0), ('mute', 1), ('cmd', 2), ('cmd', 4)]]
        TCP = dict(path='tcp:192.0.2.7:1234', addr=(I4, ('192.0.2.7', 1234)))
        UNX = dict(path='unix:/r.sock', addr=(U, '/r.sock'))
        INT = dict(path='rtp.io:-a;b=c;modules=m1+m2', kw=dict(extra_args=['-a', 'b=c'], modules=('m1', 'm2')))
        IN0 = dict(path='rtp.io:', kw={})
        L = []
        for n, b in (('tcp', TCP), ('unix', UNX), ('int', INT), ('int0', IN0)):
            L.append(dict(b, name=n, scripts=two))
            L.append(dict(b, name=n + ' producers', scripts=[[('cmd', 0)], [('cmd', 1)]]))
            L.append(dict(b, name=n + ' down', scripts=[[('cmd', 0), ('mute', 1), ('down',)]]))
            L.append(dict(b, name=n + ' raise', scripts=two, **{'raise': 0}))
            if n in ('tcp', 'unix'):
                L.append(dict(b, name=n + ' oneshot', scripts=two, oneshot=True))
                L.append(dict(b, name=n + ' workers', scripts=three, workers=2))
                L.append(dict(b, name=n + ' workers down', scripts=[two[0] + [('down',)]], workers=2, oneshot=True))
        c.explore('schedules', scen, L, max_cost=lambda cfg: c.q(1, 2))
        F = []
        for n, b in (('tcp', TCP), ('unix', UNX), ('int', IN0)):
            F.append(dict(b, name=n, scripts=three, faults=c.q(2, 3)))
            F.append(dict(b, name=n + ' down', scripts=[two[0] + [('down',)]], faults=2))
            F.append(dict(b, name=n + ' deaf', scripts=two, deaf=True))
            if n != 'int':
                F.append(dict(b, name=n + ' oneshot', scripts=two, oneshot=True, faults=2))
                F.append(dict(b, name=n + ' workers', scripts=two, workers=2, faults=2))
        many = [[('cmd', i) for i in range(40)]]
        for n, b in (('tcp', TCP), ('unix', UNX), ('int', IN0)):
            F.append(dict(b, name=n + ' long', scripts=many, faults=1, kinds=('send',)))
        F.append(dict(UNX, name='unix long oneshot', scripts=many, oneshot=True))
        c.explore('failures', scen, F, max_cost=0)
        c.explore('failures and schedules', scen, [dict(f, faults=min(1, f.get('faults', 0)), scripts=[f['scripts'][0][:3]]) for f in F if 'deaf' not in f['name'] and 'long' not in f['name']], max_cost=c.q(1, 2))
        c.explore('addresses', forms, [dict()])
        c.explore('conformance', real, [dict()])
        c.finish()
    main(body)
