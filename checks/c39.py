"""C39: operator connections (CLIManager), under every schedule of acceptor, reader, writer and main loop within the
preemption bound, with clients that end, reset, go away, write rubbish or do not read, at every point."""
from common import *
import errno, socket as _socket, os, itertools, threading
sim.virtualize_dispatcher()
import sched
from sched import Sched
cli = sched.load_with_stubs('sippy.CLIManager')
cli.dump_exception = lambda *a, **k: None
FILES = {cli.__file__}
POLLIN, POLLNVAL = 1, 32


class Client:
    """the far end: its packets, then what it does: stay, eof (says no more, still reads), gone, reset, bad (not ASCII)"""
    def __init__(self, env, no, spec):
        self.env, self.no = env, no
        self.packets = list(spec.get('packets', ()))
        self.end = spec.get('end', 'stay')
        self.window = spec.get('window', 1 << 20)
        self.small = spec.get('small', False)
        self.addr = spec.get('addr', ('127.0.0.1', 4000 + no))
        self.got = b''
        self.delivered = b''
        self.eof_sent = False
        self.closed = self.shut = False     # our side
        self.sent_after = 0

    # socket interface used by the code under test
    def recv(self, n, *a):
        S = Sched.cur
        if self.closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        S.point('recv', lambda: self.shut or self.closed or self.packets or self.end != 'stay')
        if self.shut:
            return b''
        if self.closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        if self.packets:
            p = self.packets.pop(0)
            if len(p) > n:
                self.packets.insert(0, p[n:])
                p = p[:n]
            self.delivered += p
            return p
        if self.end == 'reset':
            self.end = 'gone'
            raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        if self.end == 'timedout':
            self.end = 'gone'
            raise TimeoutError(errno.ETIMEDOUT, 'Connection timed out')
        self.eof_sent = True
        return b''

    def send(self, data, *a):
        S = Sched.cur
        if self.closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        S.point('send', lambda: self.window > 0 or self.shut or self.closed or self.broken())
        if self.closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        if self.shut:
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        if self.broken():
            e = self.broken()
            if e == 'reset':
                self.end = 'gone'
                raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
            if e == 'timedout':
                self.end = 'gone'
                raise TimeoutError(errno.ETIMEDOUT, 'Connection timed out')
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        n = min(len(data), self.window)
        if self.small and n > 1:
            n = (n, 1, n - 1)[self.env.ch.choose(3 if n > 2 else 2)]
        self.got += data[:n]
        self.window -= n
        return n

    def sendall(self, data):
        while data:
            data = data[self.send(data):]

    def broken(self):
        """the far end is gone (once it has sent all it had)"""
        if not self.packets and self.end in ('gone', 'reset', 'timedout'):
            return self.end
        return None

    def shutdown(self, how):
        if self.closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        if self.end == 'gone' and self.env.ch.choose(2):
            self.shut = True
            raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')
        self.shut = True

    def close(self):
        self.closed = True

    def fileno(self):
        return -1 if self.closed else 100 + self.no

    def setblocking(self, x):
        pass

    settimeout = setsockopt = lambda self, *a: None


class Server:
    def __init__(self, *a):
        self.backlog = []
        self.closed = False
        self.bound = None
        Env.cur.server = self

    def setsockopt(self, *a):
        pass

    def bind(self, a):
        self.bound = a

    def listen(self, n):
        self.listening = True

    def fileno(self):
        return -1 if self.closed else 50

    def accept(self):
        Sched.cur.point('accept', lambda: self.backlog or self.closed)
        if self.closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        e = Env.cur.fault()
        if e == errno.ECONNABORTED:
            self.backlog.pop(0).refused = True
        if e:
            raise OSError(e, os.strerror(e))
        c = self.backlog.pop(0)
        c.accepted = True
        return c, c.addr

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True


class Poll:
    def __init__(self):
        self.fds = {}

    def register(self, fd, mask=POLLIN):
        self.fds[fd if isinstance(fd, int) else fd.fileno()] = mask

    def unregister(self, fd):
        self.fds.pop(fd, None)

    def rev(self):
        E = Env.cur
        r = []
        for fd in self.fds:
            if fd == 50:
                if E.server.closed:
                    r.append((fd, POLLNVAL))
                elif E.server.backlog:
                    r.append((fd, POLLIN))
            elif fd == 60 and E.pipe:
                r.append((fd, POLLIN))
        return r

    def poll(self, timeout=None):
        Sched.cur.point('poll', self.rev)
        return self.rev()


class Env:
    cur = None

    def __init__(self, ch, cfg):
        self.ch, self.cfg = ch, cfg
        self.pipe = b''
        self.fds = {60, 61}
        self.removed = []
        self.faults = cfg.get('faults', 0)
        self.sleeps = 0

    def fault(self):
        k = self.cfg.get('kinds', ())
        if self.faults <= 0 or not k:
            return None
        i = self.ch.choose(len(k) + 1)
        if i:
            self.faults -= 1
            return k[i - 1]

    def write(self, fd, data):
        need(fd == 61 and fd in self.fds, 'write to descriptor %s', fd)
        self.pipe += data
        Sched.cur.point('wakeup')
        return len(data)

    def read(self, fd, n):
        need(fd == 60 and fd in self.fds, 'read of descriptor %s', fd)
        r, self.pipe = self.pipe[:n], self.pipe[n:]
        return r

    def close(self, fd):
        need(fd in self.fds, 'descriptor %s closed twice', fd)
        self.fds.remove(fd)


class FakeSocket:
    socket = Server
    error = OSError

    def __getattr__(self, n):
        return getattr(_socket, n)


class FakeTime:
    def sleep(self, t):
        Env.cur.sleeps += 1
        Sched.cur.point('sleep')


def replace(mod):
    """whatever name the code has for a call of the system, it gets the stand-in"""
    import select, time, types
    fs = FakeSocket()
    new = {_socket.socket: Server, select.poll: Poll, os.pipe: lambda: (60, 61), os.read: lambda *a: Env.cur.read(*a), os.write: lambda *a: Env.cur.write(*a),
           os.close: lambda *a: Env.cur.close(*a), os.remove: lambda p: Env.cur.removed.append(p), os.unlink: lambda p: Env.cur.removed.append(p),
           os.chown: lambda *a: None, os.chmod: lambda *a: None, time.sleep: FakeTime().sleep}
    mods = {}
    for m in (os, select, time):
        mods[m] = types.SimpleNamespace(**{k: new.get(v, v) if callable(v) and v.__hash__ else v for k, v in vars(m).items() if not k.startswith('__')})
    mods[_socket] = fs
    for k, v in list(vars(mod).items()):
        if isinstance(v, types.ModuleType) and v in mods:
            setattr(mod, k, mods[v])
        elif callable(v) and v.__hash__ and v in new:
            setattr(mod, k, new[v])


replace(cli)


def answers(cmds):
    """what a client is told for its commands; the last item says whether the connection is closed by them"""
    r = b''
    for c in cmds:
        if c.startswith('q'):
            return r + b'bye\n', True
        if c.startswith('x'):
            return r, True
        if c.startswith('n'):
            continue
        r += b'<%s\n' % c.encode() + b'%s>\n' % c.encode()
        if c.startswith('w'):
            r += 'ü€\n'.encode()
    return r, False


def lines(data):
    """the complete lines of what was received, up to the first packet that is not ASCII"""
    return [l for l in (x.strip() for x in data.decode('latin-1').split('\n')[:-1]) if l]


def scen(ch, ctx, cfg):
    s = Sched(ch, FILES, points=None)
    Env.cur = Env(ch, cfg)
    died = []
    s.onexc = lambda t, e: died.append((t.name, repr(e)))
    try:
        return scen1(ch, ctx, cfg, s, Env.cur, died)
    finally:
        s.close()


def scen1(ch, ctx, cfg, s, E, died):
    w = sim.World()
    x = {}
    cl = [Client(E, i, d) for i, d in enumerate(cfg['clients'])]
    for c in cl:
        c.cmds, c.accepted, c.refused, c.clim = [], False, False, None
    runs = []

    def cb(clim, cmd):
        c = [c for c in cl if c is clim.clientsock][0]
        c.clim = clim
        if s.me() is not x['loop']:
            x['bad'] = Violation('command %s executed outside of the main loop' % cmd)
        c.cmds.append(cmd)
        ctx.step((c.no, cmd), None)
        if cmd.startswith('x'):
            raise RuntimeError('command fails')
        if cmd.startswith('q'):
            clim.send('bye\n')
            clim.close()
            return False
        if cmd.startswith('n'):
            return False
        clim.send('<%s\n' % cmd)
        clim.write(('%s>\n' % cmd).encode())
        if cmd.startswith('w'):
            clim.send('ü€\n')
        return False

    def loop():
        while True:
            s.point('loop', lambda: w.thread_calls or x.get('quit'))
            if not w.thread_calls:
                return
            f, p = w.thread_calls.pop(0)
            try:
                f(*p)
            except Violation:
                raise
            except Exception as e:
                need(False, 'exception on the main loop: %r', e)
    x['loop'] = s.spawn('loop', loop)
    tcp = cfg.get('tcp', False)

    def starter():
        x['m'] = cli.CLIConnectionManager(cb, ('127.0.0.1', 1) if tcp else '/nowhere/ccm.sock', tcp=tcp)
        if cfg.get('accept') is not None:
            x['m'].accept_list = cfg['accept']
    if cfg.get('direct'):
        cl[0].accepted = True

        def starter():
            x['m'] = cli.CLIManager(cl[0], cb)
        # a connection is set up by the main loop
        w.thread_calls.append((starter, ()))
    else:
        s.quiet = True
        s.spawn('starter', starter)
        s.run()
        s.quiet = False
        need(getattr(E.server, 'listening', False), 'not listening')

        def dial():
            for c in cl:
                s.point('dial')
                E.server.backlog.append(c)
        s.spawn('dialler', dial)
    if cfg.get('down'):
        def downer():
            if 'm' not in x:
                s.point('up', lambda: 'm' in x)
            x['down'] = True
            w.thread_calls.append((x['m'].shutdown, ()))
        s.spawn('downer', downer)
    left = s.run()
    if x.get('bad'):
        raise x['bad']
    outs = []
    for c in cl:
        if cfg.get('down'):
            # taken down by the operator or with the server: commands seen are those written, in order
            ex = lines(c.delivered)
            need(c.cmds == ex[:len(c.cmds)], 'client %d wrote %s, executed %s', c.no, ex, c.cmds)
            full = answers(c.cmds)[0]
            need(full.startswith(c.got), 'client %d is answered %r, not %r', c.no, c.got, full)
            if cfg.get('direct'):
                need(c.closed, 'connection %d is left open', c.no)
            outs.append((tuple(c.cmds), c.got, c.closed))
            continue
        if c.refused:
            outs.append('refused')
            continue
        need(c.accepted, 'client %d is never accepted (threads ended by %s)', c.no, died)
        ok = cfg.get('accept') is None or c.addr[0] in cfg['accept']
        if not ok:
            need(c.closed and not c.delivered and not c.cmds, 'client at %s is served', c.addr)
            outs.append('barred')
            continue
        bad = any(b > 127 for b in c.delivered)
        ex = lines(c.delivered)
        if bad:
            ok_ = lines(c.delivered.split(b'\xff')[0])
            need(c.cmds == ok_[:len(c.cmds)] and len(c.cmds) >= cfg['clients'][c.no].get('atleast', 0),
                 'client %d wrote %r, executed %s', c.no, c.delivered, c.cmds)
            need(c.closed, 'connection %d is left open after rubbish', c.no)
            full = answers(c.cmds)[0]
            need(full.startswith(c.got), 'client %d is answered %r, not %r', c.no, c.got, full)
            outs.append(('bad', tuple(c.cmds), c.got))
            continue
        stop = [i for i, l in enumerate(ex) if l[0] in 'qx']
        if stop:
            n = stop[0] + 1
            need(c.cmds[:n] == ex[:n] and c.cmds == ex[:len(c.cmds)], 'client %d wrote %s, executed %s', c.no, ex, c.cmds)
        else:
            need(c.cmds == ex, 'client %d wrote %s, executed %s (threads ended by %s)', c.no, ex, c.cmds, died)
        full, closes = answers(c.cmds)
        end = cfg['clients'][c.no].get('end', 'stay')
        if end in ('stay', 'eof') and c.window:
            more = b''.join(answers([k])[0] for k in c.cmds) if closes else full
            need(c.got == full or (closes and more.startswith(c.got) and c.got.startswith(full)),
                 'client %d wrote %s and is answered %r, not %r (threads ended by %s)', c.no, ex, c.got, full, died)
        else:
            need(full.startswith(c.got) or closes, 'client %d is answered %r, not %r', c.no, c.got, full)
        if c.window:
            over = closes or end != 'stay'
            need(c.closed == over, 'connection %d is %s (%s; threads ended by %s)', c.no, 'closed' if c.closed else 'left open', end, died)
        outs.append((tuple(c.cmds), c.got, c.closed))
    # everything is taken down: no thread is left
    if not cfg.get('direct'):
        if not x.get('down'):
            w.thread_calls.append((x['m'].shutdown, ()))
            s.run()
        left = [t.name for t in s.tasks if not t.done and 'Acceptor' in t.name]
        need(not left and E.server.closed and not E.fds, 'acceptor left after shutdown: %s, descriptors %s', left, E.fds)
        need(tcp or E.removed[-1] == E.server.bound, 'socket file is left behind')
    need(not x.get('bad'), '%s', x.get('bad'))
    for c in cl:
        c.window = 1 << 20
        if not c.closed and c.end == 'stay':
            c.end = 'gone'
    s.run()
    for c in cl:
        need(c.closed or not c.accepted or cfg.get('down'), 'connection %d is left open when its client is gone (threads ended by %s)', c.no, died)
    x['quit'] = True
    s.run()
    names = [t.name for t in s.tasks if not t.done]
    need(not names, 'threads left: %s', names)
    ctx.outcome = tuple(outs)
    ctx.steps += s.steps
    ctx.step('end', (tuple(outs), tuple(s.switches[-6:])))


def splits(data, most=4):
    for k in range(1, min(most, len(data)) + 1):
        for cut in itertools.combinations(range(1, len(data)), k - 1):
            b = (0,) + cut + (len(data),)
            yield [data[i:j] for i, j in zip(b, b[1:])]


def lscen(ch, ctx, cfg):
    """one default schedule per way of cutting what is written into packets"""
    ps = list(splits(cfg['data'], cfg['most']))
    p = ps[ch.choose(len(ps))]
    return scen(ch, ctx, dict(direct=True, clients=[dict(packets=p, end=cfg['end'])], name='cut'))


def stub_conformance(check):
    for t in (0.01, 0.1, 1):
        try:
            return stub_conformance1(t)
        except RuntimeError:
            if t == 1:
                raise


def stub_conformance1(pause):
    """the stand-in connection against real sockets: what recv and send tell for every way a client may end"""
    n = 0
    for fam in ('unix', 'tcp'):
        for end in ('stay', 'eof', 'gone', 'reset', 'shut', 'closed'):
            for op in ('recv', 'send', 'send2', 'shutdown'):
                if end == 'stay' and op == 'recv' or end == 'reset' and fam == 'unix':
                    continue
                if fam == 'unix':
                    a, b = _socket.socketpair()
                else:
                    l = _socket.socket(); l.bind(('127.0.0.1', 0)); l.listen(1)
                    b = _socket.create_connection(l.getsockname()); a = l.accept()[0]; l.close()
                import struct, time
                if end == 'eof':
                    b.shutdown(_socket.SHUT_WR)
                elif end == 'gone':
                    b.close()
                elif end == 'reset':
                    b.setsockopt(_socket.SOL_SOCKET, _socket.SO_LINGER, struct.pack('ii', 1, 0)); b.close()
                elif end == 'shut':
                    a.shutdown(_socket.SHUT_RDWR)
                elif end == 'closed':
                    a.close()
                time.sleep(pause)

                def do(s, op):
                    try:
                        if op == 'recv':
                            return s.recv(10)
                        if op == 'shutdown':
                            s.shutdown(_socket.SHUT_RDWR)
                            return 'ok'
                        return s.send(b'abc')
                    except OSError as e:
                        return e.errno
                if op == 'send2':
                    do(a, 'send')
                    time.sleep(pause)
                real = do(a, op[:4] if op != 'shutdown' else op)
                a.close(), b.close()

                class Ch:
                    def choose(self, k, c=0):
                        return 0
                E = type('E', (), {'ch': Ch()})()

                class NS:
                    def point(self, *a):
                        pass
                old, Sched.cur = Sched.cur, NS()
                f = Client(E, 0, dict(end=end if end not in ('shut', 'closed') else 'stay'))
                if end == 'shut':
                    f.shutdown(0)
                if end == 'closed':
                    f.close()
                if op == 'send2':
                    do(f, 'send')
                fake = do(f, op[:4] if op != 'shutdown' else op)
                Sched.cur = old
                # a real TCP connection may swallow the first packet sent to a client that is gone; one more way for
                # answers to be lost that the client cannot tell; and it may or may not be still connected
                allowed = {repr(fake)}
                if end in ('gone', 'reset') and op == 'send':
                    allowed |= {'3', repr(errno.EPIPE), repr(errno.ECONNRESET)}
                if end in ('gone', 'reset') and op == 'send2':
                    allowed |= {repr(errno.EPIPE), repr(errno.ECONNRESET)}
                if end in ('gone', 'reset', 'shut') and op == 'shutdown':
                    allowed |= {"'ok'", repr(errno.ENOTCONN)}
                if repr(real) not in allowed:
                    raise RuntimeError('stand-in differs from a real %s socket: %s after %s: %r, %r' % (fam, op, end, real, fake))
                n += 1
    note('stand-in connection agrees with real sockets on %d operations' % n)
    return n


if __name__ == '__main__':
    def body():
        c = Check('C39', 'model_checking')
        n = stub_conformance(c)
        P = lambda *l: [x.encode() for x in l]
        L = []
        for end in ('stay', 'eof', 'gone', 'reset', 'timedout'):
            L.append(dict(name='one ' + end, direct=True, clients=[dict(packets=P('a1\nb2\n'), end=end)]))
            L.append(dict(name='two ' + end, direct=True, clients=[dict(packets=P('a1\n', 'b2\r\nc'), end=end)]))
            L.append(dict(name='q ' + end, direct=True, clients=[dict(packets=P('a1\nq2\n', 'c3\n'), end=end)]))
            L.append(dict(name='x ' + end, direct=True, clients=[dict(packets=P('a1\nx2\n', 'c3\n'), end=end)]))
            L.append(dict(name='wide ' + end, direct=True, clients=[dict(packets=P('w1\n'), end=end, small=True)]))
            L.append(dict(name='down ' + end, direct=True, down=True, clients=[dict(packets=P('a1\n', 'b2\n'), end=end)]))
        L.append(dict(name='bad', direct=True, clients=[dict(packets=P('a1\n') + [b'b2\n\xff\n'], end='stay', atleast=1)]))
        L.append(dict(name='slow', direct=True, clients=[dict(packets=P('a1\n', 'b2\n'), end='stay', window=0)]))
        c.explore('connection', scen, L, max_cost=lambda cfg: c.q(2 if cfg['name'] in ('one eof', 'two reset', 'q stay', 'x eof', 'slow') else 1, 2 if cfg['name'].startswith('wide') else 3))
        ends = [dict(packets=P('a1\n'), end=e) for e in ('gone', 'reset', 'eof')] + [dict(packets=[b'\xff\n'], end='stay'),
            dict(packets=P('a1\n'), end='stay', window=0), dict(packets=P('x1\n'), end='stay'), dict(packets=P('a'), end='stay'), dict(packets=[], end='timedout')]
        M = [dict(name='with %d' % i, clients=[e, dict(packets=P('b2\n', 'c3\n'), end='stay')]) for i, e in enumerate(ends)]
        M.append(dict(name='barred', tcp=True, accept=['10.0.0.1'], clients=[dict(packets=P('a1\n'), addr=('10.0.0.2', 1)), dict(packets=P('b2\n'), addr=('10.0.0.1', 2))]))
        M.append(dict(name='all', tcp=True, clients=[dict(packets=P('a1\n'), addr=('10.0.0.2', 1)), dict(packets=P('b2\n'), addr=('10.0.0.1', 2), end='eof')]))
        M.append(dict(name='down', down=True, clients=[dict(packets=P('a1\n')), dict(packets=P('b2\n'), end='eof')]))
        c.explore('several', scen, M, max_cost=c.q(1, 2))
        kinds = (errno.ECONNABORTED, errno.EMFILE, errno.ENFILE, errno.ENOBUFS, errno.ENOMEM, errno.EINTR, errno.EAGAIN, errno.EPROTO)
        F = [dict(name='faults', kinds=kinds, faults=2, clients=[dict(packets=P('a1\n')), dict(packets=P('b2\n'), end='eof'), dict(packets=P('q3\n'))])]
        c.explore('accept failures', scen, F, max_cost=c.q(0, 1))
        # long runs: commands on one connection, connections one after another
        pk = (b'a%d\n', b'b%d\r\nc', b'n\n\n', b'w%d\nd%d\n')
        num = lambda p, i: p.replace(b'%d', b'%d' % i)
        G = [dict(name='long', direct=True, clients=[dict(packets=[num(q[i % len(q)], i) for i in range(c.q(16, 40))], end='eof')]) for k in c.q((2, 3), (2, 3, 4)) for q in itertools.product(pk, repeat=k)]
        for k in c.q((2,), (2, 3)):
            for q in itertools.product(ends + [dict(packets=P('a1\n', 'b2\n'), end='stay')], repeat=k):
                G.append(dict(name='turn', cycle=2, clients=[q[i % k] for i in range(c.q(12, 30))]))
        c.explore('long', scen, G, max_cost=0)
        H = [dict(name='long faults', kinds=kinds[:c.q(4, 8)], faults=c.q(20, 40), cycle=2, clients=[dict(packets=P('a1\n'), end='gone') for i in range(c.q(8, 20))])]
        c.explore('long failures', scen, H, max_cost=0)
        D = [dict(name=d, data=d.encode(), most=m, end=e) for d, m in (('a1\n', 3), ('a1\r\nb2\n', 8), ('\n \n\ta 1 \n\nb2', 5), ('ab\ncd\nef\ng', c.q(4, 9)), ('q1\n', 3),
            ('w1\nq2\n', 5)) for e in ('stay', 'eof')]
        c.explore('lines', lscen, D, max_cost=0)
        c.finish()
    main(body)
