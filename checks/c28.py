"""C28: commands to the relay over UDP.  Histories of commands, replies of every kind, losses
(the passing of time) and shutdown against an independent reckoning of what must be sent and reported."""
from rtpc_model import *

CMDS = ('V', 'Ib', 'Gv nsess', 'D call-1 t1 t2', 'U/1', 'G/3', 'I/-', 'G/-', 'D/-')


class Cmd:
    pass


def mkcmd(kind):
    if '/' in kind:
        t, n = kind.split('/')
        o = Rtp_proxy_cmd({'U': 'Uc0,8 call-9 10.0.0.7 4000 t1', 'G': 'Gv nsess', 'I': 'Ib', 'D': 'D call-1 t1 t2'}[t])
        if n == '-':
            return o, str(o), None
        o.nretr = int(n)
        return o, str(o), int(n)
    return kind, kind, None


def tries(first, kind, nretr):
    """how many times a command goes out when nobody answers"""
    if nretr is not None:
        return max(1, nretr)
    limit = {'I': 10.0, 'G': 1.0}.get(kind[0], 3.0)
    n, t, iv = 0, 0.0, first
    while t + iv <= limit:
        t += iv
        iv *= 2
        n += 1
    return max(1, n)


class Cb:
    def __init__(self, h, c):
        self.h, self.c = h, c

    def __call__(self, result, *args):
        self.h.cb(self.c, result, args)


class H:
    def __init__(self, cfg):
        self.w = sim.World()
        Chan.cur = []
        Chan.dest = RADDR
        self.cl = rudp.Rtp_proxy_client_udp({}, RADDR)
        self.cl.go_offline = lambda: self.off.append(sim.now())
        self.off = []
        self.ch = Chan.cur[0]
        self.cmds = []
        self.est = 0.25
        self.expected = []
        self.got = []
        self.refs = []
        self.mode = {}
        self.down = False

    def send(self, kind, mode='plain'):
        if len(self.cmds) >= 4:
            return
        c = Cmd()
        c.no = len(self.cmds)
        arg, c.text, nretr = mkcmd(kind)
        c.iv = self.est * 4
        c.left = tries(c.iv, kind, nretr)
        c.t0 = sim.now()
        c.mode = mode
        c.sent = 0
        c.calls = 0
        c.over = False
        self.cmds.append(c)
        n = len(self.ch.out)
        cb = Cb(self, c)
        self.refs.append(weakref.ref(cb))
        if mode == 'nocb':
            cb = None
        self.cl.send_command(arg, *(() if cb is None else (cb, 'arg%d' % c.no, c.no)))
        need(len(self.ch.out) == n + 1, 'a new command is sent %d times', len(self.ch.out) - n)
        c.cookie, body = split(self.ch.out[-1][1])
        need(body == c.text, 'command sent as %r instead of %r', body, c.text)
        need(c.cookie not in [x.cookie for x in self.cmds[:-1]], 'cookie used twice')
        self.sentone(c)

    def sentone(self, c):
        c.sent += 1
        c.left -= 1
        c.due = sim.now() + c.iv
        c.iv *= 2

    def cb(self, c, result, args):
        c.calls += 1
        need(c.calls == 1, 'the answer of command %d is reported %d times', c.no, c.calls)
        need(args == ('arg%d' % c.no, c.no), 'callback of command %d has arguments %s', c.no, args)
        self.got.append((c.no, result))
        if c.mode == 'again':
            c.mode = 'plain'
            if not self.down:
                self.send('V')
        if c.mode == 'raise':
            raise RuntimeError('owner fails')

    def expect(self, exp):
        got, self.got = self.got, []
        need(got == exp, 'reported %s, expected %s', got, exp)

    def reply(self, data, c=None, result=None):
        n = len(self.ch.out)
        k = len(self.cmds)
        feed(self.w, self.ch, data)
        if c is not None and not c.over:
            c.over = True
            fresh = c.sent == 1
            self.expect([(c.no, result)] if c.mode != 'nocb' else [])
            # the owner's failure costs nothing but, at most, the delay sample
            if fresh and c.mode != 'raise':
                self.est = 0.95 * self.est + 0.05 * (sim.now() - c.t0)
            elif fresh:
                self.est = self.cl.get_rtpc_delay()
            if self.est > 0:
                need(abs(self.cl.get_rtpc_delay() - self.est) < 1e-9, 'delay estimate %.6f instead of %.6f', self.cl.get_rtpc_delay(), self.est)
        else:
            self.expect([])
        new = len(self.cmds) - k
        need(len(self.ch.out) == n + new, 'a reply makes the client send %s', self.ch.out[n:])

    def tick(self, dt):
        """time passes, every repetition must come at its time"""
        end = sim.now() + dt
        while True:
            live = [c for c in self.cmds if not c.over]
            d = min([c.due for c in live], default=None)
            if d is None or d > end + 1e-9:
                n = len(self.ch.out)
                self.w.advance(max(0, end - sim.now()))
                need(len(self.ch.out) == n, 'sent with nothing due: %s', self.ch.out[n:])
                self.expect([])
                break
            self.w.advance(max(0, d - 1e-4 - sim.now()))
            need(not self.got, 'given up early')
            batch = [c for c in live if c.due <= d + 1e-9]
            n = len(self.ch.out)
            k = len(self.cmds)
            off = len(self.off)
            self.w.advance(2e-4)
            exp, rep, dead = [], [], 0
            for c in batch:
                if c.left > 0 and not self.down:
                    rep.append('%s %s' % (c.cookie, c.text))
                    t = c.due
                    self.sentone(c)
                    c.due = t + c.iv / 2
                else:
                    c.over = True
                    dead += 1
                    if c.mode != 'nocb':
                        exp.append((c.no, None))
            self.expect_some(exp)
            need(len(self.off) - off == dead, 'reported out of order %d times for %d commands given up', len(self.off) - off, dead)
            new = [x[1] for x in self.ch.out[n:]]
            for c in self.cmds[k:]:
                new.remove('%s %s' % (c.cookie, c.text))
            need(sorted(new) == sorted(rep), 'repeated %s, expected %s', new, rep)

    def expect_some(self, exp):
        got, self.got = self.got, []
        need(sorted(got, key=str) == sorted(exp, key=str), 'reported %s, expected %s', got, exp)


BAD = ('', ' ', 'garbage', 'nosuchcookie 5', '\n', 'x' * 300)


def scen(ch, ctx, cfg):
    h = H(cfg)
    w = h.w
    ops = []
    n = 0
    sends = cfg['sends']
    for step in range(cfg['depth']):
        menu = []
        if n < cfg['maxsend'] and not h.down:
            menu += [('send', s) for s in sends]
        over = [c for c in h.cmds if c.over][-1:]
        for c in h.cmds:
            if c.over and c not in over:
                continue
            if not (c.over and ops[-1][0] == 'ans'):
                menu.append(('ans', c.no))
            if cfg.get('forms') and not c.over:
                menu += [('form', c.no, k) for k in range(7)]
        if any(not c.over for c in h.cmds):
            menu += [('pass', 'next')] + ([('pass', 0.1)] if ops and ops[-1][0] == 'send' else [])
            if cfg.get('forms'):
                menu += [('bad', k) for k in range(len(BAD) + 2)]
        if cfg.get('shutdown') and not h.down and h.cmds:
            menu.append(('down',))
        if not menu:
            break
        op = menu[ch.choose(len(menu))]
        ops.append(op)
        ctx.step(str(op), tuple((c.sent, c.left, c.over, round(c.due - sim.now(), 3), c.mode) for c in h.cmds) + (h.down, round(h.est, 4)))
        h.tick(0.001)
        if op[0] == 'send':
            n += 1
            kind, mode = op[1]
            h.send(kind, mode)
        elif op[0] == 'ans':
            c = h.cmds[op[1]]
            h.reply('%s %d\n' % (c.cookie, 100 + c.no), c, '%d' % (100 + c.no))
        elif op[0] == 'form':
            c = h.cmds[op[1]]
            ck = c.cookie
            k = op[2]
            if k == 0:
                h.reply('%s E8' % ck, c, 'E8')
            elif k == 1:
                h.reply('%s 4000 10.0.0.9\r\n' % ck, c, '4000 10.0.0.9')
            elif k == 2:
                h.reply('%s active sessions: 1\nactive streams: 2\n' % ck, c, 'active sessions: 1\nactive streams: 2')
            elif k == 3:
                h.reply('%s\t0 \n' % ck, c, '0')
            elif k == 4:
                h.reply('%s 1' % ck[:-1])
            elif k == 5:
                h.reply('%s0 1' % ck)
            elif k == 6:
                h.reply('%s 1' % (ck.upper() if ck.upper() != ck else ck[::-1]))
        elif op[0] == 'bad':
            k = op[1]
            if k < len(BAD):
                h.reply(BAD[k])
            elif k == len(BAD):
                h.reply(b'\xff\xfe\x80 1')
            else:
                h.reply([c for c in h.cmds if not c.over][0].cookie)
        elif op[0] == 'pass':
            if op[1] == 'next':
                live = [c.due for c in h.cmds if not c.over]
                h.tick(min(live, default=sim.now()) - sim.now() + 1e-3)
            else:
                h.tick(op[1])
        elif op[0] == 'down':
            h.cl.shutdown()
            h.down = True
            need(h.ch.down, 'the channel stays open')
    h.tick(60.0)
    need(all(c.over for c in h.cmds), 'a command is never resolved')
    bad = [e for e in w.errors if 'owner fails' not in e[0]]
    need(not bad, 'exception in a timer: %s', bad[:1])
    need(not w.timers, 'timers left: %s', [t.name for t in w.timers])
    ctx.outcome = tuple((c.sent, c.calls) for c in h.cmds)
    if cfg.get('late', True) and h.cmds:
        for c in h.cmds:
            h.reply('%s 7' % c.cookie)
    gc_dead(h)


def gc_dead(h):
    cl = h.cl
    left = [i for i, r in enumerate(h.refs) if r() is not None]
    if left:
        gc.collect()
        left = [i for i, r in enumerate(h.refs) if r() is not None]
    need(not left, 'the client keeps finished commands %s', left)
    need(cl is not None, '')


if __name__ == '__main__':
    def body():
        c = Check('C28', 'model_checking')
        P = [(k, 'plain') for k in CMDS[:6]]
        L = []
        for a in CMDS:
            L.append(dict(name='one-' + a, sends=[(a, 'plain')], maxsend=1, depth=c.q(4, 6), forms=True, shutdown=True))
            L.append(dict(name='two-' + a, sends=[(a, 'plain'), ('V', 'nocb')], maxsend=2, depth=c.q(7, 8), shutdown=True))
        L.append(dict(name='mix', sends=P, maxsend=2, depth=c.q(5, 7)))
        L.append(dict(name='three', sends=[('V', 'plain'), ('Ib', 'plain')], maxsend=3, depth=c.q(7, 8), shutdown=True))
        L.append(dict(name='again', sends=[('V', 'again'), ('Ib', 'raise')], maxsend=2, depth=c.q(7, 8), shutdown=True))
        c.explore('histories', scen, L)
        c.explore('long', scen, [dict(name='long%d' % k, sends=[('V', 'plain'), ('Ib', 'plain'), ('G', 'nocb')] if k < 4 else [('V', 'plain')], maxsend=200, depth=c.q(60, 200), cycle=k) for k in c.q((2, 3, 4), (2, 3, 4, 5, 6))])
        c.finish()
    main(body)
