"""C29: the relay client's view of its relay.  A relay that answers, fails, talks nonsense or is silent,
command by command; a reference keeps what the client must believe and send."""
from rtpc_model import *
import sippy.Rtp_proxy.session as rps
CAPS = {'20071218': 'copy_supported', '20080403': 'stat_supported', '20081224': 'tnot_supported', '20090810': 'sbind_supported', '20150617': 'wdnt_supported', '20250523': 'copy_p_supported'}
LOAD = ('sessions_created', 'active_sessions', 'active_streams', 'preceived', 'ptransmitted')
KEYS = ('sessions created', 'active sessions', 'active streams', 'packets received', 'packets transmitted')


def stats(vals, only=None, extra=False):
    s = ''.join('%s: %d\n' % (k, v) for k, v in zip(KEYS, vals) if only is None or k in only)
    return s + ('uptime: long\nnodes: 5:6\n' if extra else '')


class H:
    def __init__(self, cfg, ch):
        self.cfg, self.ch = cfg, ch
        self.w = sim.World()
        Chan.cur = []
        Chan.dest = RADDR
        self.online = self.down = False
        self.caps = None                 # what the relay said, None before it was asked
        self.load = None
        self.pend = {}                   # cookie -> [text, times sent, plan]
        self.seen = 0
        self.hb_due = self.v_due = None
        self.left = cfg['depth']
        self.err = 0
        self.user = []
        self.gc = {'_sip_address': '10.0.0.1'}
        if cfg.get('noversion'):
            self.online = True
            self.cl = rclient.Rtp_proxy_client(self.gc, RADDR, no_version_check=True)
        else:
            self.v_due = sim.now()
            self.cl = rclient.Rtp_proxy_client(self.gc, spath='udp:%s:%d' % RADDR)
        need(len(Chan.cur) == 1, '%d channels opened', len(Chan.cur))
        self.c = Chan.cur[0]

    # -- what the relay does with a command
    def plan(self, text):
        if text.startswith('VF'):
            return self.capsplan[text.split()[1]]
        if self.left <= 0:
            return 'ok'
        if text == 'V':
            m = ('ok', 'lost', 'old', 'err', 'retr')
        elif text == 'Ib':
            m = ('ok', 'lost', 'ok2', 'part', 'err', 'junk', 'retr', 'empty')
        else:
            m = ('ok', 'lost')
        p = m[self.ch.choose(len(m))]
        if p != 'ok' or text == 'Ib' or text == 'V':
            self.left -= 1
        return p

    def scan(self):
        """look at what the client has sent since"""
        new, self.seen = self.c.out[self.seen:], len(self.c.out)
        for t, data in new:
            need(not self.down, 'sent after shutdown: %r', data)
            ck, text = split(data)
            if ck in self.pend:
                self.pend[ck][1] += 1
                continue
            if text == 'V':
                need(not self.online, 'version asked of a relay in use')
                need(self.v_due is not None and abs(t - self.v_due) < 6.1, 'version asked at %.3f, due %s', t, self.v_due)
                self.v_due = None
            elif text == 'Ib':
                need(self.hb_due is not None and abs(t - self.hb_due) < 0.11, 'heartbeat at %.3f, due %s', t, self.hb_due)
                self.hb_due = None
            elif text.startswith('VF '):
                need(self.caps is not None and self.asked.get(text.split()[1]) == 0, 'capability %s asked again or out of turn', text)
                self.asked[text.split()[1]] = 1
            else:
                need(text in self.user, 'unknown command %r', text)
                self.user.remove(text)
            self.pend[ck] = [text, 1, None]
            self.pend[ck][2] = self.plan(text)

    def said(self, text, plan):
        """the answer to a command has been delivered (None: given up): what must hold now"""
        if self.down:
            return
        if plan is None and self.online:
            self.online = False
            self.v_due = sim.now() + 60.0
            self.hb_timer_dies = True
        if text == 'V':
            if plan == 'ok':
                if self.cfg.get('noversion'):
                    self.goon()
                elif self.caps is None:
                    self.caps = {k: None for k in CAPS}
                    self.asked = {k: 0 for k in CAPS}
                    pats = self.cfg.get('capsets', ('all',))
                    self.capsplan = {}
                    pat = pats[self.ch.choose(len(pats))]
                    for i, k in enumerate(CAPS):
                        self.capsplan[k] = {'all': 'yes', 'none': 'no', 'odd': 'yes' if i % 2 else 'no', 'lost': 'lost' if i == 2 else 'yes', 'alllost': 'lost', 'errs': 'err' if i < 3 else 'yes', 'late': 'retr' if i in (0, 5) else 'yes'}[pat]
                elif None in self.caps.values():
                    raise RuntimeError('model')
                else:
                    self.goon()
            else:
                self.v_due = sim.now() + 60.0
        elif text.startswith('VF '):
            self.caps[text.split()[1]] = plan == 'yes'
            if None not in self.caps.values():
                self.goon()
        elif text == 'Ib' and self.online:
            self.hb_due = sim.now() + 1.0
            if plan in ('ok', 'ok2', 'part'):
                self.load = self.next_load
            else:
                self.load = None

    def goon(self):
        self.online = True
        self.hb_due = sim.now()

    def reply(self, ck):
        text, n, plan = self.pend.pop(ck)
        self.next_load = None
        plan = {'retr': 'yes' if text.startswith('VF') else 'ok'}.get(plan, plan)
        if text == 'V':
            body = {'ok': '20040107', 'old': '20030101', 'err': 'E1'}[plan]
        elif text == 'Ib':
            i = len(self.c.out)
            v = [i, i % 3, i % 5, 100 + i, 200 + i]
            if plan == 'ok':
                body = stats(v)
            elif plan == 'ok2':
                body = stats(v, extra=True)
            elif plan == 'part':
                body = stats(v, KEYS[:3])
                v[3:] = [None, None]
            elif plan == 'err':
                body = 'E71'
            elif plan == 'empty':
                body = 'active sessions:\n'
            else:
                body = 'sessions created: 5\nactive sessions: many\n'
            self.next_load = v
        elif text.startswith('VF'):
            body = {'yes': '1', 'no': '0', 'err': 'E1'}[plan]
        else:
            body = '0'
        feed(self.w, self.c, '%s %s\n' % (ck, body))
        self.said(text, plan)

    def judge(self):
        if not self.down:
            need(self.hb_due is None or not self.online or sim.now() < self.hb_due + 0.12, 'no heartbeat since %.3f', self.hb_due or 0)
            need(self.v_due is None or self.online or sim.now() < self.v_due + 6.2, 'relay out of use not probed, due %.3f', self.v_due or 0)
        need(bool(self.cl.online) == self.online or self.down, 'the relay is held to be %s', 'online' if self.cl.online else 'offline')
        if self.online and not self.down:
            if self.caps is not None:
                for k, a in CAPS.items():
                    need(bool(getattr(self.cl, a)) == self.caps[k], '%s is %s, the relay said %s', a, getattr(self.cl, a), self.caps[k])
            if self.load is not None:
                got = [getattr(self.cl, a) for a in LOAD]
                need(all(y is None or x == y for x, y in zip(got, self.load)), 'load held to be %s, last answer said %s', got, self.load)
        # placing a session
        if not self.down:
            self.gc['_rtp_proxy_clients'] = [self.cl]
            try:
                s = rps.Rtp_proxy_session(self.gc, call_id='c', from_tag='f', to_tag='t')
                ok = True
                s.caller.session_exists = s.callee.session_exists = False
                s.caller = s.callee = None
            except rps.RtpProxyError:
                ok = False
            need(ok == self.online, 'a session is %s', 'placed on a relay out of use' if ok else 'refused though the relay is in use')

    def run(self, dt, stop=None):
        """let time pass, answering as planned"""
        end = sim.now() + dt
        for i in range(4000):
            self.scan()
            self.judge()
            ready = [ck for ck, (t, n, p) in self.pend.items() if p not in ('lost', None) and (p != 'retr' or n > 1)]
            if ready:
                self.w.advance(1e-3)
                ck = ready[-1] if self.cfg.get('lifo') else ready[0]
                if ck in self.pend:
                    self.reply(ck)
                continue
            d = self.w.next_due()
            if d is None or d > end:
                break
            t = self.w.due_timers()[0]
            del GIVEN[:]
            self.w.fire(t)
            self.giveups(0)
        else:
            raise RuntimeError('storm')
        if end > sim.now():
            self.w.advance(end - sim.now())
        self.judge()

    def giveups(self, n0):
        self.scan_old()
        for cmd in GIVEN:
            cks = [ck for ck, v in self.pend.items() if v[0] == cmd]
            need(cks, '%r given up but not outstanding', cmd)
            ck = min(cks, key=self.first_sent)
            need(self.pend.pop(ck)[2] == 'lost' or self.down, '%r given up though the relay answers it', cmd)
            self.said(cmd, None)
        del GIVEN[:]

    def scan_old(self):
        """repetitions, before new commands are looked at"""
        for t, data in self.c.out[self.seen:]:
            ck = data.split(' ')[0]
            if ck in self.pend:
                n = len([1 for t, d in self.c.out if d.startswith(ck)])
                need(n <= 20, '%r is sent %d times', data, n)

    def first_sent(self, ck):
        return [t for t, d in self.c.out if d.startswith(ck)][0]


GIVEN = []
real_send = rudp.Rtp_proxy_client_udp.send_command


def send_command(self, command, result_callback=None, *params):
    def cb(result, *a):
        if result is None:
            GIVEN.append(str(command))
        if result_callback is not None:
            result_callback(result, *a)
    real_send(self, command, cb, *params)


rudp.Rtp_proxy_client_udp.send_command = send_command


def scen(ch, ctx, cfg):
    h = H(cfg, ch)
    w = h.w
    h.run(0.0)
    for i in range(cfg['steps']):
        menu = [1.0, 0.3] + cfg.get('extra', [])
        if h.left <= 0 and i > 0:
            menu = [20.0]
        op = menu[ch.choose(len(menu))]
        ctx.step(str(op), (h.online, h.down, str(h.caps), tuple(sorted((v[0], v[1], v[2]) for v in h.pend.values())), h.left, i))
        if op == 'cmd':
            h.user.append('D c%d f t' % i)
            h.cl.send_command('D c%d f t' % i, lambda r, ex=None: None)
            h.run(0.0)
        elif op == 'down':
            h.cl.shutdown()
            h.cl.shutdown()
            h.down = True
            h.online = False
            need(h.c.down, 'the channel stays open')
            for v in h.pend.values():
                v[2] = 'lost' if i % 2 else v[2]
            h.run(200.0)
            need(not w.timers, 'timers left after shutdown: %s', [t.name for t in w.timers])
            break
        else:
            h.run(op)
    else:
        h.left = 0
        h.run(3.0 if h.online and not h.pend else 75.0)
        need(h.online, 'the relay answers again but is not taken into use')
    bad = [e for e in w.errors]
    need(not bad, 'exception: %s', bad[:1])
    ctx.outcome = (h.online, h.down, len(h.c.out), str(h.caps))


if __name__ == '__main__':
    def body():
        c = Check('C29', 'model_checking')
        L = []
        L.append(dict(name='start', depth=c.q(3, 5), steps=4, capsets=('all', 'none', 'odd', 'lost', 'alllost', 'errs', 'late'), extra=[]))
        L.append(dict(name='lifo', depth=2, steps=3, lifo=True, capsets=('odd', 'late')))
        L.append(dict(name='life', depth=c.q(3, 5), steps=c.q(3, 4), extra=[14.0, 75.0]))
        L.append(dict(name='cmd', depth=c.q(2, 3), steps=c.q(4, 5), extra=['cmd', 10.0]))
        L.append(dict(name='down', depth=c.q(2, 3), steps=c.q(4, 5), extra=['down', 10.0, 60.0]))
        L.append(dict(name='noversion', depth=c.q(2, 3), steps=c.q(4, 5), noversion=True, extra=['cmd', 10.0, 60.0]))
        c.explore('relay', scen, L)
        c.explore('long', scen, [dict(name='long%d' % k, depth=c.q(40, 120), steps=c.q(60, 200), cycle=k, extra=[14.0, 75.0, 'cmd']) for k in c.q((2, 3), (2, 3, 4))])
        c.finish()
    main(body)
