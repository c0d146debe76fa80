"""C40: prompts, recordings, copies and statistics of a relay session: every sequence of requests, with the relay's
answers (right, error, none, unreadable) arriving at every moment, in lock-step with a reference."""
from common import *
import itertools
sim.virtualize_dispatcher()
import sippy.Rtp_proxy.session as rps
from sippy.MsgBody import MsgBody
from sippy.Core.EventDispatcher import ED2
import sippy.Rtp_proxy.Cmd.sequencer as seqm, sippy.Rtp_proxy.Session.side as sidem
for m in (seqm, sidem):
    m.dump_exception = lambda *a, **k: None

SIDES = ('caller', 'callee')
TAGS = {'caller': 'ft', 'callee': 'tt'}


def other(x):
    return 'callee' if x == 'caller' else 'caller'


class Relay:
    """the relay client: what was sent and is still to be answered"""
    online = True
    is_local = False
    sbind_supported = False
    proxy_address = '192.0.2.9'

    def __init__(self, cfg):
        self.tnot_supported = cfg.get('notify', False)
        self.notify_socket = 'tcp:1.2.3.4:5' if cfg.get('notify') else None
        self.sent = []
        self.pending = []

    def send_command(self, command, result_callback=None, *params):
        self.sent.append(command)
        self.pending.append((command, result_callback, params))


class Ref:
    def __init__(self, cfg):
        self.cfg = cfg
        self.exists = {'caller': False, 'callee': False}
        self.codecs = {'caller': None, 'callee': None}
        self.maxidx = -1
        self.mt = None
        self.sent = []
        self.inflight = None
        self.q = []
        self.reports = []
        self.deferred = []

    def send(self, cmd, cont):
        if self.inflight:
            self.q.append((cmd, cont))
        else:
            self.inflight = (cmd, cont)
            self.sent.append(cmd)

    def answered(self, res):
        cmd, cont = self.inflight
        self.inflight = None
        if self.q:
            self.inflight = self.q.pop(0)
            self.sent.append(self.inflight[0])
        if cont:
            cont(res)

    def tags(self, x):
        return '%s %s' % (TAGS[x], TAGS[other(x)])

    def update(self, x, idx, addr, cont):
        self.maxidx = max(self.maxidx, idx)
        if self.mt == idx:
            self.mt = None
        c = 'U cid-%d %s %s' % (idx, addr, TAGS[x])
        if self.exists[other(x)]:
            c += ' ' + TAGS[other(x)]
        if self.cfg.get('notify'):
            c += ' tcp:1.2.3.4:5 ' + ('nt' if idx == 0 else 'nt%%20%d' % idx)

        def done(res):
            self.exists[x] = True
            cont(res is not None and not res.startswith('E'))
        self.send(c, done)

    def rep(self, k, *what):
        if k is not None:
            self.reports.append((k,) + what)

    def play(self, k, x, idx, prompt, times):
        if not self.exists[x] or self.codecs[x] is None:
            if k is not None:
                self.deferred.append((k, None))
            return

        def go(ok):
            if not ok:
                self.rep(k, None)
                return
            self.send('P%d cid-%d %s %s %s' % (times, idx, prompt, self.codecs[x], self.tags(x)), lambda r: self.rep(k, r))
        if not self.exists[other(x)]:
            self.update(other(x), idx, '0.0.0.0 0', go)
        else:
            go(True)

    def stop(self, k, x, idx):
        if not self.exists[x]:
            if k is not None:
                self.deferred.append((k, None))
            return
        self.send('S cid-%d %s' % (idx, self.tags(x)), lambda r: self.rep(k, r))

    def copy(self, k, x, idx):
        def go(ok):
            if not ok:
                self.rep(k, None)
                return
            self.send('C cid-%d udp:192.0.2.77:4000 %s' % (idx, self.tags(x)), lambda r: self.rep(k, r))
        if not self.exists[x]:
            self.update(x, idx, '0.0.0.0 0', go)
        else:
            go(True)

    def record(self, k, idx, rname, flags, only_a):
        fl = flags or ''

        def second(r):
            if r is None:
                self.rep(k, None)
                return
            self.send('C%s cid-%d %s.o tt ft' % (fl, idx, rname), lambda r: self.rep(k, r))

        def go(ok):
            if not ok:
                self.rep(k, None)
            elif rname is None:
                self.send('R%s cid-%d ft tt' % (fl, idx), lambda r: self.rep(k, r))
            else:
                self.send('C%s cid-%d %s.a ft tt' % (fl, idx, rname), (lambda r: self.rep(k, r)) if only_a else second)
        if not self.exists['caller']:
            self.update('caller', idx, '0.0.0.0 0', go)
        else:
            go(True)

    def stats(self, k, idx):
        self.sent.append('Q cid-%d ft tt' % idx)

    def delete(self):
        for i in range(self.maxidx, -1, -1):
            if i != self.mt:
                self.send('D cid-%d ft tt' % i, None)
        self.maxidx = -1


def sdp(n, who):
    s = 'v=0\r\no=- 1 1 IN IP4 10.1.1.1\r\ns=-\r\nt=0 0\r\n'
    for i in range(n):
        s += 'm=audio %d RTP/AVP %s\r\nc=IN IP4 10.1.1.%d\r\n' % (4000 + 2 * i, ('0 8' if who == 'caller' else '18') if i == 0 else '3', i + 1)
    return s


def ops(full):
    L = []
    for x in SIDES:
        L += [('play', x, 0, 'pr', 1), ('stop', x, 0), ('copy', x, 0)]
        if full:
            L += [('play', x, 1, 'ot', 5), ('stop', x, 1), ('copy', x, 1)]
    L += [('record', 0, 'rn', None, False), ('record', 0, None, None, False), ('stats', 0)]
    if full:
        L += [('record', 0, 'rn', 's', True), ('record', 1, 'rn', 's', False), ('record', 1, None, 's', True), ('stats', 1), ('version',), ('quiet play', 'caller', 0, 'pr', 1),
              ('quiet play', 'callee', 0, 'pr', 1), ('quiet stop', 'callee', 0), ('quiet copy', 'callee', 0), ('quiet record', 0, 'rn', None, False), ('quiet record', 0, None, 's', False)]
    return L


ANS = {'U': ('5000', '5001 198.51.100.3', 'E33', None), 'Q': ('60 1 2 3 4', 'E8', None, '1 2 x 4 5', '1 2 3', ''), 'V': ('20040107', None)}


def scen(ch, ctx, cfg):
    w = sim.World()
    r = Relay(cfg)
    ref = Ref(cfg)
    s = rps.Rtp_proxy_session({'rtp_proxy_client': r}, 'cid', 'ft', 'tt', 'nt' if cfg.get('notify') else None)
    got = []

    def compare(what):
        need(r.sent == ref.sent, 'after %s the relay was sent %s instead of %s', what, r.sent, ref.sent)
        need(got == ref.reports, 'after %s reports are %s instead of %s', what, got, ref.reports)
        ctx.step((what, len(got)), (tuple(r.sent), repr(got), repr([p[0] for p in r.pending])))

    def loop():
        while w.thread_calls:
            f, p = w.thread_calls.pop(0)
            f(*p)

    def answer(i, res):
        ent = r.pending.pop(i)
        cmd, cb, params = ent
        if cmd[0] == 'Q':
            k = [k for k, c in direct if c is ent][0]
            try:
                v = [int(y) for y in res.split()]
                v = tuple(v) if len(v) == 5 else None
            except (AttributeError, ValueError):
                v = None
            ref.rep(k, v, 'par')
        elif cmd[0] == 'V':
            k = [k for k, c in direct if c is ent][0]
            ref.rep(k, res)
        else:
            need(ref.inflight and ref.inflight[0] == cmd, 'unexpected command %s', cmd)
            ref.answered(res)
        if cb is not None:
            cb(res, *params)
        loop()
    direct = []
    # the parties' descriptions
    for x in SIDES:
        n = cfg[x]
        if not n:
            continue
        res = []
        getattr(s, 'on_%s_sdp_change' % x)(MsgBody(sdp(n, x)), lambda b, ex=None: res.append(b))
        ref.codecs[x] = '0,8' if x == 'caller' else '18'
        for i in range(n):
            ref.update(x, i, '10.1.1.%d %d' % (i + 1, 4000 + 2 * i), lambda ok: None)
        while r.pending:
            answer(0, '50%d0' % len(r.sent))
        need(len(res) == 1 and res[0] is not None, 'description of the %s not answered', x)
    compare('set up')
    if cfg.get('timeout') is not None:
        s.media_timeout_index = ref.mt = cfg['timeout']
    todo = cfg['n']
    L = ops(cfg.get('full'))
    k = 0
    names = []
    deleted = False
    while True:
        ev = []
        if todo and not deleted:
            ev += [('op', o) for o in L]
        if cfg.get('del') and not deleted and (k or r.pending):
            ev.append(('delete',))
        for i, p in enumerate(r.pending):
            c = p[0][0]
            a = ANS.get(c, ('0', 'E7', None))
            if c == 'D' or (cfg.get('fewer') and c not in 'UQV'):
                a = ('0', None) if c != 'D' else ('0',)
            ev += [('answer', i, x) for x in a]
        if not ev or (deleted and not r.pending):
            break
        e = ev[ch.choose(len(ev))]
        if e[0] == 'op':
            o = e[1]
            todo -= 1
            k += 1
            quiet = o[0].startswith('quiet ')
            name, a = o[0].replace('quiet ', ''), o[1:]
            kk = None if quiet else k
            names.append(o)

            def cb(res, *par, k=k):
                got.append((k, res) + par)
            c = None if quiet else cb
            if name == 'play':
                getattr(ref, 'play')(kk, *a)
                getattr(s, 'play_' + a[0])(a[2], a[3], c, a[1])
            elif name == 'stop':
                ref.stop(kk, *a)
                getattr(s, 'stop_play_' + a[0])(c, a[1])
            elif name == 'copy':
                ref.copy(kk, *a)
                getattr(s, 'copy_' + a[0])('192.0.2.77', 4000, c, a[1])
            elif name == 'record':
                ref.record(kk, *a)
                s.start_recording(rname=a[1], result_callback=c, index=a[0], rflags=a[2], only_a=a[3])
            elif name == 'stats':
                ref.stats(kk, *a)
                s.stats(c, a[0], 'par')
                direct.append((kk, r.pending[-1]))
            else:
                ref.sent.append('V')
                s.version(c)
                direct.append((kk, r.pending[-1]))
            # what is known at once is reported from the main loop, never from within the call
            compare(o)
            loop()
            ref.reports += ref.deferred
            ref.deferred = []
            compare(o)
        elif e[0] == 'delete':
            deleted = True
            ref.delete()
            s.delete()
            compare('delete')
        else:
            answer(e[1], e[2])
            compare(e)
    if not deleted:
        ref.delete()
        s.delete()
        compare('delete')
        while r.pending:
            answer(0, '0')
            compare('deleted')
    need(not ref.inflight and not ref.q, 'commands not sent: %s', ref.q)
    s.delete()
    compare('deleted twice')
    n = len(got)
    need(len(set(g[0] for g in got)) == n, 'reported twice: %s', got)
    ctx.outcome = (tuple(names), repr(got))
    ctx.step('end', (tuple(names), repr(got)))


if __name__ == '__main__':
    def body():
        c = Check('C40', 'model_checking')
        base = [dict(caller=a, callee=b) for a, b in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 2))]
        c.explore('single', scen, [dict(d, n=1, full=True, notify=nt, **{'del': True}) for d in base for nt in (False, True)], max_cost=0)
        c.explore('pairs', scen, [dict(d, n=2, full=True) for d in base], max_cost=0)
        c.explore('deleted', scen, [dict(d, n=2, timeout=t, **{'del': True}) for d in base for t in (None, 0, 1) if t is None or d['caller'] > t], max_cost=0)
        c.explore('long', scen, [dict(d, n=c.q(20, 50), cycle=k, **({'full': True} if k < 3 else {'fewer': True})) for d in base for k in c.q((2, 3), (2, 3, 4))], max_cost=0)
        c.explore('triples', scen, [dict(d, n=3, fewer=True) for d in base[:c.q(3, 5)]], max_cost=0)
        c.finish()
    main(body)
