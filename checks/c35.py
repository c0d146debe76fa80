"""C35: the real event dispatcher driven by a stand-in for the tick generator that moves a virtual clock: all small
programs of timers, signals, calls from other threads, break requests, run against a monitor of deadlines and counts."""
from common import *
import os, queue, signal, threading
import time as _time
from sim import MonoTime
import sippy.Core.EventDispatcher as edm
import sippy.Time.Timeout as tmo
import sippy.Signal as sps
ED2 = edm.ED2
edm.dump_exception = lambda *a, **k: None
sps.dump_exception = lambda *a, **k: None
W = None


class Stop(BaseException):
    pass


class Elp:
    """as the real one: sleeps till the next tick, then runs what other threads have handed over, in order"""

    def __init__(self, freq):
        self.q = []

    def CFT_enable(self, signum):
        pass

    def call_from_thread(self, cb, *args):
        self.q.append((cb, args))

    def addband(self, freq):
        return 1

    def useband(self, b):
        pass

    def procrastinate(self):
        W.tick()
        q, self.q = self.q, []
        for cb, args in q:
            cb(*args)


edm.ElPeriodic = Elp


def fresh():
    sim._now[0] = sim.T0
    edm.EventDispatcher2.ed_inum = 0
    ED2.__dict__.clear()
    ED2.__init__()
    for s in (signal.SIGUSR1, signal.SIGUSR2):
        signal.signal(s, signal.SIG_DFL)


class SyncThread:
    def __init__(self):
        self.cmds, self.res = queue.Queue(), queue.Queue()
        self.want, self.got, self.busy = [], [], False
        threading.Thread(target=self.body, daemon=True).start()

    def body(self):
        while True:
            c = self.cmds.get()
            if c is None:
                return
            try:
                self.res.put(ED2.callFromThreadSync(*c))
            except BaseException as e:
                self.res.put(e)


class T:
    """what one timer has been asked to do"""

    def __init__(self, w, kind, ival, n, act, spread=0):
        self.w, self.ival, self.left, self.act, self.kind = w, ival, n, act, kind
        self.no = len(w.timers)
        self.spread = spread
        w.timers.append(self)
        w.ctr += 1
        self.args = [(), (w.ctr,), ('a', [w.ctr])][self.no % 3]
        self.lo = sim.now() + ival * (1 - spread)
        self.hi = sim.now() + ival * (1 + spread)
        self.obj = None
        if kind == 'abs':
            self.left = 1
            self.obj = tmo.TimeoutAbsMono(self.fire, MonoTime().getOffsetCopy(ival), *self.args)
        elif kind == 'rel':
            self.obj = tmo.Timeout(self.fire, ival, n, *self.args)
        else:
            self.obj = tmo.TimeoutInact(self.fire, ival, n, *self.args)
            if spread:
                self.obj.spread_runs(spread)
            if kind == 'ts':
                self.obj.cb_with_ts = True
            self.obj.go()

    def fire(self, *args):
        w = self.w
        now = sim.now()
        w.log('timer %d at %g' % (self.no, now - sim.T0))
        if self.kind == 'ts':
            w.need(len(args) and isinstance(args[0], MonoTime) and self.lo <= args[0].monot <= now, 'timer told time %s, deadline %s, now %s', args[:1], self.lo, now)
            args = args[1:]
        w.need(args == self.args, 'timer %d called with %s, not %s', self.no, args, self.args)
        w.need(self.left != 0, 'timer %d ran although cancelled or done', self.no)
        w.need(now >= self.lo, 'timer %d ran %g s early', self.no, self.lo - now)
        w.need(not w.broken, 'timer %d ran after the loop was told to end', self.no)
        for o in w.timers:
            w.need(o is self or o.left == 0 or o.hi >= self.lo, 'timer %d (due %s) ran before timer %d (due %s)', self.no, self.lo, o.no, o.hi)
        if self.left > 0:
            self.left -= 1
        if self.left:
            self.lo += self.ival * (1 - self.spread)
            self.hi += self.ival * (1 + self.spread)
        w.do(self.act, self)

    def cancel(self):
        self.left = 0
        self.obj.cancel()


class World:
    def __init__(self, ch, ctx, cfg):
        global W
        W = self
        fresh()
        self.ch, self.ctx, self.cfg = ch, ctx, cfg
        self.err = None
        self.timers = []
        self.ctr = 0
        self.broken = False
        self.pass_start = sim.now()
        self.calls, self.ran = [], []           # handed over from threads / executed
        self.sigs, self.sran = [], []
        self.sl = []
        self.rval = None
        self.events = 0
        self.script = []
        self.raised = None
        self.threads = {}
        self.before = 0
        self.main = threading.get_ident()

    def need(self, cond, *a):
        if not cond and self.err is None:
            self.err = Violation(a[0] % a[1:])
        if self.err:
            raise Stop()

    def log(self, s):
        self.events += 1
        self.ctx.step(s, (s, self.events, tuple((t.left, t.lo) for t in self.timers)))
        self.need(self.events < 300, 'endless activity')
        self.need(threading.get_ident() == self.main, 'callback not run on the main thread')

    def brk(self):
        self.ctr += 1
        self.rval = self.ctr
        self.broken = True
        ED2.breakLoop(self.rval)

    # things a callback can do
    def do(self, act, me=None):
        if act == 'raise':
            raise RuntimeError('callback fails')
        if act == 'std':
            raise edm.StdException('callback fails')
        if act == 'exit':
            self.raised = SystemExit(7)
            raise self.raised
        if act == 'kbi':
            self.raised = KeyboardInterrupt()
            raise self.raised
        if act == 'self':
            me.cancel()
        elif act == 'selfraise':
            me.cancel()
            raise RuntimeError('callback fails')
        elif act in ('next', 'prev', 'both'):
            for t in list(self.timers):
                if act == 'both' or t.no == me.no + (1 if act == 'next' else -1):
                    t.cancel()
        elif act == 'reg0':
            T(self, 'rel', 0, 1, None)
        elif act == 'reg1':
            T(self, 'rel', 1, 1, None)
        elif act == 'regself':          # replace oneself
            me.cancel()
            T(self, 'rel', 1, 2, None)
        elif act == 'slow':
            sim._now[0] += 0.25
        elif act == 'break':
            self.brk()
        elif act == 'post':
            self.post(None)
        elif act == 'usr1':
            self.raise_sig(signal.SIGUSR1)
        elif act == 'unreg':            # signal handler taking itself out
            self.unreg(me)
        elif act == 'unregnext':
            i = self.sl.index(me) + 1
            if i < len(self.sl):
                self.unreg(self.sl[i])
        elif act == 'regsig':
            self.reg(me.signum, None)

    # calls from other threads
    def post(self, act, how='plain'):
        self.ctr += 1
        n = self.ctr
        self.calls.append(n)

        def call(*a):
            self.log('call %d %s' % (n, act))
            self.need(a == (n, 'x'), 'call made with %s', a)
            self.ran.append(n)
            self.do(act)
        ED2.callFromThread(call, n, 'x')

    def post_sync(self, who, act):
        """thread number `who` asks for a call and waits for what comes of it"""
        if who not in self.threads:
            self.threads[who] = SyncThread()
        th = self.threads[who]
        if th.busy:
            return
        self.ctr += 1
        n = self.ctr
        self.calls.append(n)
        exc = {'raise': RuntimeError(n), 'kbi': KeyboardInterrupt(n), 'exit': SystemExit(n)}.get(act)

        def call(*a):
            self.log('sync call %d %s' % (n, act))
            self.need(a == (n, 'y'), 'call made with %s', a)
            self.ran.append(n)
            if exc is not None:
                raise exc
            self.do(act)
            return n * 10
        th.want.append(exc if exc is not None else n * 10)
        th.busy = True
        before = len(ED2.elp.q)
        th.cmds.put((call, n, 'y'))
        for _ in range(20000):
            if len(ED2.elp.q) > before:
                return
            _time.sleep(0.0001)
        self.need(False, 'a call is not handed over')

    def sync_check(self):
        for th in self.threads.values():
            if not th.busy:
                continue
            try:
                th.got.append(th.res.get(timeout=5))
            except queue.Empty:
                self.need(False, 'a thread has not got the result of its call')
            th.busy = False
            self.need(th.got == th.want, 'a thread got %s for its calls, not %s', th.got, th.want)

    # signals
    def reg(self, signum, act):
        self.ctr += 1

        class H:
            pass
        h = H()
        h.n, h.signum, h.act = self.ctr, signum, act

        def run(*a, **k):
            self.log('signal %d handler %d' % (signum, h.n))
            self.need(not self.broken, 'a signal handler ran after the loop was told to end')
            self.need(h in self.sl, 'a signal handler ran after it was removed')
            self.need(a == (h.n,) and k == {'z': h.n}, 'signal handler called with %s %s', a, k)
            self.sran.append(h.n)
            self.do(h.act, h)
        h.obj = ED2.regSignal(signum, run, h.n, z=h.n)
        self.sl.append(h)

    def unreg(self, h):
        self.sl.remove(h)
        ED2.unregSignal(h.obj)
        if not [x for x in self.sl if x.signum == h.signum]:
            self.need(signal.getsignal(h.signum) == signal.SIG_DFL, 'signal disposition not restored')

    def raise_sig(self, signum):
        if [h for h in self.sl if h.signum == signum]:
            self.sigs.append(signum)
            os.kill(os.getpid(), signum)

    # one turn of the loop is over
    def tick(self):
        self.need(not self.broken, 'the loop sleeps although told to end')
        self.need(self.raised is None, 'the loop goes on after %r', self.raised)
        for t in self.timers:
            self.need(t.left == 0 or t.hi > self.pass_start, 'timer %d due at %g has not run at %g', t.no, t.hi - sim.T0, self.pass_start - sim.T0)
        n = len(self.ran)
        self.need(self.ran == self.calls[:n] and n >= self.before, 'calls handed over %s, made %s', self.calls, self.ran)
        self.sync_check()
        if not self.script:
            raise Stop()
        self.script.pop(0)()
        self.before = len(self.calls)
        sim._now[0] += self.cfg.get('tick', 1)
        self.pass_start = sim.now()

    def run(self, script):
        self.script = script
        while True:
            self.pass_start = sim.now()
            self.broken = False
            try:
                r = ED2.loop()
            except Stop:
                break
            except (SystemExit, KeyboardInterrupt) as e:
                if self.err:
                    break
                if e is not self.raised:
                    raise Violation('the loop ends with %r' % (e,))
                self.raised = None
                continue
            if self.err:
                break
            need(self.broken, 'the loop ended by itself')
            need(r == self.rval, 'the loop returned %r, not %r', r, self.rval)
        for th in self.threads.values():
            th.cmds.put(None)
        if self.err:
            raise self.err


SPECS = [('rel', 0, 1), ('rel', 1, 1), ('rel', 2, 1), ('rel', 1, 2), ('rel', 1, 3), ('rel', 2, -1), ('rel', 1, -1), ('inact', 1, 1), ('ts', 1, 2),
         ('abs', -1, 1), ('abs', 0, 1), ('abs', 1, 1), ('abs', 2, 1)]
ACTS = [None, 'raise', 'self', 'next', 'prev', 'both', 'reg0', 'reg1', 'regself', 'slow', 'break', 'selfraise', 'exit', 'post']


def timers(ch, ctx, cfg):
    w = World(ch, ctx, cfg)
    T(w, *cfg['first'])
    for i in range(cfg['n'] - 1):
        T(w, *ch.pick(cfg['specs']), ch.pick(cfg['acts']))
    L = cfg['n']

    def outer():
        k = ch.choose(2 + L, 1)
        if k >= 2:
            if k - 2 < len(w.timers):
                w.timers[k - 2].cancel()
        elif k == 1:
            T(w, 'rel', 1, 2, None)
    k = ch.choose(1 + L, 1)
    if k:
        w.timers[k - 1].cancel()
    w.run([outer] * cfg['ticks'])
    ctx.outcome = str(min(w.events, 12))


N = 13
MASKS = sorted((m for m in range(1 << N) if bin(m).count('1') > N // 2), key=lambda m: (bin(m).count('1'), m))


def pruned(ch, ctx, cfg):
    """most of the timers cancelled: whatever remains runs when due, the cancelled ones never"""
    w = World(ch, ctx, cfg)
    a, b = cfg['order']
    for i in range(N):
        T(w, 'rel', 1 + (a * i + b) % N, 1, None)

    def cull():
        for i in range(N):
            if mask >> i & 1:
                w.timers[i].cancel()
    mask = ch.pick(MASKS)
    w.run([lambda: None] * cfg['at'] + [cull] + [lambda: None] * (N + 1 - cfg['at']))
    need(all(t.left == 0 for t in w.timers), 'timers left over')
    ctx.outcome = str(min(w.events, 12))


def spread(ch, ctx, cfg):
    """randomised intervals stay within what was asked"""
    w = World(ch, ctx, cfg)
    old = edm.random
    edm.random = lambda: ch.pick([0.5, 0.0, 0.999999])
    try:
        T(w, 'inact', 2, cfg['n'], cfg['act'], 0.25)
        T(w, *cfg['other'], None)
        w.run([lambda: None] * 8)
    finally:
        edm.random = old


CALLS = [None, 'raise', 'exit', 'kbi', 'break', 'post', 'reg0', 'usr1', 'std']


def calls(ch, ctx, cfg):
    w = World(ch, ctx, cfg)
    w.reg(signal.SIGUSR1, None)
    T(w, *cfg['timer'])

    def step():
        k = ch.choose(3)
        if k == 0:
            w.post(cfg['act'])
        elif k == 1:
            w.post(cfg['act'])
            w.post(ch.pick(CALLS))
        else:
            w.post(ch.pick(CALLS))
            w.post(cfg['act'])
            w.post(None)
    w.run([step, step, lambda: None, lambda: None, lambda: None])
    need(w.ran == w.calls, 'calls %s, made %s', w.calls, w.ran)
    need(len(w.sran) == len(w.sigs), '%d signals, %d handled', len(w.sigs), len(w.sran))


def sync(ch, ctx, cfg):
    w = World(ch, ctx, cfg)
    T(w, 'rel', 1, 3, None)

    def step():
        w.post_sync(0, cfg['act'])
        if ch.choose(2):
            w.post(None)
        k = ch.choose(len(SYNCS) + 1)
        if k:
            w.post_sync(1, SYNCS[k - 1])
    w.run([step, step, lambda: None])
    need(w.ran == w.calls, 'calls %s, made %s', w.calls, w.ran)


SYNCS = [None, 'raise', 'kbi', 'exit', 'reg0', 'break']


def signals(ch, ctx, cfg):
    w = World(ch, ctx, cfg)
    acts = [cfg['act'], ch.pick(SIGACTS), ch.pick(SIGACTS)]
    w.reg(signal.SIGUSR1, acts[0])
    w.reg(signal.SIGUSR1, acts[1])
    w.reg(signal.SIGUSR2, acts[2])
    exp = []
    reftab = [[h.n, h.signum, h.act] for h in w.sl]
    ref_ctr = [w.ctr]

    def step():
        need(w.sran == exp, 'signal handlers run: %s, expected %s', w.sran, exp)
        k = ch.choose(5)
        for s in ([], ['1'], ['2'], ['1', '2'], ['2', '1', '1'])[k]:
            s = signal.SIGUSR1 if s == '1' else signal.SIGUSR2
            w.raise_sig(s)
        # what should come of it
        for s in w.sigs:
            snap = [x for x in reftab if x[1] == s]
            for x in snap:
                if x not in reftab:
                    continue
                exp.append(x[0])
                if x[2] == 'unreg':
                    reftab.remove(x)
                elif x[2] == 'unregnext':
                    i = reftab.index(x) + 1
                    if i < len(reftab):
                        del reftab[i]
                elif x[2] == 'regsig':
                    w_n = x
                    ref_ctr[0] += 1
                    reftab.append([ref_ctr[0], x[1], None])
        w.sigs = []
    w.run([step, step, step, lambda: None])
    need(w.sran == exp, 'signal handlers run: %s, expected %s', w.sran, exp)
    for h in list(w.sl):
        w.unreg(h)
    need(w.err is None, '%s', w.err)


SIGACTS = [None, 'raise', 'unreg', 'unregnext', 'regsig']


def breaks(ch, ctx, cfg):
    """a break request ends the loop whatever else is waiting, and what was waiting is done in the next run"""
    w = World(ch, ctx, cfg)
    by = cfg['by']
    w.reg(signal.SIGUSR2, 'break' if by == 'signal' else None)
    w.reg(signal.SIGUSR1, None)
    T(w, 'rel', 1, 1, 'break' if by == 'timer' else None)
    T(w, *ch.pick(SPECS), None)
    n1 = [0]

    def step():
        for x in ORD[ch.choose(len(ORD))]:
            if x == 's':
                w.raise_sig(signal.SIGUSR2)
            elif x == 'S':
                w.raise_sig(signal.SIGUSR1)
            elif x == 'c':
                w.post('break' if by == 'call' else None)
            else:
                w.post(None)
    w.run([step, step, lambda: None])
    need(len(w.sran) == len(w.sigs), '%d signals, %d handled', len(w.sigs), len(w.sran))
    need(w.ran == w.calls, 'calls %s, made %s', w.calls, w.ran)


ORD = ['', 's', 'c', 'Ss', 'sS', 'cS', 'Cc', 'cC', 'sc', 'cs', 'SsS', 'ssc', 'ScsC']


def timed(ch, ctx, cfg):
    """loop(timeout) lasts as long as asked, and a second one after it too"""
    w = World(ch, ctx, cfg)
    T(w, *cfg['timer'])
    w.script = [lambda: None] * 30
    for i in range(2):
        to = ch.pick([0, 0.5, 1, 2.5])
        start = sim.now()
        w.pass_start = start
        w.broken = False
        try:
            if ch.choose(2):
                r = ED2.loop(timeout=to)
            else:
                r = ED2.loop(to, 50.0)
        except Stop:
            raise w.err or Violation('loop(timeout) does not end')
        if w.err:
            raise w.err
        lasted = sim.now() - start
        need(w.broken or lasted >= to, 'loop(%g) ended after %g s', to, lasted)
        need(lasted <= to + 1 + cfg['tick'] + 1.25 * w.events, 'loop(%g) ended after %g s', to, lasted)
        for t in w.timers:
            need(w.broken or t.left == 0 or t.hi > w.pass_start, 'timer not run')


def sigobj(ch, ctx, cfg):
    """sippy.Signal: handlers chained to the earlier ones, restored on cancel, run on the loop once per signal"""
    w = World(ch, ctx, cfg)
    got = []
    obs = []
    S = signal.SIGUSR1
    prev = []
    if cfg['prev']:
        signal.signal(S, lambda *a: prev.append(a[0]))
    base = signal.getsignal(S)

    def mk(i):
        def cb(*a):
            w.log('signal object %d' % i)
            w.need(a == ('p', i), 'called with %s', a)
            got.append(i)
            w.do(cfg['act'] if i == 0 else None)
        return cb
    nprev = [0]

    def add():
        i = len(obs)
        obs.append(sps.Signal(S, mk(i), 'p', i))
    exp = []
    add()

    def step():
        need(sorted(got) == sorted(exp), 'signal callbacks %s, expected %s', got, exp)
        k = ch.choose(4)
        if k == 0:
            pass
        elif k == 1:
            if len(obs) < 3:
                add()
        elif k == 2 and obs:
            obs.pop().cancel()
            if not obs:
                w.need(signal.getsignal(S) == base, 'earlier signal disposition not restored')
        n = ch.choose(3)
        if not obs and not cfg['prev']:
            n = 0
        for _ in range(n):
            os.kill(os.getpid(), S)
            nprev[0] += 1 if cfg['prev'] else 0
            exp.extend(range(len(obs)))
    w.run([step, step, step, step, lambda: None, lambda: None])
    need(sorted(got) == sorted(exp), 'signal callbacks %s, expected %s', got, exp)
    need(len(prev) == nprev[0], 'the earlier handler saw %d of %d signals', len(prev), nprev[0])
    signal.signal(S, signal.SIG_DFL)


if __name__ == '__main__':
    def body():
        c = Check('C35', 'model_checking')
        L = [dict(n=2, first=s + (a,), specs=SPECS, acts=ACTS, tick=t, ticks=4) for s in SPECS for a in ACTS for t in (1, 2.5)]
        c.explore('timers', timers, L, max_cost=c.q(0, 1))
        R = [('rel', 1, 1), ('rel', 2, 1), ('rel', 1, 2), ('abs', 2, 1)]
        L = [dict(n=2, first=s + (a,), specs=R, acts=[None, 'raise', 'next', 'prev', 'self', 'break'], tick=t, ticks=5) for s in SPECS for a in ACTS for t in (1, 1.5)]
        c.explore('timers2', timers, L, max_cost=c.q(1, 2))
        L = [dict(n=3, first=s + (a,), specs=R, acts=[None, 'raise', 'next', 'prev', 'slow'], tick=t, ticks=5) for s in R for a in ACTS for t in (1, 2.5)]
        c.explore('timers3', timers, L, max_cost=c.q(0, 1))
        L = [dict(order=o, at=t, tick=1) for o in c.q([(a, (k * a) % N) for a in range(1, N) for k in (1, 5, 7)], [(a, b) for a in range(1, N) for b in range(N)]) for t in c.q((0,), (0, 2))]
        c.explore('pruned', pruned, L)
        c.explore('spread', spread, [dict(n=n, act=a, other=o, tick=0.5) for n in (1, 2, -1) for a in (None, 'raise', 'self') for o in R])
        c.explore('calls', calls, [dict(act=a, timer=t, tick=1) for a in CALLS for t in (('rel', 1, -1, None), ('rel', 1, 2, 'post'))])
        c.explore('sync', sync, [dict(act=a, tick=1) for a in SYNCS])
        c.explore('signals', signals, [dict(act=a, tick=1) for a in SIGACTS])
        c.explore('breaks', breaks, [dict(by=b, tick=1) for b in ('timer', 'signal', 'call')])
        c.explore('timed', timed, [dict(timer=s + (a,), tick=t) for s in SPECS for a in (None, 'raise', 'break', 'slow') for t in (0.5, 1)])
        c.explore('signal-objects', sigobj, [dict(prev=p, act=a, tick=1) for p in (0, 1) for a in (None, 'raise')])
        c.finish()
    main(body)
