"""C32: the pool of external helpers, under every schedule of its threads within the preemption bound and with
helpers that die or fail at any read or write."""
from common import *
import gc, weakref, subprocess, errno
sim.virtualize_dispatcher()
import sched
from sched import Sched
import sippy.Core.EventDispatcher as ed
real_popen = subprocess.Popen


class Helper:
    """a helper process: answers 'in:<line>' for each line of a request"""
    all = []

    def __init__(self, cmd, **kw):
        H = Helper.h
        H.spawned += 1
        S = Sched.cur
        S.point('spawn')
        if H.fault('spawn'):
            raise OSError(2, 'No such file or directory')
        self.id = H.spawned
        self.inbuf, self.outbuf = [], []
        self.dead = False
        self.returncode = None
        self.half = False
        self.stdin, self.stdout, self.stderr = In(self), Out(self), Out(self)
        self.state = St()
        self.stdin.st = self.state
        H.helpers.append((weakref.ref(self), weakref.ref(self.stdin), self.state))

    def die(self):
        self.dead = True
        self.returncode = self.state.returncode = 1

    def poll(self):
        return self.returncode

    def wait(self, timeout=None):
        if not self.state.closed and not self.dead:
            raise subprocess.TimeoutExpired('helper', timeout)
        self.returncode = 0
        return 0

    def kill(self):
        self.die()

    terminate = kill


class St:
    closed = False
    returncode = None


class In:
    closed = False

    def __init__(self, p):
        self.p = weakref.ref(p)

    def write(self, data):
        S, p = Sched.cur, self.p()
        S.point('write')
        need(isinstance(data, bytes), 'text written to the helper: %r', data)
        if not p.dead and Helper.h.fault('write'):
            p.die()
        if p.dead:
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        Helper.h.took(p, data)
        for line in data.splitlines(True):
            p.inbuf.append(line)
            if line == b'\n':
                need(not p.outbuf, 'helper %d is given a request while the previous one is being answered', p.id)
                p.outbuf = [b'in:' + x for x in p.inbuf[:-1]] + [b'\n']
                p.inbuf = []
        return len(data)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def flush(self):
        Sched.cur.point('flush')

    def close(self):
        self.closed = True
        self.st.closed = True


class Out:
    def __init__(self, p):
        self.p = weakref.ref(p)

    def readline(self):
        S, p = Sched.cur, self.p()
        S.point('read', lambda: p.dead or p.outbuf)
        if p.dead:
            return b''
        f = Helper.h.fault('read')
        if f == 'eintr':
            raise IOError(errno.EINTR, 'Interrupted system call')
        if f == 'eio':
            raise IOError(errno.EIO, 'I/O error')
        if f:
            p.die()
            return p.outbuf[0][:2] if f == 'half' and p.outbuf[0] != b'\n' else b''
        return p.outbuf.pop(0)

    def read(self, n=-1):
        Sched.cur.point('read')
        return b''

    def close(self):
        pass


subprocess.Popen = Helper
ec = sched.load_with_stubs('sippy.External_command')
subprocess.Popen = real_popen
ec.Popen = Helper
ec.dump_exception = lambda *a, **k: None
FILES = {ec.__file__}


class Req:
    pass


class Hn:
    def __init__(self, ch, cfg):
        self.ch, self.cfg = ch, cfg
        self.spawned = 0
        self.helpers = []
        self.reqs = []
        self.faults = cfg.get('faults', 0)
        self.calls = []
        self.order = []

    def fault(self, kind):
        if self.faults <= 0 or kind not in self.cfg.get('kinds', ('write', 'read')):
            return None
        if kind == 'read':
            m = self.cfg.get('rf', (None, 'dead', 'half', 'eintr', 'eio'))
        else:
            m = (None, 'dead')
        f = m[self.ch.choose(len(m))]
        if f:
            self.faults -= 1
            if f != 'eintr':
                self.nfaults = getattr(self, 'nfaults', 0) + 1
        return f

    def took(self, p, data):
        if data.startswith(b'id'):
            i = int(data[2:].split()[0])
            self.order.append(i)
            self.reqs[i].helper = p.id


def scen(ch, ctx, cfg):
    s = Sched(ch, FILES)
    h = Helper.h = Hn(ch, cfg)
    died = []
    s.onexc = lambda t, e: died.append((t.name, repr(e)))
    try:
        return scen1(ch, ctx, cfg, s, h, died)
    finally:
        s.close()
        h.ch = None


def scen1(ch, ctx, cfg, s, h, died):
    w = sim.World()
    looping = []
    x = {}

    def cb(result, i, tag):
        try:
            cb1(result, i, tag)
        except Violation as e:
            x['bad'] = e        # the code under test swallows what its owner throws
            raise

    def cb1(result, i, tag):
        looping.append(s.me() is x['loop'])
        r = h.reqs[i]
        r.calls += 1
        r.result = result
        need(tag == 'tag%d' % i, 'request %d called back with parameters of another: %s', i, tag)
        need(s.me() is x['loop'], 'callback of request %d outside of the main loop', i)
        need(not r.cancelled, 'request %d called back after it was cancelled', i)
        need(r.calls == 1, 'request %d called back %d times', i, r.calls)
        if cfg.get('raise') == i:
            raise RuntimeError('owner fails')

    def loop():
        while True:
            s.point('loop', lambda: w.thread_calls or x.get('quit'))
            if not w.thread_calls:
                return
            f, p = w.thread_calls.pop(0)
            x['busy'] = True
            try:
                f(*p)
                x['busy'] = False
            except Violation:
                raise
            except Exception as e:
                need(False, 'exception on the main loop: %r', e)

    def script(ops):
        def body():
            if not x.get('ec'):
                s.point('start', lambda: x.get('ec'))
            for op in ops:
                ctx.step('%s' % (op,), None)
                if op[0] == 'req':
                    r = Req()
                    i = r.no = op[1]
                    r.calls, r.cancelled, r.result, r.helper, r.late = 0, False, None, None, x.get('down', False)
                    while len(h.reqs) <= i:
                        h.reqs.append(None)
                    h.reqs[i] = r
                    r.data = ['id%d' % i, 'x=%d' % i][:op[2] if len(op) > 2 else 2]
                    r.wi = x['ec'].process_command(r.data, cb, i, 'tag%d' % i)
                elif op[0] == 'cancel':
                    s.point('c', lambda: len(h.reqs) > op[1] and h.reqs[op[1]] is not None and hasattr(h.reqs[op[1]], 'wi'))
                    r = h.reqs[op[1]]
                    busy = x.get('busy') and s.me() is not x['loop']     # a delivery is under way: either may win
                    r.wi.cancel()
                    if busy or (x.get('busy') and s.me() is not x['loop']):
                        r.raced = True
                    else:
                        r.cancelled = True
                elif op[0] == 'down':
                    x['down'] = True
                    x['ec'].shutdown()
        return body
    x['loop'] = s.spawn('loop', loop)

    def starter():
        x['ec'] = ec.External_command(('helper', '-s'), max_workers=cfg['workers'])
    s.spawn('starter', starter)
    if not cfg.get('startup'):
        s.quiet = True
        s.run()
        s.quiet = False
    for k, ops in enumerate(cfg['scripts']):
        if cfg.get('onloop') == k:
            sim.World.cur.thread_calls.append((script(ops), ()))
        else:
            s.spawn('script%d' % k, script(ops))
    left = s.run()
    if x.get('bad'):
        raise x['bad']
    names = sorted(t.name for t in left)
    need(all(n.startswith(('_Worker', 'loop')) or 'Worker' in n for n in names), 'threads stuck: %s', names)
    done = []
    for r in h.reqs:
        if r is None:
            continue
        if r.cancelled:
            done.append('c%d' % r.calls)
            continue
        if r.late or (getattr(r, 'raced', False) and not r.calls):
            continue
        need(r.calls == 1, 'request %d is never answered (threads ended by %s)', r.no, died)
        full = tuple(b'in:' + l.encode() for l in r.data)
        if r.result != full:
            need(getattr(h, 'nfaults', 0) > 0, 'request %d answered with %s instead of %s', r.no, r.result, full)
            need(r.result == full[:len(r.result)], 'request %d answered with %s instead of %s', r.no, r.result, full)
            done.append('f%d' % len(r.result))
        else:
            done.append('ok')
    bad = len([d for d in done if d[0] == 'f'])
    need(bad <= getattr(h, 'nfaults', 0), '%d requests failed because of %d failures', bad, getattr(h, 'nfaults', 0))
    if cfg['workers'] == 1 and len(cfg['scripts']) == 1:
        need(h.order == sorted(h.order), 'requests served out of order: %s', h.order)
    if not x.get('down'):
        s.spawn('final', lambda: x['ec'].shutdown())
        s.run()
    x['quit'] = True
    left = s.run()
    need(not left, 'threads left after shutdown: %s', [t.name for t in left])
    x.pop('ec')
    alive = [i for i, (p, i_, st) in enumerate(h.helpers) if p() is not None and not st.closed and st.returncode is None and not (i_() is None)]
    if alive:
        for t in s.tasks:
            t.fn = t.thread._target = None
        gc.collect()
        alive = [i for i, (p, i_, st) in enumerate(h.helpers) if p() is not None and not st.closed and st.returncode is None and not (i_() is None)]
    need(not alive, '%d helpers left running after shutdown', len(alive))
    ctx.outcome = (tuple(done), tuple(h.order), len(h.helpers))
    ctx.steps += s.steps
    ctx.step('end', (tuple(done), tuple(h.order), tuple(s.switches[-6:])))


if __name__ == '__main__':
    def body():
        c = Check('C32', 'model_checking')
        P = c.q(1, 2)
        two = [[('req', 0), ('req', 1)]]
        L = []
        L.append(dict(name='plain', workers=1, scripts=two))
        L.append(dict(name='two', workers=2, scripts=two))
        L.append(dict(name='producers', workers=1, scripts=[[('req', 0)], [('req', 1)]]))
        L.append(dict(name='cancel', workers=1, scripts=[[('req', 0), ('cancel', 0), ('req', 1)]]))
        L.append(dict(name='cancel2', workers=1, scripts=[[('req', 0), ('req', 1)], [('cancel', 0)]]))
        L.append(dict(name='cancelloop', workers=1, onloop=0, scripts=[[('cancel', 0)], [('req', 0), ('req', 1)]]))
        L.append(dict(name='raise', workers=1, scripts=two, **{'raise': 0}))
        L.append(dict(name='down', workers=2, scripts=[[('req', 0), ('req', 1), ('down',)]]))
        L.append(dict(name='down1', workers=1, scripts=[[('req', 0), ('down',), ('req', 1)]]))
        c.explore('schedules', scen, L, max_cost=lambda cfg: 2 if cfg['workers'] == 1 or c.thorough else 1)
        c.explore('startup', scen, [dict(name='startup', workers=1, startup=True, scripts=[[('req', 0)]], faults=1, kinds=('spawn',))], max_cost=c.q(1, 2))
        three = [[('req', 0), ('req', 1), ('req', 2, 1)]]
        F = [dict(name='fault1', workers=1, scripts=three, faults=2, kinds=('read', 'write', 'spawn'))]
        F.append(dict(name='fault2', workers=2, scripts=three, faults=2, kinds=('read', 'write')))
        F.append(dict(name='faultdown', workers=2, scripts=[three[0] + [('down',)]], faults=1))
        c.explore('failures', scen, F, max_cost=c.q(0, 1))
        G = [dict(name='fs', workers=1, scripts=two, faults=1, rf=(None, 'dead')), dict(name='fc', workers=1, scripts=[[('req', 0), ('cancel', 0), ('req', 1)]], faults=1, rf=(None, 'dead'))]
        c.explore('failures-sched', scen, G, max_cost=c.q(1, 2))
        # many requests, failures coming again and again
        many = [[('req', i, 1 + i % 2) for i in range(c.q(16, 40))]]
        H = [dict(name='many%d' % k, workers=v, scripts=many, faults=1000, kinds=('read', 'write'), rf=(None, 'dead', 'half', 'eintr'), cycle=k) for k in c.q((2, 4, 6), (2, 3, 4, 5, 6, 7)) for v in (1, 2)]
        c.explore('long', scen, H, max_cost=0)
        if c.thorough:
            c.explore('schedules3', scen, [L[0], L[3], L[4], L[8]], max_cost=3)
        c.finish()
    main(body)
