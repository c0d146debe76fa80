"""C33: the log writer under every schedule of its threads within the preemption bound, with rotation and with a
file system that fails at any open, lock, write or flush."""
from common import *
import errno, re, os, signal as _sig
sim.virtualize_dispatcher()
import sched
from sched import Sched
import sippy.Signal as sps
sps.dump_exception = lambda *a, **k: None
sl = sched.load_with_stubs('sippy.SipLogger')
FILES = {sl.__file__, sps.__file__}
E = None            # the environment of the run


class Env:
    def __init__(self, ch, cfg):
        self.ch, self.cfg = ch, cfg
        self.names = {}         # path -> inode
        self.inodes = []
        self.faults = cfg.get('faults', 0)
        self.cost = 0
        self.handlers = {}
        self.sys = []
        self.hold = False

    def fault(self, kind, errs):
        if self.faults <= 0 or kind not in self.cfg.get('kinds', ('open', 'flock', 'write', 'flush')):
            return
        k = self.ch.choose(len(errs) + 1)
        if k:
            self.faults -= 1
            self.cost += 1
            raise OSError(errs[k - 1], 'failure')


class File:
    def __init__(self, path, mode='r', *a, **k):
        Sched.cur.point('open')
        need(isinstance(path, str) and 'a' in mode, 'log opened as %r, %r', path, mode)
        E.fault('open', (errno.EACCES,))
        if path not in E.names:
            E.names[path] = []
            E.inodes.append(E.names[path])
        self.ino = E.names[path]
        self.buf = ''
        self.closed = False

    def write(self, s):
        Sched.cur.point('write', lambda: not E.hold)
        if self.closed:
            raise ValueError('I/O operation on closed file')
        E.fault('write', (errno.EIO,))
        self.buf += s
        return len(s)

    def flush(self):
        Sched.cur.point('flush')
        E.fault('flush', (errno.ENOSPC,))
        self.sync()

    def sync(self):
        b, self.buf = self.buf, ''
        if b:
            self.ino.append(b)

    def fileno(self):
        return 99

    def close(self):
        self.sync()
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        self.sync()


def flock(f, how):
    Sched.cur.point('flock')
    f.fileno()
    if E.cfg.get('nolock'):
        raise OSError(errno.ENOTSUP, 'Operation not supported')
    if how != sl.LOCK_UN:
        E.fault('flock', (errno.ENOLCK,))


class Syslog:
    LOG_PID, LOG_NOTICE = 1, 2

    @staticmethod
    def openlog(*a):
        Sched.cur.point('openlog')
        E.fault('open', (errno.EACCES,))

    @staticmethod
    def syslog(pri, msg):
        Sched.cur.point('syslog')
        E.fault('write', (errno.EIO,))
        E.sys.append(msg)

    @staticmethod
    def closelog():
        pass


def fake_signal(num, handler):
    old = E.handlers.get(num, _sig.SIG_DFL)
    E.handlers[num] = handler
    return old


sl.open = File
sl.flock = flock
sl.syslog = Syslog
sl.print = lambda *a, **k: None
sl.time = lambda: 1700000000.25
sps.signal = fake_signal
LINE = re.compile(r'^(\d\d \w{3} \d\d:\d\d:\d\d\.\d{3}|\d\d:\d\d:\d\d\.\d{3})/(\S+?)(/app)?: (.*)\n$', re.S)
SPLIT = re.compile(r'(?m)^(?=\d\d \w{3} \d\d:\d\d:\d\d\.\d{3}/|\d\d:\d\d:\d\d\.\d{3}/)')
PATH = '/var/log/test.log'


def scen(ch, ctx, cfg):
    global E
    s = Sched(ch, FILES)
    E = Env(ch, cfg)
    died = []
    s.onexc = lambda t, e: died.append((t.name, repr(e)))
    try:
        return scen1(ch, ctx, cfg, s, died)
    finally:
        s.close()


def scen1(ch, ctx, cfg, s, died):
    w = sim.World()
    x = {}
    env = E
    os.environ['SIPLOG_BEND'] = cfg.get('bend', 'file')
    os.environ['SIPLOG_LVL'] = 'INFO'
    os.environ['SIPLOG_TFORM'] = cfg.get('tform', 'abs')
    written, sure = [], []

    def loop():
        while True:
            s.point('loop', lambda: w.thread_calls or x.get('quit'))
            if not w.thread_calls:
                return
            f, p = w.thread_calls.pop(0)
            f(*p)

    def script(k, ops):
        def body():
            s.point('begin', lambda: 'log' in x)
            for n, op in enumerate(ops):
                if op == 'w':
                    txt = 'rec-%d-%d' % (k, n)
                    written.append((k, n, txt))
                    x['log'].write('rec-%d' % k, '-%d' % n, call_id='cid%d' % k)
                    if not x.get('down'):
                        sure.append(txt)
                elif op == 'm':
                    txt = 'rec-%d-%d\nsecond\n' % (k, n)
                    written.append((k, n, txt))
                    x['log'].write(txt)
                    if not x.get('down'):
                        sure.append(txt)
                elif op == 'debug':
                    x['log'].write('rec-never', level=sl.SIPLOG_DBUG)
                elif op == 'rot':
                    s.point('rot')
                    if PATH in env.names:
                        env.names['%s.%d' % (PATH, len(env.names))] = env.names.pop(PATH)
                elif op == 'hup':
                    s.point('hup')
                    h = env.handlers.get(_sig.SIGUSR1)
                    if callable(h):
                        h(_sig.SIGUSR1, None)
                elif op == 'reopen':
                    x['log'].reopen()
                elif op == 'down':
                    x['before'] = list(sure)
                    x['down'] = True
                    x['log'].shutdown()
                    x['closed'] = True
                    x['content'] = [l for i in env.inodes for l in i] + env.sys
                    lg = x['threads']
                    need(all(t.done for t in lg if t.name.startswith('AsyncLog')), 'the writer goes on after shutdown')
        return body

    def starter():
        x['log'] = sl.SipLogger('app', logfile=PATH)
    x['threads'] = s.tasks
    s.spawn('loop', loop)
    s.spawn('starter', starter)
    if not cfg.get('startup'):
        s.quiet = True
        s.run()
        s.quiet = False
    for k, ops in enumerate(cfg['scripts']):
        s.spawn('script%d' % k, script(k, ops))
    left = s.run()
    bad = [d for d in died if d[0].startswith(('script', 'loop', 'starter'))]
    need(not bad, 'the caller is disturbed: %s', bad)
    names = [t.name for t in left]
    need(not [n for n in names if n.startswith(('script', 'starter'))], 'blocked: %s', names)
    if not x.get('down'):
        s.spawn('final', script(9, ['down']))
        s.quiet = True
        left = s.run()
        need('final' not in [t.name for t in left], 'shutdown never ends')
        s.quiet = False
    x['quit'] = True
    left = s.run()
    need(not left, 'threads left: %s', [t.name for t in left])
    if env.cost == 0:
        need(not died, 'a thread ended with %s', died)
    recs = judge(x['content'], written, x['before'], cfg, env)
    after = [t for (k, n, t) in written if t not in x['before'] and t in recs]
    ctx.steps += s.steps
    ctx.step('end', (tuple(recs), env.cost, len(env.inodes)))
    ctx.outcome = (tuple(recs), len(env.inodes), env.cost)
    if cfg.get('rotated') and not env.cost:
        # what is written after the file was re-opened goes to the new file
        newest = env.names.get(PATH)
        need(newest is not None and any('rec-0-%d' % cfg['rotated'] in l for l in newest), 'records written after re-opening go to the old file')


def judge(content, written, before, cfg, env):
    recs = []
    lines = [l for l in SPLIT.split(''.join(content)) if l] if cfg.get('bend') != 'syslog' else content
    if cfg.get('bend') != 'syslog' and not env.cost:
        n = len([l for l in lines if ': Registering signal' in l])
        need(n == 1, 'the first record is logged %d times', n)
    for l in lines:
        m = LINE.match(l)
        need(m is not None, 'unreadable record %r', l)
        txt = m.group(4)
        if txt.startswith('rec-'):
            need(txt != 'rec-never', 'a record below the level is logged')
            k = txt.split('-')[1]
            if not txt.endswith('\n'):
                need(m.group(2) == 'cid%s' % k, 'record %r under call id %s', txt, m.group(2))
            recs.append(txt)
    for r in recs:
        need(recs.count(r) == 1, 'record %r is logged %d times', r, recs.count(r))
        need(r in [t for a, b, t in written], 'record %r was never written', r)
    miss = [t for t in before if t not in recs]
    need(len(miss) <= env.cost, '%d records lost (%s) with %d failures', len(miss), miss, env.cost)
    for k in set(a for a, b, t in written):
        mine = [t for a, b, t in written if a == k and t in recs]
        got = [r for r in recs if r in mine]
        need(got == mine, 'records of one writer out of order: %s', got)
    return recs


def flood(ch, ctx, cfg):
    """more records than the queue holds while the disk stands still"""
    global E
    s = Sched(ch, set(), budget_steps=10 ** 6)
    E = Env(ch, cfg)
    s.quiet = True
    os.environ['SIPLOG_BEND'] = 'file'
    os.environ['SIPLOG_LVL'] = 'INFO'
    x = {}
    try:
        sim.World()

        def body():
            x['log'] = sl.SipLogger('app', logfile=PATH)
            for i in range(cfg['first']):
                x['log'].write('pre-%d' % i)
            s.point('drain', lambda: not x['log'].wi)
            E.hold = True
            for i in range(cfg['n']):
                x['log'].write('f-%d' % i)
            E.hold = False
            x['log'].shutdown()
        s.spawn('body', body)
        s.run()
        rec = [LINE.match(l).group(4) for i in E.inodes for l in i]
        got = [int(r[2:]) for r in rec if r.startswith('f-')]
        need(got == sorted(set(got)), 'records out of order or repeated')
        need(len(got) >= min(cfg['n'], 1000), 'only %d of %d records kept', len(got), cfg['n'])
        need(not got or got[-1] == cfg['n'] - 1, 'the latest record is lost')
        if cfg['n'] <= 1000:
            need(got == list(range(cfg['n'])), 'records lost though the queue was not full')
        ctx.step('f', len(got))
        ctx.outcome = len(got)
    finally:
        s.close()


if __name__ == '__main__':
    def body():
        c = Check('C33', 'model_checking')
        L = []
        for bend in ('file', 'syslog'):
            b = dict(bend=bend)
            L.append(dict(b, name='start', b=2 if bend == 'file' else 1, startup=True, scripts=[['w', 'w']]))
            L.append(dict(b, name='two', scripts=[['w', 'm', 'w'], ['w', 'debug', 'w']]))
            L.append(dict(b, name='down', scripts=[['w', 'w', 'down'], ['w']]))
        L.append(dict(name='rot', b=2, scripts=[['w', 'w'], ['rot', 'reopen']]))
        L.append(dict(name='rot1', rotated=3, scripts=[['w', 'rot', 'reopen', 'w'], ['w']]))
        L.append(dict(name='hup', scripts=[['w', 'w'], ['rot', 'hup']], tform='rel'))
        L.append(dict(name='hupdown', b=2, scripts=[['w', 'down'], ['hup']]))
        L.append(dict(name='nolock', b=2, nolock=True, scripts=[['w', 'w', 'w']]))
        c.explore('schedules', scen, L, max_cost=lambda cfg: cfg.get('b', 1) + c.q(0, 1))
        F = []
        for bend in ('file', 'syslog'):
            F.append(dict(bend=bend, name='f-start', startup=True, scripts=[['w', 'w', 'w', 'w']], faults=c.q(2, 4)))
            F.append(dict(bend=bend, name='f-two', scripts=[['w', 'reopen', 'w'], ['w']], faults=c.q(1, 2)))
        F.append(dict(name='f-down', scripts=[['w', 'down'], ['w', 'hup']], faults=c.q(1, 2)))
        c.explore('failures', scen, F, max_cost=1)
        # long runs: the disk fails again and again
        H = [dict(bend=b, name='many%d' % k, scripts=[(['w', 'w', 'm', 'w', 'reopen'] if b == 'file' else ['w']) * c.q(5, 12)], faults=1000, cycle=k) for k in c.q((2, 4, 6), (2, 3, 4, 5, 6, 8)) for b in ('file', 'syslog')]
        c.explore('long', scen, H, max_cost=0)
        c.explore('flood', flood, [dict(first=f, n=n) for f in (0, 3) for n in (5, 1000, 1001, 1010, 2100)])
        c.finish()
    main(body)
