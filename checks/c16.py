"""C16: operator commands and signals over all small populations of calls."""
from b2b_model import *
import itertools
import sippy.CLIManager as cli
from sippy.B2B.SimpleAPI import B2BSimpleAPI
from sippy.Core.EventDispatcher import ED2


class Out:
    """what the writer thread is given"""
    def __init__(self):
        self.buf, self.closed = b'', False

    def send(self, d):
        self.buf += d

    def shutdown(self, soft=False):
        self.closed = True


class Exec(BaseException):
    pass


class Op:
    def __init__(self, br):
        self.br = br
        api = B2BSimpleAPI.__new__(B2BSimpleAPI)
        api.global_config = br.gc
        api.command_cb = api.recvCommand
        self.api = api

    def cmd(self, line):
        m = cli.CLIManager.__new__(cli.CLIManager)
        m.command_cb = self.api.recvCommand
        o = m.wthr = Out()
        m.handle_cmd(line)
        self.closed = o.closed
        return o.buf.decode('utf-8')


def _err(*a, **k):
    raise


cli.dump_exception = _err
STATES = ('wait', 'try', 'ring', 'conn', 'leaving')
NAMES = {'wait': ('WaitRoute', 'Trying(UAS)', None), 'try': ('ARComplete', 'Trying(UAS)', 'Trying(UAC)'), 'ring': ('ARComplete', 'Ringing(UAS)', 'Ringing(UAC)'),
         'conn': ('Connected', 'Connected', 'Connected')}


def mk_call(br, i, st, cid):
    b = len(br.legs)
    A = br.call(cld='555%d' % i, cli='100%d' % i, cid=cid)
    br.pump()
    A.num = i
    A.dest = str(i % 3 + 1)
    A.wi = br.requests('AUTH')[-1]
    A.st16 = st
    A.t0 = sim.now()
    A.B = None
    if st == 'wait':
        br.take()
        return A
    br.verdict(A.wi, ["h323-ivr-in = 'Routing:%s@%s:%d'" % (('77%d' % i,) + CALLEES[A.dest])], 0)
    B = A.B = br.legs[-1]
    if st == 'ring':
        B.answer(180)
    elif st == 'conn':
        B.answer(200, SDP['C'])
    elif st == 'leaving':
        # the caller is gone, the callee has not reacted yet
        A.cancel()
    br.pump()
    br.take()
    return A


def after_disc(A):
    """what each party sees when the call is ended from the inside"""
    st = A.st16
    w = []
    if st in ('wait', 'try', 'ring'):
        w.append((A, 'resp', 'INVITE', 500))
    if st == 'ring':
        w.append((A.B, 'CANCEL'))
    if st == 'conn':
        w += [(A, 'BYE'), (A.B, 'BYE')]
    if st in ('try', 'leaving') and not getattr(A.B, 'over16', 0):
        A.B.over16 = True
    A.st16 = 'over' if st != 'try' else 'leaving'
    if st == 'leaving':
        A.st16 = 'leaving'
    return w


def listing(calls):
    res = []
    for A in calls:
        st = A.st16
        if st == 'over' or st == 'gone':
            continue
        cc, ua, uo = NAMES.get(st, ('Disconnecting', None, None))
        res.append((A, cc, ua, uo))
    return res


def check_l(txt, calls):
    lines = txt.split('\n')
    need(lines[0] == 'In-memory calls:' and lines[-1] == '', 'listing %r', txt)
    exp = listing(calls)
    # a call which has just ended may linger; those alive must all be there, and be true
    rows = lines[1:-2]
    need(lines[-2] == 'Total: %d' % len(rows), 'listing of %d calls says %s', len(rows), lines[-2])
    for A, cc, ua, uo in exp:
        a = ('%s udp:%s:%d 100%d 555%d' % ((ua,) + A.party.addr + (A.num, A.num))) if ua else None
        o = ('%s udp:%s:%d 100%d 77%d' % ((uo,) + CALLEES[A.dest] + (A.num, A.num))) if uo else 'N/A'
        if ua:
            row = '%s: %s (%s -> %s)' % (A.cid, cc, a, o)
            need(row in rows, 'a call is listed as %s instead of %s', rows, row)
            rows.remove(row)
        else:
            r = [x for x in rows if x.startswith(A.cid + ': ')]
            need(len(r) >= 1, 'a call that is being torn down is not listed: %s', rows)
            rows.remove(r[0])
    for r in rows:
        c = [A for A in calls if A.st16 == 'over' and r.startswith(A.cid + ': ')]
        need(c and (r.split(': ')[1].split(' ')[0] in ('Dead', 'Disconnecting')), 'a call is listed that is not there: %s', r)


def scen(ch, ctx, cfg):
    br = Bridge(dict(conf=[('auth_enable', 'on'), ('digest_auth', 'off')]))
    op = Op(br)
    calls = []
    for i, st in enumerate(cfg['pop']):
        cid = 'same@x' if cfg.get('same') and i < 2 else 'c%d@x' % i if i < 2 or not cfg.get('utf') else 'c\u00e9%d@x' % i
        p = br.pA
        if cfg.get('same') and i == 1:
            p = br.add('A2', ('192.0.2.2', 5064))
        calls.append(mk_call2(br, i, st, cid, p))
        br.advance(0.07)
    dead = []
    for step in range(cfg['depth']):
        acts = ['l', 'd *', 'd', 'd c1@x', 'd c0@x', 'd same@x', 'd nobody@x', 'd c0@x c1@x', 'd c0', 'HUP', 'USR2', 'x', 'q', 'L ', 'D  c0@x ', 'lt', 'llt', 'r', 'r 1', 'r 99', 'r x', 'r 1 x', 'r 1 1 1', 'dd *', 't']
        a = acts[ch.choose(len(acts))]
        exp = []
        want = None
        known = [A for A in calls if A.st16 not in ('gone',)]
        mark = [A for A in known if A.st16 == 'over']
        if a == 't':
            br.advance(3.0)
        elif a == 'HUP':
            for A in known:
                exp += after_disc(A)
            cb, pr = br.w.signals[sigs.SIGHUP]
            cb(*pr)
        elif a == 'USR2':
            cb, pr = br.w.signals[sigs.SIGUSR2]
            cb(*pr)
        else:
            args = a.split()
            c = args[0].lower()
            named = []
            if c == 'd':
                if len(args) == 1 or len(args) > 2:
                    want = 'ERROR: syntax'
                elif args[1] == '*':
                    named, want = known, 'OK\n'
                else:
                    named = [A for A in known if A.cid == args[1]]
                    want = 'OK\n' if named else 'ERROR: no call'
                    if all(A.st16 == 'over' for A in named) and named:
                        want = None
            elif c == 'r':
                want = 'ERROR: syntax' if len(args) not in (2, 3) or 'x' in args else None if args[1] == '1' else 'ERROR: no call'
            elif c in ('x', 'dd'):
                want = 'ERROR: unknown'
            for A in named:
                exp += after_disc(A)
            got = op.cmd(a)
            if want is not None:
                need(got.startswith(want) and got.endswith('\n'), 'answer to %r is %r instead of %s', a, got, want)
            if c == 'l':
                check_l(got, calls)
            elif c in ('lt', 'llt'):
                check_lt(br, got, 60.0 if c == 'llt' else 0.0)
            need(op.closed == (a == 'q'), 'after %r the connection is %s', a, 'closed' if op.closed else 'kept')
        br.pump()
        got = br.take()
        g = sorted([(x[0].cid, x[0].name) + tuple(x[1:4] if x[1] == 'resp' else x[1:2]) for x in got], key=str)
        w = sorted([(x[0].cid, x[0].name) + tuple(x[1:4] if x[1] == 'resp' else x[1:2]) for x in exp], key=str)
        need(g == w, 'after %s the parties saw %s instead of %s', a, g, w)
        ctx.step(a, (cfg['name'], a, tuple(A.st16 for A in calls)))
    ctx.outcome = (cfg['name'], a, tuple(A.st16 for A in calls))
    # those left alone can still be used
    for A in calls:
        br.pump()
        br.take()
        if A.st16 == 'conn':
            A.bye()
            br.pump()
            need([(x[0], x[1]) for x in br.take()] == [(A.B, 'BYE')], 'a call left alone cannot be ended')
        elif A.st16 == 'ring':
            A.B.answer(200, SDP['D'])
            br.pump()
            got = [(x[0], x[1]) + ((x[3],) if x[1] == 'resp' else ()) for x in br.take()]
            need(sorted(got, key=str) == sorted([(A, 'resp', 200), (A.B, 'ACK')], key=str), 'a call left alone cannot be answered: %s', got)
            A.bye()
        elif A.st16 in ('wait', 'try'):
            A.cancel()
        if A.B is not None and A.B.st == 'new':
            A.B.party.deaf = True
    br.pump()
    br.quiet_end()


def mk_call2(br, i, st, cid, p):
    if p is br.pA:
        return mk_call(br, i, st, cid)
    old, br.pA = br.pA, p
    try:
        return mk_call(br, i, st, cid)
    finally:
        br.pA = old


def check_lt(br, txt, mind):
    lines = txt.split('\n')
    i = lines.index('In-memory client transactions:')
    need(lines[0] == 'In-memory server transactions:' and lines[-1] == '', 'transactions %r', txt)
    for tab, rows in ((br.tm.tserver, lines[1:i]), (br.tm.tclient, lines[i + 1:-1])):
        n = len([t for t in tab.values() if sim.now() - t.rtime.monot >= mind]) if mind else len(tab)
        need(len(rows) == n, '%d transactions listed instead of %d: %s', len(rows), n, rows)


import signal as sigs


def shut(ch, ctx, cfg):
    """SIGTERM and SIGPROF with calls around"""
    br = Bridge(dict(conf=[('auth_enable', 'on'), ('digest_auth', 'off')]))
    stops, execs = [], []
    br.gc['_orig_cwd'], br.gc['_orig_argv'] = '/orig', ['b2bua', '-x']
    ED2.breakLoop = lambda *a: stops.append(sim.now())
    b2bua.os = FakeOs(execs)
    shutd = []
    real = br.tm.shutdown
    br.tm.shutdown = lambda: shutd.append(sim.now())
    try:
        calls = [mk_call(br, i, st, 'c%d@x' % i) for i, st in enumerate(cfg['pop'])]
        k = ch.choose(3)
        br.advance((0.0, 31.0, 57.6)[k] if 'try' not in cfg['pop'] else (0.0, 7.0, 11.0)[k])
        br.take()
        for A in calls:
            if A.st16 == 'leaving':
                A.st16 = 'over'
        sig = cfg['sig']
        t0 = sim.now()
        cb, pr = br.w.signals[sig]
        cb(*pr)
        exp = []
        if sig == sigs.SIGTERM:
            for A in calls:
                exp += after_disc(A)
        br.pump()
        got = sorted([(x[0].cid, x[0].name, x[1]) for x in br.take()])
        need(got == sorted([(x[0].cid, x[0].name, x[1]) for x in exp]), 'after the signal the parties saw %s instead of %s', got, exp)
        # nothing new comes in
        N = br.call(cid='new@x')
        br.pump()
        got = [x for x in br.take()]
        need([(x[0], x[3]) for x in got] == [(N, 503)], 'a new call during shutdown: %s', got)
        need(len(br.requests('AUTH')) == len(calls), 'a new call was put to the authority')
        if sig == sigs.SIGTERM:
            br.advance(3.0)
            need(len(stops) >= 1 and stops[0] - t0 <= 2.6, 'the main loop has not been left %s s after SIGTERM', [x - t0 for x in stops])
            need(not execs, 'restarted')
        else:
            def go(dt):
                try:
                    br.advance(dt)
                except Exec:
                    need(not [A for A in live if A.st != 'over'], 'restarted under a call in state %s', [A.st16 for A in live])
            # calls go on until they end by themselves
            live = [A for A in calls if A.st16 in ('try', 'ring', 'conn')]
            go(0.4)
            go(6.0)
            if live:
                need(not execs and not shutd, 'restarted under %d calls', len(live))
                need(not [x for x in br.take()], 'a call was disturbed by a scheduled restart')
            for A in live:
                if A.st16 == 'conn':
                    A.bye()
                else:
                    A.cancel()
                br.pump()
                if A is not live[-1] and cfg.get('gap'):
                    go(5.0)
                    need(not execs, 'restarted under a call')
            go(62.0)
            need(len(execs) >= 1 and shutd, 'no restart within a minute of the last call')
            need(execs[0] == ('/orig', ['b2bua', '-x']), 'restarted as %s', execs[0])
        ctx.step('%s %s' % (sig, cfg['pop']), (cfg['name'], k, len(stops), len(execs)))
        ctx.outcome = (cfg['name'], k, len(stops), len(execs))
    finally:
        br.tm.shutdown = real
        del ED2.breakLoop
        import os
        b2bua.os = os


class FakeOs:
    def __init__(self, execs):
        self.execs = execs
        self.cwd = None

    def chdir(self, d):
        self.cwd = d

    def execv(self, exe, argv):
        self.execs.append((self.cwd, argv[1:]))
        raise Exec()

    def getpid(self):
        return 1


if __name__ == '__main__':
    def body():
        c = Check('C16', 'model_checking')
        L = []
        for n in range(c.q(3, 4)):
            for pop in itertools.product(STATES, repeat=n):
                if n == 3 and len(set(pop)) < 3 and not c.thorough:
                    continue
                L.append(dict(name='-'.join(pop), pop=pop, depth=c.q(2 if n < 2 else 1, 3 if n < 2 else 2)))
                if n >= 2:
                    L.append(dict(name='same-' + '-'.join(pop), pop=pop, depth=c.q(1, 2), same=True))
        L.append(dict(name='utf', pop=('conn', 'ring', 'conn'), depth=2, utf=True))
        c.explore('commands', scen, L)
        S = []
        for sig in (int(sigs.SIGTERM), int(sigs.SIGPROF)):
            for n in range(c.q(3, 4)):
                for pop in itertools.product(STATES, repeat=n):
                    S.append(dict(name='%d-' % sig + '-'.join(pop), pop=pop, sig=sig, gap=n > 1))
        c.explore('shutdown', shut, S)
        c.finish()
    main(body)
