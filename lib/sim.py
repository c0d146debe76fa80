"""Deterministic world around the real sippy code: virtual clock and timers,
captured network, seeded identifiers.  Nothing here touches a socket."""
import sys, os, random as _random, importlib, heapq, gc

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.pycache_prefix = '/tmp/.verif-no-pycache'
if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')

T0 = 5000.0
REAL0 = 1700000000.0

_now = [T0]


def now():
    return _now[0]


def _vclock(kind):
    if kind == 0:
        return REAL0 + (_now[0] - T0)
    return _now[0]


import sippy.Time.clock_dtime as _cd
_cd.clock_getdtime = _vclock
import sippy.Time.MonoTime as _mt
_mt.clock_getdtime = _vclock
from sippy.Time.MonoTime import MonoTime, MonoGlobals
import sippy.Core.EventDispatcher as _ed
ED2 = _ed.ED2


class VTimer:
    """Stand-in for the dispatcher's timer handle, kept by the virtual timer wheel."""
    __slots__ = ('world', 'cb_func', 'cb_params', 'ival', 'nticks', 'abs_time', 'itime', 'etime',
                 'cb_with_ts', 'due', 'seq', 'alive', 'started', 'ed', 'randomize_runs', 'fired', '__weakref__')

    def __init__(self, world, cb, ival, nticks, abs_time, params):
        self.world = world
        self.cb_func = cb
        self.cb_params = params
        self.ival = ival
        self.nticks = nticks
        self.abs_time = abs_time
        self.itime = MonoTime()
        self.cb_with_ts = False
        self.alive = True
        self.started = False
        self.ed = ED2
        self.randomize_runs = None
        self.fired = 0
        self.etime = None

    def go(self):
        w = self.world
        self.started = True
        if self.abs_time:
            self.due = self.ival.monot
            self.nticks = 1
        else:
            self.due = self.itime.monot + self.ival
        w.tseq += 1
        self.seq = w.tseq
        if self.alive:
            w.timers.append(self)

    def spread_runs(self, p):
        pass

    def get_randomizer(self, p):
        return lambda x: x

    def cancel(self):
        self.cleanup()

    def cleanup(self):
        self.alive = False
        self.ed = None
        self.cb_func = None
        self.cb_params = None
        if self in self.world.timers:
            self.world.timers.remove(self)

    @property
    def name(self):
        f = self.cb_func
        f = getattr(f, 'func', f)
        return getattr(f, '__qualname__', repr(f))


class World:
    cur = None

    def __init__(self, seed=1):
        _now[0] = T0
        self.timers = []
        self.tseq = 0
        self.sent = []          # (time, data:str, addr, server)
        self.errors = []        # exceptions that escaped a handler
        self.thread_calls = []
        World.cur = self
        _random.seed(seed)
        self.rng = _random.Random(seed)
        from sippy.Time.MonoTime import MonoTime as MT
        MT.globals.__init__()

    # -- timers
    def regTimer(self, cb, ival, nticks=1, abs_time=False, *params):
        if nticks == 0:
            return
        return VTimer(self, cb, ival, nticks, abs_time, params)

    def next_due(self):
        return min((t.due for t in self.timers), default=None)

    def due_timers(self, at=None):
        """timers with the earliest deadline, registration order"""
        d = self.next_due() if at is None else at
        return sorted((t for t in self.timers if t.due <= d), key=lambda t: (t.due, t.seq))

    def fire(self, t):
        """advance the clock to the timer's deadline and run it"""
        if t.due > _now[0]:
            _now[0] = t.due
        self.timers.remove(t)
        if t.nticks == -1 or (t.nticks or 0) > 1:
            if t.nticks > 1:
                t.nticks -= 1
            t.due += t.ival
            self.tseq += 1
            t.seq = self.tseq
            self.timers.append(t)
            periodic = True
        else:
            periodic = False
        f, p = t.cb_func, t.cb_params
        try:
            if t.cb_with_ts:
                f(MonoTime(), *p)
            else:
                f(*p)
        except Exception as e:
            self.error(e)
        if not periodic and t.alive:
            t.alive = False
            t.cb_func = t.cb_params = t.ed = None

    def error(self, e):
        import traceback
        self.errors.append((repr(e), traceback.format_exc()))

    def advance(self, dt, limit=100000):
        """run all timers due within dt, deterministically"""
        end = _now[0] + dt
        n = 0
        while True:
            d = self.next_due()
            if d is None or d > end:
                break
            self.fire(self.due_timers()[0])
            n += 1
            if n > limit:
                raise RuntimeError('timer storm')
        _now[0] = end
        return n

    def run_next(self):
        ts = self.due_timers()
        if not ts:
            return None
        self.fire(ts[0])
        return ts[0]

    def pump_threads(self):
        while self.thread_calls:
            cb, params = self.thread_calls.pop(0)
            try:
                cb(*params)
            except Exception as e:
                self.error(e)


def _regTimer(cb, ival, nticks=1, abs_time=False, *params):
    return World.cur.regTimer(cb, ival, nticks, abs_time, *params)


def _callFromThread(cb, *params):
    World.cur.thread_calls.append((cb, params))


def virtualize_dispatcher():
    ED2.regTimer = _regTimer
    ED2.callFromThread = _callFromThread


# ---------------------------------------------------------------- randomness
def _det_token_hex(n=None):
    n = 32 if n is None else n
    return '%0*x' % (2 * n, World.cur.rng.getrandbits(8 * n)) if World.cur else 'ab' * n


def _det_randbelow(n):
    return World.cur.rng.randrange(n) if World.cur else 1


def seed_tokens():
    """token_hex and the like are imported by name all over the place"""
    import secrets
    orig_rb = secrets.randbelow
    secrets.randbelow = _det_randbelow
    for name, m in list(sys.modules.items()):
        if name.startswith('sippy') and m is not None and getattr(m, 'randbelow', None) is orig_rb:
            m.randbelow = _det_randbelow
    orig = secrets.token_hex
    secrets.token_hex = _det_token_hex
    for name, m in list(sys.modules.items()):
        if name.startswith('sippy') and m is not None and getattr(m, 'token_hex', None) is orig:
            m.token_hex = _det_token_hex


# ---------------------------------------------------------------- fake network
class NullLogger:
    def write(self, *a, **k):
        pass


class FakeOpts:
    flags = 1
    nworkers = 1
    ploss_out_rate = 0.0
    pdelay_out_max = 0.0
    ploss_in_rate = 0.0
    pdelay_in_max = 0.0
    direct_dispatch = False

    def __init__(self, laddress, data_callback, **kw):
        self.laddress = laddress
        self.data_callback = data_callback

    def isWildCard(self):
        return self.laddress[0] in ('0.0.0.0', '::', '[::]')


class FakeUdp:
    transport = 'udp'

    def __init__(self, global_config, uopts):
        self.uopts = uopts
        self.down = False

    def getSIPaddr(self):
        return (self.uopts.laddress, self.transport)

    def addr2str(self, address):
        return '%s:%s:%s' % (self.transport, address[0], address[1])

    def send_to(self, data, address, delayed=False):
        if isinstance(data, bytes):
            data = data.decode('utf-8')
        World.cur.sent.append((_now[0], data, (str(address[0]), int(address[1])), self))

    def shutdown(self):
        self.down = True

    def join(self):
        pass


def load(*mods):
    res = [importlib.import_module(m) for m in mods]
    seed_tokens()
    return res if len(res) != 1 else res[0]


def std_setup():
    virtualize_dispatcher()
    import sippy.SipTransactionManager as stm
    stm.SipTransactionManager.model_udp_server = (FakeUdp, FakeOpts)
    seed_tokens()
    # dump_exception() writes long reports to stdout; those are noise for us
    return stm


LOCAL = ('10.0.0.1', 5060)


def mk_stm(world, req_cb=None, laddr=LOCAL, config=None, **kw):
    import sippy.SipTransactionManager as stm
    gc_ = config if config is not None else {}
    gc_['_sip_address'] = laddr[0]
    gc_['_sip_port'] = laddr[1]
    gc_['_sip_logger'] = NullLogger()
    tm = stm.SipTransactionManager(gc_, req_cb)
    gc_['_sip_tm'] = tm
    return tm


def deliver(world, tm, data, src, transport='udp', srv=None, conn=None):
    """hand a datagram to the transaction manager the way the server would"""
    from sippy.Network_server import Remote_address
    srv = srv or list(tm.l4r.cache_l2s.values())[0]
    if isinstance(data, str):
        data = data.encode('utf-8')
    ra = Remote_address(src, transport)
    if conn:
        ra.received = conn
    try:
        srv.uopts.data_callback(data, ra, srv, MonoTime())
    except Exception as e:
        world.error(e)
