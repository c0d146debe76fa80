"""Cooperative scheduler for real threads: the code under test runs in its own threads, one at a time,
and every line of the traced files and every operation of the stand-in primitives below is a point
where the explorer may depart, at a cost of 1, from the default schedule (go on; if blocked, next in order)."""
import sys, types, threading as _t, _thread
from explore import Violation, Prune, ReplayDivergence


class Killed(BaseException):
    pass


class Task:
    def __init__(self, s, name, fn):
        self.s, self.name, self.fn = s, name, fn
        self.sem = _t.Semaphore(0)
        self.pred = None
        self.done = False
        self.exc = None
        self.timeout = False

    def ready(self):
        return not self.done and (self.pred is None or self.pred())


class Sched:
    cur = None

    def __init__(self, ch, files=(), budget_steps=20000, points=None):
        self.ch = ch
        self.files = files
        self.points = points
        self.tasks = []
        self.main = _t.Semaphore(0)
        self.running = None
        self.failure = None
        self.stop = False
        self.steps = 0
        self.limit = budget_steps
        self.ids = {}
        self.prio = None
        self.switches = []
        self.atomic = 0
        self.quiet = False
        Sched.cur = self

    # -- creating
    def spawn(self, name, fn):
        t = Task(self, name, fn)
        self.tasks.append(t)

        def body():
            t.sem.acquire()
            self.ids[_thread.get_ident()] = t
            try:
                if self.stop:
                    return
                sys.settrace(self._tracer)
                try:
                    fn()
                finally:
                    sys.settrace(None)
            except Killed:
                pass
            except (Violation, Prune, ReplayDivergence) as e:
                self.failure = self.failure or e
            except BaseException as e:
                t.exc = e
                if not isinstance(e, SystemExit):
                    self.onexc(t, e)
            finally:
                t.done = True
                if not self.stop:
                    try:
                        self._next(t)
                    except BaseException as e:
                        self.failure = self.failure or e
                        self.main.release()
                t.fin = True
        th = _t.Thread(target=body, daemon=True)
        t.thread = th
        th.start()
        return t

    def onexc(self, t, e):
        pass

    # -- tracing
    def _tracer(self, frame, event, arg):
        if frame.f_code.co_filename in self.files:
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == 'line' and not self.atomic:
            self.point(('L', frame.f_lineno))
        return self._line

    def me(self):
        return self.ids.get(_thread.get_ident())

    # -- switching
    def point(self, label=None, pred=None):
        """a scheduling point of the current task; with pred the task is blocked until it holds"""
        t = self.me()
        if t is None:
            if pred is not None and not pred():
                raise RuntimeError('harness thread would block')
            return
        if self.stop:
            raise Killed
        t.pred = pred
        self._next(t)
        t.pred = None

    def _next(self, t):
        self.steps += 1
        if self.steps > self.limit:
            self.failure = self.failure or Violation('the threads never come to rest')
        if self.failure is not None:
            self._end(t)
            return
        en = [x for x in self.tasks if x.ready()]
        if not en:
            self._end(t)
            return
        try:
            # default: go on with this task, or else the next one in order; anything else costs one
            i = self.tasks.index(t)
            order = [x for x in self.tasks[i:] + self.tasks[:i] if x in en]
            if len(order) > 1 and not self.quiet:
                nxt = order[self.ch.choose(len(order), 1)]
            else:
                nxt = order[0]
        except BaseException as e:
            self.failure = self.failure or e
            self._end(t)
            return
        if nxt is t:
            return
        self.running = nxt
        self.switches.append(nxt.name)
        nxt.sem.release()
        if not t.done:
            t.sem.acquire()
            if self.stop:
                raise Killed

    def _end(self, t):
        self.main.release()
        if not t.done:
            t.sem.acquire()
            if self.stop or self.failure is not None:
                raise Killed

    # -- harness side
    def run(self):
        """let the tasks run until none can go on; returns those still blocked"""
        en = [x for x in self.tasks if x.ready()]
        if not en:
            return [x for x in self.tasks if not x.done]
        # a task that was stopped at the end of an earlier run waits on its semaphore inside _end
        k = self.ch.choose(len(en), 1) if len(en) > 1 and not self.quiet else 0
        self.running = en[k]
        en[k].sem.release()
        if not self.main.acquire(timeout=60):
            raise RuntimeError('scheduler stuck')
        if self.failure is not None:
            raise self.failure
        return [x for x in self.tasks if not x.done]

    def close(self):
        self.stop = True
        for t in self.tasks:
            for i in range(50):
                if not t.thread.is_alive():
                    break
                t.sem.release()
                t.thread.join(0.02)
        sys.settrace(None)
        Sched.cur = None


def S():
    return Sched.cur


# ---------------------------------------------------------------- stand-ins for threading
class CLock:
    reent = False

    def __init__(self):
        self.owner, self.count = None, 0

    def _free(self):
        return self.owner is None

    def acquire(self, blocking=True, timeout=-1):
        s = S()
        me = s.me() or 'harness'
        if self.reent and self.owner is me:
            self.count += 1
            return True
        if not blocking:
            s.point('tryacq')
            if self.owner is not None:
                return False
        else:
            s.point('acq', self._free)
        if self.owner is not None:
            raise RuntimeError('lock')
        self.owner, self.count = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        if self.reent and self.owner is not (S().me() or 'harness'):
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
        S().point('rel')

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class CRLock(CLock):
    reent = True


class CCondition:
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else CRLock()
        self.waiters = []

    def acquire(self, *a, **k):
        return self.lock.acquire(*a, **k)

    def release(self):
        self.lock.release()

    __enter__ = lambda self: (self.lock.acquire(), self)[1]

    def __exit__(self, *a):
        self.lock.release()

    def wait(self, timeout=None):
        me = S().me() or 'harness'
        if self.lock.owner is not me:
            raise RuntimeError('cannot wait on un-acquired lock')
        w = [False]
        self.waiters.append(w)
        cnt, self.lock.count, self.lock.owner = self.lock.count, 0, None
        if timeout is None:
            S().point('wait', lambda: w[0] and self.lock.owner is None)
        else:
            S().point('wait', lambda: self.lock.owner is None)
            if w in self.waiters:
                self.waiters.remove(w)
        self.lock.owner, self.lock.count = me, cnt
        return w[0]

    def wait_for(self, pred, timeout=None):
        while not pred():
            self.wait(timeout)
            if timeout is not None:
                break
        return pred()

    def notify(self, n=1):
        if self.lock.owner is not (S().me() or 'harness'):
            raise RuntimeError('cannot notify on un-acquired lock')
        for w in self.waiters[:n]:
            w[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


class CEvent:
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True
        S().point('set')

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    isSet = is_set

    def wait(self, timeout=None):
        if timeout is None:
            S().point('evwait', lambda: self.flag)
        else:
            S().point('evwait')
        return self.flag


class CSemaphore:
    def __init__(self, value=1):
        self.v = value

    def acquire(self, blocking=True, timeout=None):
        if not blocking or timeout is not None:
            S().point('sem')
            if self.v <= 0:
                return False
        else:
            S().point('sem', lambda: self.v > 0)
        self.v -= 1
        return True

    def release(self, n=1):
        self.v += n
        S().point('semrel')

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class CThread:
    daemon = False
    name = 'thread'

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._tgt, self._args, self._kw = target, args, kwargs or {}
        self._task = None

    def start(self):
        s = S()
        s.nthr = getattr(s, 'nthr', 0) + 1
        self._task = s.spawn('%s-%d' % (type(self).__name__, s.nthr), self.run)
        s.point('start')

    def run(self):
        if self._tgt is not None:
            self._tgt(*self._args, **self._kw)

    def is_alive(self):
        return self._task is not None and not self._task.done

    isAlive = is_alive

    def setDaemon(self, d):
        pass

    def join(self, timeout=None):
        if timeout is None:
            S().point('join', lambda: self._task.done)
        else:
            S().point('join')


def CTimer(*a, **k):
    raise RuntimeError('threading.Timer')


import queue as _queue


class CQueue:
    Empty, Full = _queue.Empty, _queue.Full

    def __init__(self, maxsize=0):
        self.q, self.maxsize = [], maxsize

    def put(self, x, block=True, timeout=None):
        if self.maxsize > 0:
            if block and timeout is None:
                S().point('qput', lambda: len(self.q) < self.maxsize)
            else:
                S().point('qput')
                if len(self.q) >= self.maxsize:
                    raise _queue.Full
        self.q.append(x)
        S().point('qput')

    def get(self, block=True, timeout=None):
        if block and timeout is None:
            S().point('qget', lambda: self.q)
        else:
            S().point('qget')
            if not self.q:
                raise _queue.Empty
        return self.q.pop(0)

    put_nowait = lambda self, x: self.put(x, False)
    get_nowait = lambda self: self.get(False)
    empty = lambda self: not self.q
    qsize = lambda self: len(self.q)


NAMES = {'Thread': CThread, 'Lock': CLock, 'RLock': CRLock, 'Condition': CCondition, 'Event': CEvent, 'Semaphore': CSemaphore, 'BoundedSemaphore': CSemaphore}


def load_with_stubs(modname):
    """import a module of the code under test (afresh) with the primitives replaced"""
    import importlib
    saved = {k: getattr(_t, k) for k in NAMES}
    sq = {k: getattr(_queue, k) for k in ('Queue', 'SimpleQueue')}
    old = sys.modules.pop(modname, None)
    try:
        for k, v in NAMES.items():
            setattr(_t, k, v)
        _queue.Queue = _queue.SimpleQueue = CQueue
        m = importlib.import_module(modname)
    finally:
        for k, v in saved.items():
            setattr(_t, k, v)
        for k, v in sq.items():
            setattr(_queue, k, v)
    ns = types.SimpleNamespace(**{k: getattr(_t, k) for k in dir(_t) if not k.startswith('__')})
    for k, v in NAMES.items():
        setattr(ns, k, v)
    qn = types.SimpleNamespace(Queue=CQueue, SimpleQueue=CQueue, Empty=_queue.Empty, Full=_queue.Full)
    for k, v in list(vars(m).items()):
        if v is _t:
            setattr(m, k, ns)
        elif v is _queue:
            setattr(m, k, qn)
    return m
