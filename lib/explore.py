"""Stateless, deviation-bounded exhaustive explorer.

A scenario is a function run(ch) that executes the real code from scratch and
asks ch.choose(n, cost, label) at each nondeterministic point.  Choice 0 is the
default.  Every choice sequence whose summed cost is <= max_cost is executed
exactly once (DFS over prefixes, replayed from the initial state).
"""
import os, sys, time, json, traceback, signal, threading, resource, multiprocessing as mp
import multiprocessing.connection as mpc


class Violation(Exception):
    def __init__(self, msg, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class ReplayDivergence(Exception):
    pass


class Prune(Exception):
    """Raised by a scenario to abandon a run (state already covered)."""


class Chooser:
    __slots__ = ('prefix', 'choices', 'points', 'spent', 'budget', 'labels')

    def __init__(self, prefix=(), budget=10**9):
        self.prefix = prefix
        self.choices = []
        self.points = []
        self.spent = 0
        self.budget = budget
        self.labels = []

    def choose(self, n, cost=None, label=None):
        """cost: None -> every alternative is free; else callable/list/int(alt cost)."""
        if n <= 0:
            raise ReplayDivergence('empty choice')
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise ReplayDivergence('choice %d out of range %d at point %d' % (c, n, i))
        else:
            c = 0
        if cost is None:
            cs = None
        elif isinstance(cost, int):
            cs = cost
        else:
            cs = tuple(cost)
        self.points.append((n, cs, self.spent))
        if c:
            self.spent += self._cost(cs, c)
        self.choices.append(c)
        if label is not None:
            self.labels.append('%s=%d/%d' % (label, c, n))
        return c

    def pick(self, seq, cost=None, label=None):
        return seq[self.choose(len(seq), cost, label)]

    @staticmethod
    def _cost(cs, c):
        if c == 0 or cs is None:
            return 0
        if isinstance(cs, int):
            return cs
        return cs[c]


class Cyclic:
    """long histories: the first k free choices are explored, after that they come again and again;
    choices with a cost stay as they are in the underlying chooser"""
    def __init__(self, ch, k):
        self.ch, self.k, self.hist, self.n = ch, k, [], 0

    def choose(self, n, cost=None, label=None):
        if cost is not None:
            return self.ch.choose(n, cost, label)
        if n == 1:
            return 0
        if len(self.hist) < self.k:
            self.hist.append(self.ch.choose(n, None, label))
            return self.hist[-1]
        self.n += 1
        return self.hist[(self.n - 1) % self.k] % n

    def pick(self, seq, cost=None, label=None):
        return seq[self.choose(len(seq), cost, label)]

    def __getattr__(self, name):
        return getattr(self.ch, name)


def _cycle(cfg):
    if isinstance(cfg, dict):
        return cfg.get('cycle')
    if isinstance(cfg, tuple):
        for x in cfg:
            if isinstance(x, tuple) and len(x) == 2 and x[0] == 'cycle':
                return x[1]
    return None


def _children(ch, plen, max_cost):
    out = []
    for i in range(len(ch.points) - 1, plen - 1, -1):
        n, cs, spent = ch.points[i]
        for alt in range(n - 1, 0, -1):
            if spent + Chooser._cost(cs, alt) > max_cost:
                continue
            out.append(tuple(ch.choices[:i]) + (alt,))
    return out


class Stats:
    def __init__(self):
        self.runs = 0
        self.steps = 0
        self.states = set()
        self.outcomes = {}
        self.samples = []
        self.violations = []
        self.known = {}
        self.extra = {}

    def merge(self, o):
        self.runs += o.runs
        self.steps += o.steps
        self.states |= o.states
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        self.samples = (self.samples + o.samples)[:4]
        self.violations.extend(o.violations)
        for k, v in o.known.items():
            self.known.setdefault(k, v)
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v


class RunCtx:
    """Handed to a scenario: collects steps, states, outcome."""

    def __init__(self):
        self.steps = 0
        self.states = []
        self.outcome = None
        self.trace = []
        self.known = {}
        self.extra = {}

    def step(self, desc, state=None):
        self.steps += 1
        self.trace.append(desc)
        if state is not None:
            self.states.append(hash(state))


RUN_LIMIT = 40.0       # one run takes milliseconds


HUNG = 'the run does not come to an end'


class Hung(BaseException):
    pass


def _hung(signum, frame):
    raise Hung()


def run_one(scen, cfg, prefix, known=()):
    ch = Chooser(prefix)
    ctx = RunCtx()
    viol = None
    guard = threading.current_thread() is threading.main_thread()
    if guard:
        signal.signal(signal.SIGALRM, _hung)
        signal.setitimer(signal.ITIMER_REAL, RUN_LIMIT, 5)
    try:
        k = _cycle(cfg)
        scen(Cyclic(ch, k) if k else ch, ctx, cfg)
    except Prune:
        pass
    except Violation as v:
        viol = (v.msg, v.detail)
    except ReplayDivergence:
        raise
    except Hung:
        viol = (HUNG, traceback.format_exc())
    except Exception as e:
        viol = ('unhandled exception in the code under test or harness: %r' % (e,),
                traceback.format_exc())
    finally:
        if guard:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return ch, ctx, viol


_G = {}


def _worker(task):
    cfg, stack, budget, deadline = task
    scen, max_cost_of, maxviol = _G['scen'], _G['max_cost'], _G['maxviol']
    mc = max_cost_of(cfg) if callable(max_cost_of) else max_cost_of
    st = Stats()
    stack = list(stack)
    n = 0
    while stack and n < budget:
        if deadline and time.monotonic() > deadline:
            break
        prefix = stack.pop()
        ch, ctx, viol = run_one(scen, cfg, prefix)
        n += 1
        st.runs += 1
        st.steps += ctx.steps
        st.states.update(ctx.states)
        for k, v in ctx.extra.items():
            st.extra[k] = st.extra.get(k, 0) + v
        for k, v in ctx.known.items():
            st.known.setdefault(k, v)
        if ctx.outcome is not None:
            st.outcomes[ctx.outcome] = st.outcomes.get(ctx.outcome, 0) + 1
        if len(st.samples) < 2 and viol is None and ctx.trace:
            st.samples.append({'cfg': str(cfg), 'choices': list(ch.choices), 'trace': [str(x) for x in ctx.trace][:40]})
        if viol is not None:
            st.violations.append({'cfg': cfg, 'choices': list(ch.choices), 'msg': viol[0],
                                  'detail': viol[1], 'trace': [str(x) for x in ctx.trace]})
            if len(st.violations) >= maxviol or viol[0] == HUNG:
                stack = []
                break
        stack.extend(_children(ch, len(prefix), mc))
    return cfg, stack, st


def _serve(conn, others):
    for c in others:
        c.close()
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    while True:
        try:
            task = conn.recv()
        except EOFError:
            os._exit(0)
        try:
            r = _worker(task)
        except BaseException as e:
            r = RuntimeError('%r\n%s' % (e, traceback.format_exc()))
        try:
            conn.send(r)
        except BrokenPipeError:
            os._exit(0)


def explore(scen, cfgs, max_cost=0, nproc=None, budget=400, deadline_s=None, maxviol=3, progress=False):
    """Explore scen for each cfg.  Returns (Stats, complete)."""
    nproc = nproc or int(os.environ.get('VERIF_NPROC', '0')) or min(8, os.cpu_count() or 1)
    _G['scen'], _G['max_cost'], _G['maxviol'] = scen, max_cost, maxviol
    deadline = time.monotonic() + deadline_s if deadline_s else None
    total = Stats()
    complete = True
    tasks = [(cfg, [()], 16, deadline) for cfg in cfgs]
    if nproc == 1:
        while tasks:
            cfg, left, st = _worker(tasks.pop())
            total.merge(st)
            if len(total.violations) >= maxviol or any(v['msg'] == HUNG for v in st.violations):
                return total, False
            if left:
                if deadline and time.monotonic() > deadline:
                    return total, False
                tasks.append((cfg, left, budget, deadline))
        return total, True
    ctxm = mp.get_context('fork')
    queue = list(reversed(tasks))
    procs = []

    def spawn():
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=_serve, args=(b, [x[1] for x in procs]), daemon=True)
        p.start()
        b.close()
        w = [p, a, None]
        procs.append(w)
        return w
    lost = 0
    try:
        for i in range(nproc):
            spawn()
        while True:
            for w in procs:
                if w[2] is None and queue:
                    w[2] = queue.pop()
                    try:
                        w[1].send(w[2])
                    except OSError:
                        pass
            busy = [w for w in procs if w[2] is not None]
            if not busy:
                break
            for c in mpc.wait([w[1] for w in busy]):
                w = [x for x in busy if x[1] is c][0]
                task = w[2]
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    # the worker was killed, e.g. for lack of memory
                    procs.remove(w)
                    lost += 1
                    if lost > 10:
                        raise RuntimeError('workers keep dying')
                    queue.append(task)
                    spawn()
                    continue
                w[2] = None
                if isinstance(r, BaseException):
                    raise r
                cfg, left, st = r
                total.merge(st)
                if len(total.violations) >= maxviol or any(v['msg'] == HUNG for v in st.violations):
                    complete = False
                    queue = []
                    return total, False
                if left:
                    if deadline and time.monotonic() > deadline:
                        complete = False
                        continue
                    # split the leftovers so that idle workers get something
                    if len(left) > 4 and len(queue) < nproc * 4:
                        k = min(len(left), 8)
                        for j in range(k):
                            part = left[j::k]
                            if part:
                                queue.append((cfg, part, budget, deadline))
                    else:
                        queue.append((cfg, left, budget, deadline))
    finally:
        for p, c, t in procs:
            p.kill()
        for p, c, t in procs:
            p.join()
            c.close()
    return total, complete
