"""The thread scheduler.

Simulated threads are real threads of which exactly one runs at any time; which
one is decided here, at every point where the running thread executes a line,
jump, call or return in jschon code (sys.monitoring), takes or releases a lock,
or does simulated I/O. Decisions come from a seeded strategy and are recorded
as [step, tid] wherever they differ from the default (carry on; if that is
impossible: the runnable thread with the lowest id), so that the list replays
the schedule exactly.
"""
import _thread
import sys
import zlib

from sim.kernel import HarnessError, Violation, derive

_real_allocate_lock = _thread.allocate_lock
_get_ident = _thread.get_ident

TOOL = 3
current = None  # the active Scheduler


class _Thread:
    __slots__ = ('tid', 'fn', 'gate', 'status', 'waiting_for', 'wake_at', 'prio', 'result', 'exc')

    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.gate = _real_allocate_lock()
        self.gate.acquire()
        self.status = 'ready'
        self.waiting_for = None
        self.wake_at = None
        self.prio = 0
        self.result = None
        self.exc = None


class Scheduler:
    def __init__(self, ctx, plan, code_prefix, max_steps=3_000_000):
        """plan: {'seed': int, 'strategy': ..., 'p': ..., 'd': ..., 'span': ...}
        or {'decisions': [[step, tid], ...]}"""
        self.ctx = ctx
        self.plan = plan
        self.threads = []
        self.by_ident = {}
        self.running = None
        self.step = 0
        self.max_steps = max_steps
        self.prefix = code_prefix
        self.decisions = []
        self.replay = None
        if 'decisions' in plan:
            self.replay = {s: t for s, t in plan['decisions']}
        else:
            self.rng = derive('sched', plan['seed'])
            self.strategy = plan.get('strategy', 'rand')
            self.p = plan.get('p', 0.02)
            if self.strategy == 'pct':
                span = plan.get('span', 3000)
                self.changes = set(self.rng.sample(range(1, span + 1), min(plan.get('d', 3), span)))
                self.low = 0
            self.points = set()
            if self.strategy == 'few':
                span = plan.get('span', 3000)
                self.points = set(self.rng.sample(range(1, span + 1), min(plan.get('d', 2), span)))
            if self.strategy == 'site':
                self.salt = self.rng.getrandbits(32)
                self.share = int(plan.get('share', 0.03) * 0x10000)
        self.sites = {}
        self.site = False
        self.main_gate = _real_allocate_lock()
        self.main_gate.acquire()
        self.outcome = None
        self.where = None

    # -- set up

    def spawn(self, fn):
        t = _Thread(len(self.threads), fn)
        self.threads.append(t)
        return t

    def run(self):
        """Run all threads to completion; return the list of results, where
        an entry is ('ok', value) or ('exc', exception)."""
        global current
        if current is not None:
            raise HarnessError('nested schedulers')
        if not self.threads:
            return []
        if self.replay is None and self.strategy == 'pct':
            prios = list(range(1, len(self.threads) + 1))
            self.rng.shuffle(prios)
            for t, p in zip(self.threads, prios):
                t.prio = p + 1000
        current = self
        self._start_monitoring()
        try:
            for t in self.threads:
                _thread.start_new_thread(self._body, (t,))
            first = self._choose(None)
            self.running = first
            first.gate.release()
            self.main_gate.acquire()
        finally:
            self._stop_monitoring()
            current = None
        self.ctx.steps += self.step
        self.ctx.schedule = self.decisions
        if self.outcome is not None:
            raise self.outcome
        return [('exc', t.exc) if t.exc is not None else ('ok', t.result) for t in self.threads]

    def _body(self, t):
        self.by_ident[_get_ident()] = t
        t.gate.acquire()
        try:
            t.result = t.fn()
        except (Violation, HarnessError) as e:
            self._abort(e)
            return
        except BaseException as e:
            t.exc = e
        t.status = 'done'
        try:
            nxt = self._choose(None)
        except (Violation, HarnessError) as e:
            self._abort(e)
            return
        if nxt is None:
            self.main_gate.release()
        else:
            self.running = nxt
            nxt.gate.release()

    def _abort(self, e):
        # the other threads stay parked for the rest of the process's life
        self.outcome = e
        self.main_gate.release()

    # -- monitoring

    def _start_monitoring(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'sim')
        E = mon.events
        prefix = self.prefix
        DISABLE = mon.DISABLE

        sites = self.sites
        by_site = self.replay is None and self.strategy == 'site'

        def on_line(code, line):
            if not code.co_filename.startswith(prefix):
                return DISABLE
            self.where = (code.co_name, line)
            if by_site:
                key = code, -line
                site = sites.get(key)
                if site is None:
                    site = sites[key] = self._is_site(code, -line)
                self.site = site
            self.point()

        def on_other(code, offset, *_):
            if not code.co_filename.startswith(prefix):
                return DISABLE
            if by_site:
                key = code, offset
                site = sites.get(key)
                if site is None:
                    site = sites[key] = self._is_site(code, offset)
                self.site = site
            self.point()

        mon.register_callback(TOOL, E.LINE, on_line)
        for e in (E.JUMP, E.CALL, E.PY_RESUME, E.PY_RETURN):
            mon.register_callback(TOOL, e, on_other)
        mon.set_events(TOOL, E.LINE | E.JUMP | E.CALL | E.PY_RESUME | E.PY_RETURN)

    def _stop_monitoring(self):
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        mon.free_tool_id(TOOL)

    def _is_site(self, code, offset):
        # one of the randomly chosen places in the code where this run likes to switch
        return zlib.crc32(f'{self.salt} {code.co_qualname} {offset}'.encode()) & 0xffff < self.share

    # -- scheduling

    def me(self):
        return self.by_ident.get(_get_ident())

    def _wake_sleepers(self):
        due = [t for t in self.threads if t.status == 'asleep']
        if not due:
            return False
        t = min(due, key=lambda t: (t.wake_at, t.tid))
        self.ctx.now = max(self.ctx.now, t.wake_at)
        for u in due:
            if u.wake_at <= self.ctx.now:
                u.status = 'ready'
        return True

    def _choose(self, me):
        """The thread to run next; `me` is the running one, if it can go on."""
        self.step += 1
        if self.step > self.max_steps:
            raise Violation('no-progress', f'threads made no end within {self.max_steps} steps')
        ready = [t for t in self.threads if t.status == 'ready']
        while not ready:
            if not self._wake_sleepers():
                if all(t.status == 'done' for t in self.threads):
                    return None
                raise Violation('deadlock', 'all threads are blocked: ' + ', '.join(
                    f'{t.tid}:{t.status}' for t in self.threads))
            ready = [t for t in self.threads if t.status == 'ready']
        default = me if me is not None else ready[0]
        choice = default
        if self.replay is not None:
            tid = self.replay.get(self.step)
            if tid is not None:
                for t in ready:
                    if t.tid == tid:
                        choice = t
        elif len(ready) > 1:
            if self.strategy == 'pct':
                if self.step in self.changes and me is not None:
                    self.low -= 1
                    me.prio = self.low
                choice = max(ready, key=lambda t: t.prio)
            elif me is None or (self.step in self.points if self.strategy == 'few'
                                else self.rng.random() < self.p if self.strategy == 'rand'
                                else self.site and self.rng.random() < self.p):
                others = [t for t in ready if t is not me]
                choice = self.rng.choice(others)
        self.site = False
        if choice is not default:
            self.decisions.append([self.step, choice.tid])
        return choice

    def point(self):
        me = self.me()
        if me is None or self.outcome is not None:
            return
        try:
            nxt = self._choose(me)
        except (Violation, HarnessError) as e:
            self._abort(e)
            me.gate.acquire()  # forever
        if nxt is not me:
            self._switch(me, nxt)

    def _switch(self, me, nxt):
        self.ctx.switches += 1
        self.ctx.state(me.tid, nxt.tid, self.where)
        self.running = nxt
        nxt.gate.release()
        me.gate.acquire()

    def _yield_blocked(self, me):
        try:
            nxt = self._choose(None)
        except (Violation, HarnessError) as e:
            self._abort(e)
            me.gate.acquire()  # forever
        if nxt is not me:
            self._switch(me, nxt)

    def block(self, obj, timeout=None):
        """Park the running thread until `obj` is signalled."""
        me = self.me()
        me.waiting_for = obj
        if timeout is not None:
            me.status = 'asleep'
            me.wake_at = self.ctx.now + timeout
        else:
            me.status = 'blocked'
        self._yield_blocked(me)
        me.waiting_for = None

    def wake(self, obj):
        for t in self.threads:
            if t.waiting_for is obj and t.status in ('blocked', 'asleep'):
                t.status = 'ready'

    def sleep(self, seconds):
        me = self.me()
        if me is None:
            self.ctx.now += seconds
            return
        me.status = 'asleep'
        me.wake_at = self.ctx.now + seconds
        self._yield_blocked(me)


class SimLock:
    """Stands in for threading.Lock: blocks in the scheduler when called by
    a simulated thread, and is an ordinary lock otherwise."""

    def __init__(self):
        self._real = _real_allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = current
        if s is None or s.me() is None:
            return self._real.acquire(blocking, timeout)
        s.point()
        deadline = None if timeout is None or timeout < 0 else s.ctx.now + timeout
        while not self._real.acquire(False):
            if not blocking or (deadline is not None and s.ctx.now >= deadline):
                return False
            s.block(self, None if deadline is None else deadline - s.ctx.now)
        return True

    def release(self):
        self._real.release()
        s = current
        if s is not None and s.me() is not None:
            s.wake(self)
            s.point()

    def locked(self):
        return self._real.locked()

    __enter__ = acquire

    def __exit__(self, *_):
        self.release()

    def _at_fork_reinit(self):
        self._real = _real_allocate_lock()


class SimRLock:
    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    __enter__ = acquire

    def release(self):
        if self._owner != _get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __exit__(self, *_):
        self.release()

    def _is_owned(self):
        return self._owner == _get_ident()

    def _release_save(self):
        count, owner = self._count, self._owner
        self._count, self._owner = 0, None
        self._lock.release()
        return count, owner

    def _acquire_restore(self, state):
        self._lock.acquire()
        self._count, self._owner = state

    def _at_fork_reinit(self):
        self._lock._at_fork_reinit()
        self._owner = None
        self._count = 0


def install_locks():
    """Must run before jschon is imported."""
    import threading
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._CRLock = SimRLock


def gen_sched(rng, n_threads, span):
    """A seeded scheduling strategy for about `span` steps of work."""
    kind = rng.choice(['rand', 'rand', 'pct', 'pct', 'few', 'site', 'site'])
    plan = {'seed': rng.getrandbits(32), 'strategy': kind}
    if kind == 'rand':
        plan['p'] = rng.choice([0.002, 0.01, 0.03, 0.1, 0.4])
    elif kind == 'site':
        plan['share'] = rng.choice([0.005, 0.02, 0.05])
        plan['p'] = rng.choice([0.2, 0.5, 1])
    else:
        plan['d'] = rng.choice([1, 2, 3, 5, 8])
        plan['span'] = max(20, int(span * rng.choice([0.1, 0.5, 1, 1])))
    return plan
