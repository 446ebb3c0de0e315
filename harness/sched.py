"""Thread schedules as generated input.

Inside `with schedule(seed):` a ThreadPoolExecutor runs its tasks one at a time, switching between them after any line of
Python as drawn from the seed: at most max_workers tasks are under way at once, the thread that submitted them runs on
in between and is held only where it waits (a result, the end of the executor). So every interleaving of lines the
operating system could produce can come up, and the same seed gives the same one again. A task that blocks on a
lock held by another is left alone until it comes back.
"""
import concurrent.futures as cf
import concurrent.futures._base as base
import contextlib, random, sys, threading

_here = threading.local()
_current = None
_originals = {}


class Abandoned(BaseException):
    pass


class Task:
    def __init__(self, sched, fn, args, kwargs, future):
        self.sched, self.fn, self.args, self.kwargs, self.future = sched, fn, args, kwargs, future
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.started = self.over = self.stuck = False
        self.budget = 0

    def run(self):
        _here.task = self
        self.go.acquire()
        try:
            if self.sched.closed:
                return
            sys.settrace(self.trace)
            try:
                result = self.fn(*self.args, **self.kwargs)
            finally:
                sys.settrace(None)
        except Abandoned:
            return
        except BaseException as e:
            self.future.set_exception(e)
        else:
            self.future.set_result(result)
        finally:
            self.over = True
            self.back.release()

    def trace(self, frame, event, arg):
        if event == "call":         # callbacks of the harness run in one go
            return self.trace if "/pydatastructs/" in frame.f_code.co_filename else None
        if event == "line":
            self.budget -= 1
            if self.budget < 0:
                self.pause()
        return self.trace

    def pause(self):
        self.back.release()
        self.go.acquire()
        if self.sched.closed:
            raise Abandoned


class Sched:
    def __init__(self, seed):
        self.rnd = random.Random(seed)
        self.pace = self.rnd.choice([0, 1, 3, 10, 40])      # lines a task gets at a time, at most
        self.eager = self.rnd.choice([0, 1, 4])             # turns of tasks after a submission, at most
        self.pools = {}                                     # executor -> tasks not over yet, oldest first
        self.closed = False
        self.switches = 0
        self.last = None

    def submit(self, pool, fn, args, kwargs):
        task = Task(self, fn, args, kwargs, Future(self))
        task.future.set_running_or_notify_cancel()
        task.pool = pool
        self.pools.setdefault(pool, []).append(task)
        for _ in range(self.rnd.randint(0, self.eager)):
            self.turn()
        return task.future

    def turn(self):
        """Run some task for a while; False if there is none."""
        me = getattr(_here, "task", None)
        if me is not None:          # a task that waits for others: let the one that drives choose
            me.pause()
            return True
        able = [t for pool, ts in self.pools.items() for t in ts[:pool._max_workers]]
        if not able:
            return False
        t = self.rnd.choice(able)
        if t is not self.last:
            self.switches += 1
            self.last = t
        if not t.started:
            t.started = True
            threading.Thread(target=t.run, daemon=True).start()
        t.budget = self.rnd.randint(0, self.pace)
        if not t.stuck:
            t.go.release()
        t.stuck = not t.back.acquire(timeout=0.001 if t.stuck else 0.5)
        if t.over:
            self.pools[t.pool].remove(t)
        return True

    def drain(self, done):
        while not done() and self.turn():
            pass

    def close(self):
        self.closed = True
        for ts in self.pools.values():
            for t in ts:
                if t.started:
                    t.go.release()


class Future(cf.Future):
    def __init__(self, sched):
        super().__init__()
        self._sched = sched

    def result(self, timeout=None):
        self._sched.drain(super().done)
        return super().result(timeout)

    def exception(self, timeout=None):
        self._sched.drain(super().done)
        return super().exception(timeout)

    def done(self):
        if not super().done():
            self._sched.turn()
        return super().done()

    def running(self):
        return not self.done()

    def cancel(self):
        return False


def _settle(fs):
    fs = list(fs)
    for f in fs:
        if isinstance(f, Future):
            f._sched.drain(lambda: cf.Future.done(f))
    return fs


def _submit(self, fn, /, *args, **kwargs):
    if _current is None or self._shutdown:
        return _originals["submit"](self, fn, *args, **kwargs)
    return _current.submit(self, fn, args, kwargs)


def _shutdown(self, wait=True, **kw):
    s = _current
    if s is not None and wait:
        s.drain(lambda: not s.pools.get(self))
    return _originals["shutdown"](self, wait, **kw)


def _wait(fs, *args, **kw):
    return _originals["wait"](_settle(fs), *args, **kw)


def _as_completed(fs, *args, **kw):
    return _originals["as_completed"](_settle(fs), *args, **kw)


def install():
    """Before anything imports these names."""
    if _originals:
        return
    pool = cf.ThreadPoolExecutor
    _originals.update(submit=pool.submit, shutdown=pool.shutdown, wait=base.wait, as_completed=base.as_completed)
    pool.submit, pool.shutdown = _submit, _shutdown
    cf.wait = base.wait = _wait
    cf.as_completed = base.as_completed = _as_completed


@contextlib.contextmanager
def schedule(seed):
    """Seed 0 leaves the threads to the operating system."""
    global _current
    if not seed or _current is not None:
        yield None
        return
    _current = s = Sched(seed)
    try:
        yield s
    finally:
        _current = None
        s.close()


install()
