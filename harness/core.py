"""Property-based testing core.

A *property* is a list of *subs*.  A sub has a generator `gen(r)` producing a plain
JSON case, and `run(case, ctx)` which drives the code under test against an oracle
and raises on a violation.  The same generator is driven by two engines -- a fast
seeded source and Hypothesis -- and, where given, by a bounded exhaustive
enumeration.  Every engine runs in forked worker processes; the current case is
published in shared memory before it runs, so that a crash or a hang of native code
becomes a violation with that case as its replay.  Failures are shrunk by delta
debugging on the JSON case, one forked child per candidate.
"""
import hashlib, json, mmap, os, pickle, random, re, resource, select, signal, struct, sys, time, traceback
from collections import Counter
from . import sched                 # before anything imports concurrent.futures

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_S = 10          # a case that needs more CPU than this does not terminate
MEM = 6 << 30


class Violation(Exception):
    pass


class Invalid(Exception):
    """A (shrunk) case outside the domain: never a violation."""


class CaseTimeout(BaseException):
    pass


class Ctx:
    __slots__ = ("labels", "nt", "backend_root", "kept", "others")

    def __init__(self):
        self.labels = []
        self.nt = False
        self.others = []

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True


def check(cond, msg="", *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def eq(got, want, msg="", *args):
    if got != want:
        raise Violation("%s: got %r, expected %r" % (msg % args if args else msg, got, want))


def raises(fn, *exc):
    """fn() must raise one of exc (default: any Exception)."""
    exc = exc or (Exception,)
    try:
        v = fn()
    except exc as e:
        return e
    raise Violation("expected %s, got the value %r" % ("/".join(e.__name__ for e in exc), v))


# ----------------------------------------------------------------- sources

class Source:
    """Draws.  Subclasses give `int`; everything else is derived from it."""
    k = 1

    def int(self, lo, hi):
        raise NotImplementedError

    def bool(self, p=0.5):
        return self.int(0, 999) >= int(1000 * (1 - p))

    def choice(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, *pairs):
        tot = sum(w for w, _ in pairs)
        k = self.int(0, tot - 1)
        for w, v in pairs:
            if k < w:
                return v
            k -= w

    def size(self, lo, hi):
        """A length: small ones are likelier, the whole range is reachable."""
        k = self.int(0, 3)
        span = hi - lo
        if k == 0:
            return lo + self.int(0, min(span, 3))
        if k == 1:
            return lo + self.int(0, min(span, 8))
        if k == 2:
            return lo + self.int(0, max(min(span, 8), span // 2))
        return lo + self.int(0, span)

    def list(self, fn, lo, hi):
        return [fn() for _ in range(self.size(lo, hi))]

    def ints(self, lo, hi, n0, n1):
        """A list of ints with, sometimes, a narrow range (many duplicates)."""
        k = self.int(0, 3)
        if k == 0:
            hi = min(hi, lo + self.int(0, 3))
        n = self.size(n0, n1)
        xs = [self.int(lo, hi) for _ in range(n)]
        s = self.int(0, 9)
        if s == 0:
            xs.sort()
        elif s == 1:
            xs.sort(reverse=True)
        return xs

    def shuffled(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = self.int(0, i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffled(seq)[:k]


class Scaled(Source):
    """Draws lengths k times as long from another source (generators scale positions by `k` themselves)."""

    def __init__(self, r, k):
        self.r, self.k, self.int = r, k, r.int

    def size(self, lo, hi):
        return lo + self.int(0, (hi - lo) * self.k)


def big(gen, k):
    return lambda r: gen(Scaled(r, k))


class Huge(Scaled):
    """Draws lengths from the upper half of k times the range only, often next to a power of two."""

    def size(self, lo, hi):
        if self.int(0, 3) == 0:
            p = 1 << ((hi - lo) * self.k).bit_length() - 1
            if p > 4:
                return p + self.int(-1, 1)
        return lo + self.int((hi - lo) * self.k // 2, (hi - lo) * self.k)


def huge(gen, k, every=1):
    """Cases of k times the size; `every` says how many operations lie between full comparisons."""
    def g(r):
        c = gen(Huge(r, k))
        c["every"] = every
        return c
    return g


class RandomSource(Source):
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self._r = self.rng.random

    def int(self, lo, hi):
        return lo + int(self._r() * (hi - lo + 1)) if hi > lo else lo


class HypSource(Source):
    def __init__(self, data):
        import hypothesis.strategies as st
        self.data, self.st = data, st

    def int(self, lo, hi):
        if hi <= lo:
            return lo
        return self.data.draw(self.st.integers(lo, hi))


class BytesSource(Source):
    """Draws decoded from a byte string (coverage-guided fuzzing)."""

    def __init__(self, data):
        self.d, self.i = data, 0

    def int(self, lo, hi):
        if hi <= lo:
            return lo
        span = hi - lo + 1
        n = 1 if span <= 256 else 2 if span <= 65536 else 4
        v = 0
        for _ in range(n):
            v = v * 256 + (self.d[self.i] if self.i < len(self.d) else 0)
            self.i += 1
        return lo + v % span


# ----------------------------------------------------------------- registry

class Sub:
    def __init__(self, name, gen, run, quick=2000, thorough=None, hyp=100, shards=1,
                 exhaust=None, rule="", cpu=None):
        self.name, self.gen, self.run = name, gen, run
        self.quick, self.thorough = quick, thorough or quick * 12
        self.hyp, self.shards, self.exhaust, self.rule = hyp, shards, exhaust, rule
        self.cpu = cpu or CASE_CPU_S


class Property:
    def __init__(self, pid, subs, rule="", assumptions=()):
        self.pid, self.subs, self.rule, self.assumptions = pid, subs, rule, list(assumptions)


PROPS = {}


def prop(pid, *subs, rule="", assumptions=()):
    assert pid not in PROPS, pid
    PROPS[pid] = Property(pid, list(subs), rule, assumptions)


# ----------------------------------------------------------------- one case

def _on_alarm(signum, frame):
    raise CaseTimeout()


def run_case(sub, case, cpu=None):
    """-> (ctx, None) or (ctx, message)."""
    ctx = Ctx()
    cpu = cpu or sub.cpu
    random.seed(0xC0FFEE)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    try:
        try:
            sub.run(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        return ctx, None
    except Invalid:
        ctx.labels.append("invalid")
        return ctx, None
    except CaseTimeout:
        return ctx, "does not terminate: more than %g s of CPU time" % cpu
    except Violation as e:
        return ctx, "%s\n%s" % (e, _tb(e))
    except RecursionError as e:
        return ctx, "RecursionError: %s" % e
    except (Exception, SystemExit, KeyboardInterrupt) as e:
        last = traceback.extract_tb(e.__traceback__)[-1]
        here = " [raised at %s:%d]" % (os.path.basename(last.filename), last.lineno) \
            if last.filename.startswith(os.path.join(HERE, "harness")) else ""
        return ctx, "unexpected %s%s: %s\n%s" % (type(e).__name__, here, str(e)[:500], _tb(e))


def _tb(e):
    return "".join(traceback.format_tb(e.__traceback__)[-8:])[-3000:]


def dumps(x):
    return json.dumps(x, separators=(",", ":"))


# ----------------------------------------------------------------- workers

SHM = 1 << 20


def _child_setup():
    os.setpgid(0, 0)
    signal.signal(signal.SIGPROF, _on_alarm)
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.setrecursionlimit(1000)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    if not os.environ.get("PDS_DEBUG"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)


class _Stop(BaseException):
    pass


def stream(sub, shard, nshards, seed, n, hyp):
    """The deterministic sequence of cases of one shard: a generator, except that
    the Hypothesis part has to be driven by callback."""
    if sub.exhaust is not None:
        for i, case in enumerate(sub.exhaust()):
            if i % nshards == shard:
                yield "exhaustive", case
    base = "%s|%s|%d|%d" % (sub.name, seed, shard, nshards)
    per = (n + nshards - 1) // nshards
    for i in range(per):
        yield "random", sub.gen(RandomSource("%s|%d" % (base, i)))


def hyp_stream(sub, shard, nshards, seed, n, fn):
    n = (n + nshards - 1) // nshards
    if n <= 0:
        return
    import hypothesis
    from hypothesis import given, settings, Phase, HealthCheck, strategies as st
    s = int.from_bytes(hashlib.sha256(("%s|%s|%d" % (sub.name, seed, shard)).encode()).digest()[:6], "big")

    @hypothesis.seed(s)
    @settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate],
              suppress_health_check=list(HealthCheck))
    @given(st.data())
    def t(data):
        fn("hypothesis", sub.gen(HypSource(data)))
    t()


def worker(sub, shard, nshards, seed, n, hyp, shm, wfd, deadline):
    _child_setup()
    out = {"engines": Counter(), "labels": Counter(), "nt": set(), "evals": 0, "samples": [],
           "fail": None, "truncated": False, "error": None}
    cnt = [0]

    def one(engine, case):
        text = dumps(case)
        b = text.encode()
        cnt[0] += 1
        # publish: counter, length, bytes
        if len(b) + 16 < SHM:
            shm[16:16 + len(b)] = b
            shm[0:16] = struct.pack("<QQ", cnt[0], len(b))
        else:
            shm[0:16] = struct.pack("<QQ", cnt[0], 0)
        ctx, msg = run_case(sub, json.loads(text))
        out["evals"] += 1
        out["engines"][engine] += 1
        for l in set(ctx.labels):
            out["labels"][l] += 1
        if ctx.nt:
            out["nt"].add(hashlib.blake2b(b, digest_size=8).digest())
            if len(out["samples"]) < 2 and len(b) < 1200 and cnt[0] > 20:
                out["samples"].append(case)
        if msg is not None:
            out["fail"] = (case, msg, cnt[0])
            raise _Stop()
        if time.monotonic() > deadline:
            out["truncated"] = True
            raise _Stop()

    try:
        try:
            for engine, case in stream(sub, shard, nshards, seed, n, hyp):
                one(engine, case)
            hyp_stream(sub, shard, nshards, seed, hyp, one)
        except _Stop:
            pass
    except BaseException as e:
        out["error"] = "harness error in %s: %s: %s\n%s" % (sub.name, type(e).__name__, e, _tb(e))
    # mark idle
    shm[0:16] = struct.pack("<QQ", 0, 0)
    data = pickle.dumps(out)
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


def _cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            parts = f.read().rsplit(")", 1)[1].split()
        return (int(parts[11]) + int(parts[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


class Job:
    def __init__(self, sub, shard, nshards):
        self.sub, self.shard, self.nshards = sub, shard, nshards
        self.buf = b""
        self.out = None
        self.last = (None, 0.0, 0.0)

    def start(self, seed, n, hyp, deadline):
        self.shm = mmap.mmap(-1, SHM)
        r, w = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(r)
            worker(self.sub, self.shard, self.nshards, seed, n, hyp, self.shm, w, deadline)
        os.close(w)
        self.r = r

    def current(self):
        c, l = struct.unpack("<QQ", self.shm[0:16])
        return c, (json.loads(self.shm[16:16 + l].decode()) if l else None)


def run_jobs(prop_, seed, tier, budget_s, log=None, only=None, nprocs=8):
    jobs = []
    for sub in prop_.subs:
        if only and sub.name != only:
            continue
        k = sub.shards
        for i in range(k):
            jobs.append(Job(sub, i, k))
    jobs.sort(key=lambda j: j.shard)
    deadline = time.monotonic() + budget_s
    pending, running, done = list(jobs), [], []
    failed = False
    while pending or running:
        while pending and len(running) < nprocs and not failed:
            j = pending.pop(0)
            n = j.sub.quick if tier == "quick" else j.sub.thorough
            hyp = j.sub.hyp if tier == "quick" else j.sub.hyp * 10
            j.start(seed, n, hyp, deadline)
            running.append(j)
        if failed:
            pending = []
        rl, _, _ = select.select([j.r for j in running], [], [], 0.25)
        for j in list(running):
            if j.r in rl:
                chunk = os.read(j.r, 1 << 16)
                if chunk:
                    j.buf += chunk
                    continue
                os.close(j.r)
                _, st = os.waitpid(j.pid, 0)
                running.remove(j)
                done.append(j)
                _finish(j, st)
                if j.out["fail"]:
                    failed = True
                continue
            # watchdog
            c, _l = struct.unpack("<QQ", j.shm[0:16])
            now, cpu = time.monotonic(), _cpu_of(j.pid)
            if j.last[0] != c:
                j.last = (c, now, cpu)
            elif c and not j.buf and (cpu - j.last[2] > j.sub.cpu * 1.5 + 2 or now - j.last[1] > 150):
                cnt, case = j.current()
                hang = "does not terminate (stuck in native code or blocked)"
                _kill(j.pid)
                os.close(j.r)
                running.remove(j)
                done.append(j)
                j.out = _empty()
                j.out["fail"] = (case, hang, cnt)
                failed = True
        if failed and running:
            # a violation is known: let the others go
            for j in running:
                _kill(j.pid)
                os.close(j.r)
                j.out = _empty()
                j.out["truncated"] = True
                done.append(j)
            running = []
    return done


def _empty():
    return {"engines": Counter(), "labels": Counter(), "nt": set(), "evals": 0, "samples": [],
            "fail": None, "truncated": False, "error": None}


def _kill(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    try:
        os.waitpid(pid, 0)
    except OSError:
        pass


def _finish(j, st):
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0 and j.buf:
        j.out = pickle.loads(j.buf)
        return
    cnt, case = j.current()
    j.out = _empty()
    if os.WIFSIGNALED(st):
        sig = signal.Signals(os.WTERMSIG(st)).name
        j.out["fail"] = (case, "the process died of %s" % sig, cnt)
    else:
        j.out["fail"] = (case, "the process exited with status %d" % os.WEXITSTATUS(st), cnt)
    j.out["crash"] = True


# ----------------------------------------------------------------- isolated runs and shrinking

def isolated(sub, case, cpu=None):
    """Run one case in a forked child -> None (passed) or the failure message."""
    cpu = cpu or sub.cpu
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            _child_setup()
            _, msg = run_case(sub, json.loads(dumps(case)), cpu)
        except BaseException as e:
            msg = "!harness %r" % (e,)
        os.write(w, pickle.dumps(msg)[:65000])
        os._exit(0)
    os.close(w)
    buf, t0 = b"", time.monotonic()
    hung = False
    while True:
        rl, _, _ = select.select([r], [], [], 0.5)
        if rl:
            chunk = os.read(r, 65536)
            if not chunk:
                break
            buf += chunk
        elif _cpu_of(pid) > cpu * 1.5 + 2 or time.monotonic() - t0 > 150:
            hung = True
            _kill(pid)
            break
    os.close(r)
    if hung:
        return "does not terminate (stuck in native code or blocked)"
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return "the process died of %s" % signal.Signals(os.WTERMSIG(st)).name
    if not buf:
        return "the process exited with status %d" % os.WEXITSTATUS(st)
    return pickle.loads(buf)


def _paths(x, p=()):
    yield p, x
    if isinstance(x, list):
        for i, v in enumerate(x):
            yield from _paths(v, p + (i,))
    elif isinstance(x, dict):
        for k in x:
            yield from _paths(x[k], p + (k,))


def _put(x, p, v):
    if not p:
        return v
    y = list(x) if isinstance(x, list) else dict(x)
    y[p[0]] = _put(x[p[0]], p[1:], v)
    return y


def _get(x, p):
    for k in p:
        x = x[k]
    return x


def _candidates(case):
    """Smaller cases: chunks removed from lists (longest lists first), then smaller scalars."""
    lists = [(p, v) for p, v in _paths(case) if isinstance(v, list) and v]
    lists.sort(key=lambda t: -len(t[1]))
    for p, v in lists:
        n = len(v)
        k = n
        while k >= 1:
            for i in range(0, n, k):
                yield _put(case, p, v[:i] + v[i + k:])
            k //= 2
    for p, v in list(_paths(case)):
        if isinstance(v, bool):
            if v:
                yield _put(case, p, False)
        elif isinstance(v, int):
            for c in (0, 1, v // 2, v - 1 if v > 0 else v + 1):
                if abs(c) < abs(v) or (v < 0 <= c <= -v):
                    yield _put(case, p, c)
        elif isinstance(v, str) and v:
            for i in range(len(v)):
                yield _put(case, p, v[:i] + v[i + 1:])
            if v != "a" * len(v):
                yield _put(case, p, "a" * len(v))
        elif isinstance(v, float) and v != 0:
            yield _put(case, p, 0.0)
            yield _put(case, p, float(int(v)))


def _weight(case):
    n = s = 0
    for _, v in _paths(case):
        n += 1
        if isinstance(v, bool):
            s += v
        elif isinstance(v, (int, float)):
            s += abs(v) * 2 + (v < 0)
        elif isinstance(v, str):
            n += len(v)
            s += sum(ord(c) != 97 for c in v)
    return (n, s)


def _in_harness(msg):
    """The place in the harness where an unexpected exception came up, if it did there."""
    m = re.match(r"unexpected \w+ \[raised at [^\]]*\]", msg)
    return m.group(0) if m else None


def shrink(sub, case, msg, budget_s=45):
    # an exception of the harness itself on a malformed candidate is no reproduction
    origin = _in_harness(msg)
    end = time.monotonic() + budget_s
    hang = "does not terminate" in msg
    cpu = 2 if hang else sub.cpu
    seen = set()
    best, bw = case, _weight(case)
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        for c in _candidates(best):
            if time.monotonic() > end:
                break
            k = dumps(c)
            if k in seen or _weight(c) >= bw:
                continue
            seen.add(k)
            m = isolated(sub, c, cpu)
            if m is not None and not m.startswith("!harness") and _in_harness(m) in (None, origin):
                if hang and "does not terminate" in m and isolated(sub, c) is None:
                    continue
                best, bw, msg, improved = c, _weight(c), m, True
                break
    return best, msg
