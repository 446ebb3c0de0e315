from pydatastructs.utils.misc_util import Backend
from .core import check, eq, raises, Violation, Invalid
from .sched import schedule

PY, CPP, LLVM = Backend.PYTHON, Backend.CPP, Backend.LLVM


def be(flag):
    return CPP if flag else PY


def datum(n):
    """The n-th data value of a history: mostly distinguishable, sometimes None or falsy."""
    return (None, 0, "", ("d", n), ("d", n), n)[n % 6]


def same(a, b):
    """Equal, and of the same type (1 is not 1.0 is not True)."""
    return type(a) is type(b) and a == b


def eqt(got, want, msg="", *args):
    if not (type(got) is type(want) and got == want):
        raise Violation("%s: got %r, expected %r" % (msg % args if args else msg, got, want))


def spoil(x):
    """Empties the lists, dicts and sets of an answer: what it was given is the caller's, so nothing else may depend on it."""
    if isinstance(x, (tuple, list, dict, set)):
        for y in x.values() if isinstance(x, dict) else x:
            spoil(y)
    if isinstance(x, list):
        x[:] = ["spoiled"] * 2
    elif isinstance(x, (dict, set)):
        x.clear()


def perms_upto(n, values=None):
    import itertools
    for k in range(n + 1):
        for p in itertools.permutations(range(k)):
            yield list(p)


def with_schedule(gen):
    """Cases with a seed for the order in which threads run (see sched.py)."""
    def g(r):
        c = gen(r)
        c["sched"] = r.int(1, 1 << 20)
        return c
    return g


def under_schedule(run):
    def f(case, ctx):
        with schedule(case["sched"]) as s:
            run(case, ctx)
        if s is not None and s.switches > 1:
            ctx.label("threads took turns")
    return f
