import itertools, os, random, subprocess, sys
from collections import Counter
from fractions import Fraction
from ..core import prop, Sub, big, huge, check, eq, raises, Invalid, Violation
from ..util import PY, CPP, LLVM, be, eqt, with_schedule, under_schedule
import pydatastructs as P
from pydatastructs import OneDimensionalArray, DynamicOneDimensionalArray

COMPS = [None, lambda u, v: u <= v, lambda u, v: u > v, lambda u, v: u >= v, lambda u, v: u < v,
         lambda u, v: (u % 3, u) <= (v % 3, v), lambda u, v: u % 4 <= v % 4]


def pick_first(low, high, a):
    return a[low]


def pick_mid(low, high, a):
    return a[(low + high) // 2]


def pick_last(low, high, a):
    return a[high]


def pick_median(low, high, a):
    c = sorted([x for x in (a[low], a[(low + high) // 2], a[high]) if x is not None])
    return c[len(c) // 2] if c else a[high]


PIVOTS = [None, pick_first, pick_mid, pick_last, pick_median]


# ------------------------------------------------------------------ inputs

# element types, and what stands for a number in each, in the order of the numbers
DT = [(int, lambda v: v), (float, lambda v: v / 4.0), (str, lambda v: "%07d" % (v + 2000000)), (tuple, lambda v: (v // 3, v)),
      (int, lambda v: v << 70), (Fraction, lambda v: Fraction(v, 7)), (float, lambda v: v * float("inf") if v else 0.0)]


def conv(dt, v):
    return DT[dt % 7][1](v)


def gen_dt(r):
    return r.weighted((6, 0), (2, 1), (2, 2), (1, 3), (1, 4), (1, 5), (1, 6))


def gen_array(r, maxn=14, neg=True, none=True, kinds=4):
    k = r.int(0, 5)
    hi = [1, 3, 9, 40, 1000, 100000][k]
    lo = -hi if neg and r.bool(0.5) else 0
    vals = r.ints(lo, hi, 0, maxn)
    holes = []
    if none and r.bool(0.4):
        holes = [r.int(0, max(0, len(vals) - 1)) for _ in range(r.int(1, 4))]
    return {"kind": r.int(0, kinds - 1), "dt": gen_dt(r),
            "vals": vals, "holes": holes, "grow": r.int(0, 1)}


def make(case):
    """-> (array, list of its cells, is dynamic)"""
    dt = case["dt"] % 7
    ty = DT[dt][0]
    vals = [conv(dt, v) for v in case["vals"]]
    kind = case["kind"] % 4
    backend = be(kind >= 2)
    dyn = kind % 2 == 1
    if not dyn:
        a = OneDimensionalArray(ty, list(vals), backend=backend)
        for h in case["holes"]:
            if h < len(vals):
                a[h] = None
                vals[h] = None
        return a, vals, False
    if case["grow"]:
        a = DynamicOneDimensionalArray(ty, 0, backend=backend)
        for v in vals:
            a.append(v)
    else:
        a = DynamicOneDimensionalArray(ty, list(vals), backend=backend)
    for h in case["holes"]:
        if h < len(vals):
            a.delete(h)
    return a, [a[i] for i in range(a.size)], True


def gen_range(r):
    """None: keyword left out; otherwise taken modulo the length and one (the start may be next to the end, the end before the start)."""
    return [r.int(0, 30 * r.k) if r.bool(0.35) else None, r.int(0, 30 * r.k) if r.bool(0.35) else None]


def rng(spec, n):
    kw = {}
    s, e = 0, n - 1
    if spec[0] is not None and n:
        kw["start"] = s = spec[0] % (n + 1)
    if spec[1] is not None and n:
        kw["end"] = e = spec[1] % (n + 1) - 1
        if e < s and spec[1] % 3:      # most empty ranges are one position wide
            kw["end"] = e = s - 1
    return kw, s, e


def ordered(xs, comp):
    comp = comp or (lambda u, v: u <= v)
    # every comparator here is a total preorder or the strict part of one, so neighbours decide for long ranges
    return all(not comp(b, a) or comp(a, b) for a, b in (itertools.combinations(xs, 2) if len(xs) < 200 else zip(xs, xs[1:])))


def check_sorted(name, a, before, after, s, e, comp):
    n = len(before)
    eq(len(after), n, "%s: length", name)
    eq(after[:s], before[:s], "%s: cells before start changed", name)
    eq(after[e + 1:], before[e + 1:], "%s: cells after end changed", name)
    src, dst = before[s:e + 1], after[s:e + 1]
    live = [x for x in dst if x is not None]
    check(Counter(map(repr, src)) == Counter(map(repr, dst)), "%s: %r is not a permutation of %r", name, dst, src)
    eq(dst[:len(live)], live, "%s: empty positions are not at the end of the range", name)
    check(ordered(live, comp), "%s: %r is not ordered", name, dst)


def check_dynamic(a, cells):
    """A sorted dynamic array goes on working: the next append lands after its last element."""
    last = max((i for i, x in enumerate(cells) if x is not None), default=-1)
    eq(str(a), str(['' if x is None else str(x) for x in cells[:last + 1]]), "string form after sorting")
    live = [x for x in cells if x is not None]
    x = live[0] if live else None
    if x is None:
        return
    a.append(x)
    after = [a[i] for i in range(a.size)]
    eq([y for y in after if y is not None], live + [x], "contents after an append to the sorted array")


def truthy(comp, form):
    """A comparator that answers with true and false values other than True and False."""
    form %= 4
    if form == 1:
        return lambda u, v: 1 if comp(u, v) else 0
    if form == 2:
        return lambda u, v: [u] if comp(u, v) else []
    return comp


class Refused(Exception):
    pass


def failing(comp, k):
    """-> (a comparator that fails at its k-th call, its call counter)."""
    calls = [0]
    comp = comp or (lambda u, v: u <= v)

    def f(u, v):
        calls[0] += 1
        if calls[0] == k:
            raise Refused(k)
        return comp(u, v)
    return f, calls


def expect_failure(name, fn, calls, k, cpp, ctx):
    """fn() raises what its comparator raised (ValueError from the C++ backend) or never made the k-th comparison."""
    try:
        fn()
    except Refused:
        check(not cpp or calls[0] == k, "%s went on comparing after a comparison failed", name)
        ctx.nontrivial(k > 1)
        ctx.label("comparison failed")
    except ValueError:
        check(cpp and calls[0] == k, "%s: ValueError after %d comparisons, the failing one is number %d", name, calls[0], k)
        ctx.nontrivial(k > 1)
        ctx.label("comparison failed")
    else:
        check(calls[0] < k, "%s: comparison %d failed and nothing was raised", name, k)


def gen_fail(algos):
    base = gen_sort(algos)

    def gen(r):
        c = base(r)
        c["k"] = r.int(1, 3) if r.bool() else r.int(1, 30)
        return c
    return gen


def run_fail(algos):
    def run(case, ctx):
        name, fn, opts = algos[case["algo"] % len(algos)]
        a, before, dyn = make(case)
        kw, s, e = rng(case["range"], len(before))
        comp, calls = failing(COMPS[case["comp"] % 5], max(1, case["k"]))
        if "threads" in opts:
            kw["num_threads"] = 1 + case["x"] % 5
        kw.update(opts.get("kw", {}))
        ctx.label(name)
        expect_failure(name, lambda: fn(a, comp=comp, **kw), calls, max(1, case["k"]), "backend" in kw, ctx)
        after = [a[i] for i in range(len(a))]
        eq(len(after), len(before), "length after a failed sort")
        eq(after[:s] + after[e + 1:], before[:s] + before[e + 1:], "cells outside the range after a failed sort")
    return run


def run_sort(algos, comps=True):
    def run(case, ctx):
        algo = algos[case["algo"] % len(algos)]
        name, fn, opts = algo[0], algo[1], algo[2]
        if "llvm" in opts and case["dt"] % 7 not in (0, 1, 6):
            case = dict(case, dt=0)
        if "dts" in opts and case["dt"] % 7 not in opts["dts"]:
            case = dict(case, dt=0)
        if "nonneg" in opts:
            case = dict(case, vals=[abs(v) for v in case["vals"]])
        a, before, dyn = make(case)
        n = len(before)
        kw, s, e = rng(case["range"], n)
        comp = None
        if "comp" in opts:
            ci = case["comp"] % (len(COMPS) if case["dt"] % 7 == 0 else 5)
            comp = COMPS[ci]
            if comp is not None:
                kw["comp"] = truthy(comp, case.get("truth", 0))
        if "pivot" in opts and PIVOTS[case["x"] % len(PIVOTS)]:
            kw["pick_pivot_element"] = PIVOTS[case["x"] % len(PIVOTS)]
        if "threads" in opts:
            kw["num_threads"] = 1 + case["x"] % 5
        if "intro" in opts:
            if case["x"] % 3:
                kw["ins_threshold"] = 1 + case["y"] % 4
            if case["x"] % 4 == 1:
                kw["maxdepth"] = case["y"] % 3
        if "int32" in opts and case["x"] % 5 == 0 and case["dt"] % 7 == 0:
            kw["dtype"] = "int32"
        kw.update(opts.get("kw", {}))
        ctx.label(name, "dynamic" if dyn else "static", "sub-range" if case["range"] != [None, None] else "whole",
                  "cpp array" if case["kind"] % 4 >= 2 else "python array")
        src = before[s:e + 1]
        if None in src:
            ctx.label("with empty positions")
        if len(set(src)) < len(src):
            ctx.label("duplicates")
        ctx.nontrivial(not ordered([x for x in src if x is not None], comp))
        ret = fn(a, **kw)
        if ret is not None:
            check(ret is a, "%s returned another object than the array it sorted", name)
        after = [a[i] for i in range(len(a))]
        check_sorted(name, a, before, after, s, e, comp)
        if dyn and any(x is not None for x in src):
            check_dynamic(a, after)
    return run


def gen_sort(algos, maxn=14):
    def gen(r):
        c = gen_array(r, maxn)
        c.update(algo=r.int(0, len(algos) - 1), range=gen_range(r), comp=r.weighted((3, 0), (4, r.int(1, 6))),
                 truth=r.int(0, 3), x=r.int(0, 9), y=r.int(0, 9))
        return c
    return gen


def ex_sort(algos, kinds=(0,), maxn=6):
    """All arrays of length up to maxn over 0..2, sorted whole and from 1."""
    def it():
        for al in range(len(algos)):
            for k in kinds:
                for n in range(0, maxn + 1):
                    for vals in itertools.product(range(3), repeat=n):
                        yield {"kind": k, "dt": 0, "vals": list(vals), "holes": [], "grow": 0, "algo": al,
                               "range": [None, None], "comp": 0, "x": 0, "y": 0}
                for n in range(2, 7):
                    for vals in itertools.permutations(range(n)):
                        yield {"kind": k, "dt": 0, "vals": list(vals), "holes": [], "grow": 0, "algo": al,
                               "range": [1, None] if n % 2 else [None, None], "comp": 2, "x": 1, "y": 0}
    return it


SEQ = [("bubble_sort", P.bubble_sort, {"comp": 1}), ("selection_sort", P.selection_sort, {"comp": 1}),
       ("insertion_sort", P.insertion_sort, {"comp": 1}), ("quick_sort", P.quick_sort, {"comp": 1, "pivot": 1}),
       ("cocktail_shaker_sort", P.cocktail_shaker_sort, {"comp": 1}), ("shell_sort", P.shell_sort, {"comp": 1}),
       ("intro_sort", P.intro_sort, {"intro": 1}), ("heapsort", P.heapsort, {}), ("brick_sort", P.brick_sort, {"comp": 1})]
PAR = [("merge_sort_parallel", P.merge_sort_parallel, {"comp": 1, "threads": 1}),
       ("brick_sort_parallel", P.brick_sort_parallel, {"comp": 1, "threads": 1})]
DIST = [("bucket_sort", P.bucket_sort, {"dts": (0, 1, 4, 5)}), ("radix_sort", P.radix_sort, {"dts": (0, 4), "nonneg": 1})]
CPPS = [("quick_sort", P.quick_sort, {"comp": 1, "pivot": 1, "kw": {"backend": CPP}}),
        ("bubble_sort", P.bubble_sort, {"comp": 1, "kw": {"backend": CPP}}),
        ("selection_sort", P.selection_sort, {"comp": 1, "kw": {"backend": CPP}}),
        ("insertion_sort", P.insertion_sort, {"comp": 1, "kw": {"backend": CPP}})]
SEQC = [t for t in SEQ if "comp" in t[2]]
LLVMS = [("bubble_sort", P.bubble_sort, {"llvm": 1, "int32": 1, "kw": {"backend": LLVM}}),
         ("selection_sort", P.selection_sort, {"llvm": 1, "int32": 1, "kw": {"backend": LLVM}})]

FAST = [t for t in SEQ if t[0] in ("shell_sort", "intro_sort", "heapsort")]


QUICK = [t for t in SEQ if t[0] in ("quick_sort", "insertion_sort", "intro_sort")]


def gen_long_ordered(r):
    c = gen_sort(QUICK)(r)
    n = r.int(1050, 1300)
    c["vals"] = [[i, n - i, i // 7][c["y"] % 3] for i in range(n)]
    return dict(c, range=[None, None], holes=[])


def huge_subs(algos, k, n, name="huge"):
    return [Sub(name, huge(gen_sort(algos), k), run_sort(algos), quick=n, shards=4, hyp=0, cpu=60)]


RULE = ("static and dynamic arrays of both array backends (ints with duplicates and negatives, also beyond 64 bits, floats, infinities, strings, tuples, fractions; unset "
        "positions), random sub-ranges and comparators; the sorted range must be an ordered permutation of what it held, "
        "unset positions last, nothing outside it touched; plus every array of length <= 6 over three values and every "
        "permutation of up to 6; non-trivial = the range was not ordered before.")

RULE_SCHED = " [schedules] the order in which the threads run is drawn too: tasks take turns after any line, reproducibly. "
RULE_F = (" [failing_comparator] a comparator that raises at its k-th call: the sort raises, and touches nothing outside the range; "
          "non-trivial = it failed after the first comparison.")

prop("S01", Sub("random", gen_sort(SEQ), run_sort(SEQ), quick=36000, shards=5, hyp=300),
     Sub("larger", gen_sort(SEQ, 70), run_sort(SEQ), quick=2500, shards=2, hyp=0),
     Sub("small", gen_sort(SEQ), run_sort(SEQ), quick=0, hyp=0, shards=3, exhaust=ex_sort(SEQ)),
     *huge_subs(SEQ, 40, 80), Sub("quick_shell", huge(gen_sort(FAST), 400), run_sort(FAST), quick=24, shards=4, hyp=0, cpu=60),
     Sub("long_ordered", gen_long_ordered, run_sort(QUICK), quick=16, shards=4, hyp=0, cpu=60),
     Sub("failing_comparator", gen_fail(SEQC), run_fail(SEQC), quick=6000, hyp=100), rule=RULE + RULE_F)
prop("S02", Sub("random", gen_sort(PAR), run_sort(PAR), quick=6000, shards=6, hyp=100),
     Sub("larger", gen_sort(PAR, 40), run_sort(PAR), quick=400, shards=2, hyp=0),
     *huge_subs(PAR[:1], 60, 24), *huge_subs(PAR[1:], 10, 8, "brick_huge"),
     Sub("schedules", with_schedule(gen_sort(PAR)), under_schedule(run_sort(PAR)), quick=1500, shards=4, hyp=30),
     Sub("failing_comparator", gen_fail(PAR), run_fail(PAR), quick=1500, hyp=50), rule=RULE + RULE_SCHED + RULE_F)
def gen_exit(r):
    return {"steps": [[r.int(0, 1), r.int(0, 1), r.int(0, 1), r.ints(-9, 9, 2, 6)] for _ in range(r.int(1, 4))]}


def run_exit(case, ctx):
    """A process of its own that sorts through generated machine code ends normally."""
    lines = ["import pydatastructs as P", "from pydatastructs.utils.misc_util import Backend"]
    want = []
    for algo, dt, narrow, vals in case["steps"]:
        vals = [float(v) for v in vals] if dt else list(vals)
        kw = ", dtype='%s32'" % ("float" if dt else "int") if narrow else ""
        lines.append("a = P.OneDimensionalArray(%s, %r)" % ("float" if dt else "int", vals))
        lines.append("P.%s(a, backend=Backend.LLVM%s)" % (LLVMS[algo % 2][0], kw))
        lines.append("print([a[i] for i in range(%d)])" % len(vals))
        want.append(str(sorted(vals)))
    # from any working directory
    cwd = os.path.dirname(os.path.dirname(P.__file__)) if case["steps"][0][0] else "/"
    env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(P.__file__)), PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-c", "\n".join(lines)], env=env, cwd=cwd, capture_output=True, text=True, timeout=120)
    eq(p.stdout.split("\n")[:-1], want, "sorting in a process of its own (%s)", p.stderr[-300:])
    eq(p.returncode, 0, "exit status of a process that sorted by generated machine code")
    ctx.nontrivial(len({tuple(s[:3]) for s in case["steps"]}) > 1)


EDGES = [2 ** 31 - 1, -2 ** 31, 2 ** 31, -2 ** 31 - 1, 2 ** 63 - 1, -2 ** 63, 2 ** 63, -2 ** 63 - 1, 2 ** 32, 2 ** 32 + 1,
         2 ** 64, 2 ** 64 + 3, 10 ** 30, -10 ** 30]
MACHINE = [None, "int32", "int64", "float32", "float64", "int16", "string"]


def gen_limits(r):
    edge = r.int(0, 4)
    vals = [r.int(-99, 99) for _ in range(r.int(2, 9))]
    for _ in range(edge):
        vals[r.int(0, len(vals) - 1)] = [r.int(0, len(EDGES) - 1)]
    return {"kind": r.int(0, 3), "el": r.weighted((6, 0), (2, 1), (1, 2)), "vals": vals, "machine": r.int(0, len(MACHINE) - 1),
            "algo": r.int(0, 1), "range": gen_range(r)}


def run_limits(case, ctx):
    """A machine type that cannot hold the values: an exception and the array as it was; otherwise sorted, value for value."""
    el, machine = case["el"] % 3, MACHINE[case["machine"] % len(MACHINE)]
    small = el or str(machine).startswith("float")     # what floats would round is left out
    vals = [(7 if small else EDGES[v[0] % len(EDGES)]) if isinstance(v, list) else v for v in case["vals"]]
    typ = [int, float, str][el]
    vals = [v / 4 if el == 1 else typ(v) for v in vals]
    if len(vals) < 1:
        vals = [typ(0)]
    name, fn, opts = LLVMS[case["algo"] % 2]
    kind = case["kind"] % 4
    a = (P.DynamicOneDimensionalArray if kind % 2 else P.OneDimensionalArray)(typ, list(vals), **({"backend": CPP} if kind >= 2 else {}))
    kw, s, e = rng(case["range"], len(vals))
    kw.update(opts["kw"])
    if machine:
        kw["dtype"] = machine
    ctx.label(name, "machine type %s" % machine, "element type %s" % typ.__name__)
    src = vals[s:e + 1]
    try:
        fn(a, **kw)
    except (OverflowError, TypeError, ValueError):
        eq([a[i] for i in range(len(vals))], vals, "%s: the array after a sort that was refused", name)
        ctx.label("refused")
        limit = {"int32": 2 ** 31, "int64": 2 ** 63, None: 2 ** 63}.get(machine, 0)
        check(not (el == 0 and all(-limit <= v < limit for v in src)), "%s refused values its machine type holds", name)
        ctx.nontrivial(len(src) > 1)
    else:
        eq([a[i] for i in range(len(vals))], vals[:s] + sorted(src) + vals[max(s, e + 1):], "%s with machine type %s", name, machine)
        ctx.nontrivial(src != sorted(src))


prop("S04", Sub("limits", gen_limits, run_limits, quick=6000, shards=1, hyp=100), Sub("exit", gen_exit, run_exit, quick=24, shards=3, hyp=0), Sub("cpp", gen_sort(CPPS), run_sort(CPPS), quick=30000, shards=4, hyp=300),
     Sub("cpp_larger", gen_sort(CPPS, 70), run_sort(CPPS), quick=2000, shards=2, hyp=0),
     Sub("cpp_small", gen_sort(CPPS), run_sort(CPPS), quick=0, hyp=0, shards=3, exhaust=ex_sort(CPPS, (0, 2))),
     *huge_subs(CPPS, 100, 80), *huge_subs(LLVMS, 100, 60, "llvm_huge"),
     Sub("llvm", gen_sort(LLVMS), run_sort(LLVMS), quick=12000, shards=3, hyp=200),
     Sub("llvm_larger", gen_sort(LLVMS, 70), run_sort(LLVMS), quick=1500, shards=1, hyp=0),
     Sub("failing_comparator", gen_fail(CPPS), run_fail(CPPS), quick=6000, hyp=100),
     rule=RULE + RULE_F + " [limits] values at and beyond the limits of the machine type, and element types it does not take: sorted "
     "value for value, or an exception and the array unchanged; non-trivial = refused with more than one value in the range, or not ordered before.")


# ------------------------------------------------------------------ S03

def gen_counting(r):
    c = gen_array(r, 20, kinds=2)
    c["dt"] = 0
    if max(map(abs, c["vals"]), default=0) > 5000:
        c["vals"] = [v % 5000 for v in c["vals"]]
    return c


def run_counting(case, ctx):
    case = dict(case, dt=0, kind=case["kind"] % 2)
    if case["holes"][:1] == [0] and all(abs(v) < 50 for v in case["vals"]):
        case["vals"] = [v + 2 ** 70 for v in case["vals"]]              # large values close to one another
    a, before, dyn = make(case)
    live = [x for x in before if x is not None]
    out = P.counting_sort(a)
    eq([a[i] for i in range(len(a))], before, "counting_sort changed its input")
    if not live:
        return
    eq([out[i] for i in range(len(live))], sorted(live), "counting_sort")
    eq(str(out), str(list(map(str, sorted(live)))) if dyn else str(sorted(live)), "counting_sort, string form")
    check(all(out[i] is None for i in range(len(live), len(out))), "counting_sort: more elements than the input")
    check(type(out) is type(a), "counting_sort: the kind of array changed")
    ctx.label("counting_sort")
    ctx.nontrivial(live != sorted(live))


prop("S03", Sub("bucket_radix", gen_sort(DIST), run_sort(DIST), quick=30000, shards=4, hyp=300),
     Sub("larger", gen_sort(DIST, 70), run_sort(DIST), quick=3000, shards=2, hyp=0),
     Sub("small", gen_sort(DIST), run_sort(DIST), quick=0, hyp=0, shards=1, exhaust=ex_sort(DIST)),
     *huge_subs(DIST, 100, 60), Sub("counting_huge", huge(gen_counting, 100), run_counting, quick=40, shards=2, hyp=0, cpu=60),
     Sub("counting", gen_counting, run_counting, quick=10000, shards=2, hyp=200), rule=RULE)


# ------------------------------------------------------------------ S05 searching

SEARCH = [("linear", P.linear_search), ("binary", P.binary_search), ("jump", P.jump_search)]


def gen_search(r):
    vals = r.ints(-20 * r.k, 20 * r.k, 0, 24)
    return {"algo": r.int(0, 2), "cpp": r.int(0, 1), "kind": r.int(0, 3), "dt": gen_dt(r), "vals": vals,
            "range": gen_range(r), "desc": r.int(0, 1), "given": r.int(0, 1), "q": r.int(-20 * r.k - 2, 20 * r.k + 2),
            "pick": r.int(0, 30 * r.k) if r.bool(0.5) else r.choice([None, -1, -2]), "step": r.int(1, 3), "truth": r.int(0, 3),
            "fail": r.int(1, 6) if r.bool(0.1) else 0}


def ex_search():
    for algo in range(3):
        for cpp in (0, 1):
            for n in range(0, 10):
                for s in range(n):
                    for e in range(s, n):
                        for q in range(-1, 2 * n + 1):
                            yield {"algo": algo, "cpp": cpp, "kind": 0, "dt": 0, "vals": list(range(0, 2 * n, 2)),
                                   "range": [s, e], "desc": 0, "given": 0, "q": q, "pick": None, "step": 1}


def run_search(case, ctx):
    name, fn = SEARCH[case["algo"] % 3]
    c = {"kind": case["kind"], "dt": case["dt"], "vals": list(case["vals"]), "holes": [], "grow": 0}
    n = len(c["vals"])
    kw, s, e = rng(case["range"], n)
    desc = case["desc"] % 2
    if name != "linear":
        # only the searched range has to be sorted
        c["vals"][s:e + 1] = sorted(c["vals"][s:e + 1], reverse=bool(desc))
        if desc:
            kw["comp"] = (lambda u, v: u > v) if name == "jump" else (lambda u, v: u >= v)
        elif case["given"]:
            kw["comp"] = (lambda u, v: u < v) if name == "jump" else (lambda u, v: u <= v)
    a, cells, dyn = make(c)
    cells = [a[i] for i in range(n)]
    if n:
        kw.setdefault("end", n - 1)
        e = kw["end"]
    if case["pick"] is not None and n:
        q = cells[{-1: s, -2: e}.get(case["pick"], case["pick"]) % n]
    else:
        q = conv(case["dt"], case["q"])
    if case["cpp"]:
        kw["backend"] = CPP
    ctx.label(name + ("_cpp" if case["cpp"] else ""))
    if "comp" in kw:
        kw["comp"] = truthy(kw["comp"], case.get("truth", 0))
    if case.get("fail") and name != "linear":
        kw["comp"], calls = failing(kw.get("comp", (lambda u, v: u < v) if name == "jump" else None), case["fail"])
        expect_failure(name, lambda: fn(a, q, **kw), calls, case["fail"], case["cpp"], ctx)
        eq([a[i] for i in range(n)], cells, "the searched array")
        return
    got = fn(a, q, **kw)
    hits = [i for i in range(s, e + 1) if cells[i] == q]
    ctx.label("present" if hits else "absent")
    ctx.nontrivial(n > 2 and (s > 0 or len(hits) > 0))
    if not hits:
        check(got is None, "%s_search of an absent value gave %r", name, got)
    elif name == "linear":
        eq(got, hits[0], "linear_search")
    else:
        check(got in hits, "%s_search gave %r; the value is at %r", name, got, hits)


prop("S05", Sub("search", gen_search, run_search, quick=40000, shards=4, hyp=300, exhaust=ex_search),
     Sub("search_big", big(gen_search, 12), run_search, quick=4000, shards=2, hyp=0),
     Sub("search_huge", huge(gen_search, 200), run_search, quick=2400, shards=6, hyp=0, cpu=60),
     rule="linear, binary and jump search, Python and C++, over random arrays whose searched range is sorted up or down, "
          "present and absent values; plus every sub-range and value of sorted arrays up to length 9; non-trivial = more "
          "than two elements and a hit or a start above 0.")


# ------------------------------------------------------------------ S06 bounds and is_ordered

def gen_bounds(r):
    return {"vals": r.ints(-9 * r.k, 9 * r.k, 0, 16), "dt": gen_dt(r), "kind": r.int(0, 1), "s": r.int(0, 20 * r.k) if r.bool(0.4) else None,
            "e": r.int(0, 20 * r.k) if r.bool(0.4) else None, "q": r.int(-9 * r.k - 2, 9 * r.k + 2), "desc": r.int(0, 1)}


def ex_bounds():
    for n in range(0, 6):
        for vals in itertools.combinations_with_replacement(range(4), n):
            for q in range(-1, 5):
                for desc in (0, 1):
                    yield {"vals": list(vals), "dt": 0, "kind": 0, "s": None, "e": None, "q": q, "desc": desc}


def run_bounds(case, ctx):
    vals = list(case["vals"])
    n = len(vals)
    kw, s, e = {}, 0, n
    if case["s"] is not None and n:
        kw["start"] = s = case["s"] % (n + 1)
    if case["e"] is not None:
        kw["end"] = e = max(s, case["e"] % (n + 1))
    desc = case["desc"] % 2
    vals[s:e] = sorted(vals[s:e], reverse=bool(desc))
    a, cells, _ = make({"kind": 0, "dt": case["dt"], "vals": vals, "holes": [], "grow": 0})
    q = conv(case["dt"], case["q"])
    lt = (lambda x, y: x > y) if desc else (lambda x, y: x < y)
    if desc:
        kw["comp"] = lt
    kw["end"] = e
    lo = next((i for i in range(s, e) if not lt(cells[i], q)), e)
    up = next((i for i in range(s, e) if lt(q, cells[i])), e)
    ctx.nontrivial(up > lo)
    if s < e or True:
        eq(P.lower_bound(a, q, **kw), lo, "lower_bound")
        eq(P.upper_bound(a, q, **kw), up, "upper_bound")


def gen_ordered(r):
    c = gen_array(r, 10)
    c.update(range=gen_range(r), comp=r.int(0, 6), presort=r.int(0, 2), truth=r.int(0, 3), swap=r.int(0, 9 * r.k), cpp=r.int(0, 1))
    return c


def ex_ordered():
    for cpp in (0, 1):
        for n in range(0, 5):
            for vals in itertools.product(range(3), repeat=n):
                for holes in ([], [0], [1], [1, 2]):
                    yield {"kind": 0, "dt": 0, "vals": list(vals), "holes": holes, "grow": 0, "range": [None, None],
                           "comp": 0, "presort": 0, "swap": 0, "cpp": cpp}


def run_ordered(case, ctx):
    comp = COMPS[case["comp"] % (len(COMPS) if case["dt"] % 7 == 0 else 5)]
    c = dict(case)
    vals = list(case["vals"])
    if case["presort"]:
        import functools
        f = comp or (lambda u, v: u <= v)
        vals = sorted(vals, key=functools.cmp_to_key(
            lambda x, y: 0 if f(x, y) == f(y, x) else -1 if f(x, y) else 1))
        if case["presort"] == 2 and len(vals) > 1:
            i = case["swap"] % (len(vals) - 1)
            vals[i], vals[i + 1] = vals[i + 1], vals[i]
    c["vals"] = vals
    a, cells, dyn = make(c)
    kw, s, e = rng(case["range"], len(cells))
    if comp:
        kw["comp"] = truthy(comp, case.get("truth", 0))
    if case["cpp"]:
        kw["backend"] = CPP
    live = [x for x in cells[s:e + 1] if x is not None]
    f = comp or (lambda u, v: u <= v)
    want = all(f(x, y) or not f(y, x) for x, y in zip(live, live[1:]))
    got = P.is_ordered(a, **kw)
    ctx.label("cpp" if case["cpp"] else "python", "ordered" if want else "not ordered")
    ctx.nontrivial(len(live) > 2)
    eqt(got, want, "is_ordered of %r", live)


prop("S06", Sub("bounds", gen_bounds, run_bounds, quick=20000, shards=2, hyp=200, exhaust=ex_bounds),
     Sub("bounds_big", big(gen_bounds, 12), run_bounds, quick=4000, shards=2, hyp=0),
     Sub("bounds_huge", huge(gen_bounds, 300), run_bounds, quick=600, shards=4, hyp=0, cpu=60),
     rule="lower_bound and upper_bound on ascending and descending ranges against a linear scan, plus every sorted array "
          "of up to 5 elements over four values; non-trivial = the value occurs.")
prop("S07", Sub("is_ordered", gen_ordered, run_ordered, quick=30000, shards=4, hyp=200, exhaust=ex_ordered),
     Sub("is_ordered_big", big(gen_ordered, 12), run_ordered, quick=4000, shards=2, hyp=0),
     Sub("is_ordered_huge", huge(gen_ordered, 400), run_ordered, quick=600, shards=4, hyp=0, cpu=60),
     rule="is_ordered (Python and C++) on random, sorted and nearly sorted arrays with unset positions, ranges and "
          "comparators, against a direct definition; non-trivial = three or more elements in range.")


# ------------------------------------------------------------------ S08 subsequences

def gen_lcs(r):
    hi = r.int(1, 4)
    return {"a": [r.int(0, hi) for _ in range(r.size(0, 12))], "b": [r.int(0, hi) for _ in range(r.size(0, 12))],
            "dt": gen_dt(r)}


def ex_lcs():
    for n in range(0, 5):
        for m in range(0, 4):
            for a in itertools.product(range(2), repeat=n):
                for b in itertools.product(range(2), repeat=m):
                    yield {"a": list(a), "b": list(b), "dt": 0}


def is_subseq(x, y):
    it = iter(y)
    return all(any(c == d for d in it) for c in x)


def aside(out, values, *inputs):
    """The answer is another array than the inputs, which stay as they are when it is written to."""
    check(all(out is not x for x in inputs), "the answer is the input array itself")
    for i in range(len(out)):
        out[i] = values[0] if out[i] != values[0] else values[-1]


def run_lcs(case, ctx):
    dt = case["dt"] % 7
    ty = DT[dt][0]
    xs, ys = ([conv(dt, v) for v in case[k]] for k in "ab")
    a, b = OneDimensionalArray(ty, list(xs)), OneDimensionalArray(ty, list(ys))
    out = P.longest_common_subsequence(a, b)
    got = [out[i] for i in range(len(out))]
    aside(out, xs, a, b)
    eq(([a[i] for i in range(len(a))], [b[i] for i in range(len(b))]), (xs, ys), "the input arrays were changed")
    L = [[0] * (len(ys) + 1) for _ in range(len(xs) + 1)]
    for i in range(len(xs)):
        for j in range(len(ys)):
            L[i + 1][j + 1] = L[i][j] + 1 if xs[i] == ys[j] else max(L[i][j + 1], L[i + 1][j])
    check(is_subseq(got, xs) and is_subseq(got, ys), "%r is not a common subsequence of %r and %r", got, xs, ys)
    eq(len(got), L[-1][-1], "length of the common subsequence of %r and %r", xs, ys)
    ctx.nontrivial(0 < len(got) < min(len(xs), len(ys)))


def gen_lis(r):
    return {"v": r.ints(-r.int(1, 20), r.int(1, 20), 0, 18), "dt": gen_dt(r)}


def ex_lis():
    for n in range(0, 7):
        for v in itertools.product(range(3), repeat=n):
            yield {"v": list(v), "dt": 0}
    for n in range(4, 7):
        for v in itertools.permutations(range(n)):
            yield {"v": list(v), "dt": 0}


def run_lis(case, ctx):
    dt = case["dt"] % 7
    ty = DT[dt][0]
    xs = [conv(dt, v) for v in case["v"]]
    a = OneDimensionalArray(ty, list(xs))
    out = P.longest_increasing_subsequence(a)
    got = [out[i] for i in range(len(out))]
    aside(out, xs, a)
    eq([a[i] for i in range(len(a))], xs, "the input array was changed")
    best = []
    for i, x in enumerate(xs):
        best.append(1 + max((best[j] for j in range(i) if xs[j] < x), default=0))
    check(is_subseq(got, xs), "%r is not a subsequence of %r", got, xs)
    check(all(a < b for a, b in zip(got, got[1:])), "%r does not increase", got)
    eq(len(got), max(best, default=0), "length of the increasing subsequence of %r", xs)
    ctx.nontrivial(1 < len(got) < len(xs))


prop("S08", Sub("lcs", gen_lcs, run_lcs, quick=15000, shards=2, hyp=200, exhaust=ex_lcs),
     Sub("lis", gen_lis, run_lis, quick=20000, shards=3, hyp=200, exhaust=ex_lis),
     Sub("lcs_big", big(gen_lcs, 5), run_lcs, quick=800, hyp=0), Sub("lis_big", big(gen_lis, 12), run_lis, quick=1500, hyp=0),
     Sub("lcs_huge", huge(gen_lcs, 55), run_lcs, quick=20, shards=4, hyp=0, cpu=60), Sub("lis_huge", huge(gen_lis, 80), run_lis, quick=80, shards=4, hyp=0, cpu=60),
     rule="random sequences over small alphabets; the answer must be a (common / strictly increasing) subsequence of "
          "the length an independent quadratic recurrence gives; plus all short sequences; non-trivial = shorter than "
          "the inputs and longer than the trivial answer.")


# ------------------------------------------------------------------ S09 permutations

def gen_perm(r):
    return {"v": [r.int(0, r.int(0, 6)) for _ in range(r.size(0, 8))], "dt": gen_dt(r), "range": gen_range(r),
            "prev": r.int(0, 1), "desc": r.int(0, 1)}


def ex_perm():
    for n in range(0, 6):
        for v in itertools.product(range(3), repeat=n):
            for p in (0, 1):
                yield {"v": list(v), "dt": 0, "range": [None, None], "prev": p, "desc": 0}


def run_perm(case, ctx):
    dt = case["dt"] % 7
    ty = DT[dt][0]
    given = [conv(dt, v) for v in case["v"]]
    values = sorted(set(given))
    xs = [values.index(v) for v in given]               # ranks, which can be negated
    kw, s, e = rng(case["range"], len(xs))
    desc, prev = case["desc"] % 2, case["prev"] % 2
    if desc:
        kw["comp"] = lambda x, y: x > y
    part = tuple(xs[s:e + 1])
    a = OneDimensionalArray(ty, list(given))
    ok, out = (P.prev_permutation if prev else P.next_permutation)(a, **kw)
    got = tuple(values.index(out[i]) for i in range(len(out)))
    check(type(out[0]) is type(a[0]) if len(out) else True, "another type of elements")
    aside(out, given, a)
    eq([a[i] for i in range(len(a))], given, "the input array was changed")
    down = bool(desc) != bool(prev)
    neg = (lambda t: tuple(-x for x in t)) if down else (lambda t: t)
    # the lexicographic successor, by the textbook definition on the negated sequence if going down
    w = list(neg(part))
    best = None
    for i in range(len(w) - 2, -1, -1):
        later = [x for x in w[i + 1:] if x > w[i]]
        if later:
            x = min(later)
            rest = w[i:]
            rest.remove(x)
            best = tuple(w[:i] + [x] + sorted(rest))
            break
    want = (True, neg(best)) if best is not None else (False, neg(tuple(sorted(w))))
    eq((bool(ok), got), want, "%s_permutation of %r" % ("prev" if prev else "next", part))
    ctx.nontrivial(best is not None)
    ctx.label("prev" if prev else "next", "duplicates" if len(set(part)) < len(part) else "distinct")


prop("S09", Sub("perm", gen_perm, run_perm, quick=30000, shards=4, hyp=200, exhaust=ex_perm),
     Sub("perm_big", big(gen_perm, 12), run_perm, quick=3000, shards=2, hyp=0),
     Sub("perm_huge", huge(gen_perm, 250), run_perm, quick=200, shards=2, hyp=0, cpu=60),
     rule="random sequences with duplicates, ranges and both orders, against the definition of the lexicographic "
          "neighbour; plus every sequence of up to 5 over three values; non-trivial = a neighbour exists.")


# ------------------------------------------------------------------ S10 matrix product

def gen_mat(r):
    n, k, m = r.int(1, 5 * r.k), r.int(1, 5 * r.k), r.int(1, 5 * r.k)
    if r.bool(0.2):
        k = n = m
    return {"a": [[r.int(-5, 9) for _ in range(k)] for _ in range(n)], "b": [[r.int(-5, 9) for _ in range(m)] for _ in range(k)],
            "bad": r.int(0, 9), "threads": r.int(1, 6 if r.k == 1 else 16), "oda": r.int(0, 2), "kind": r.int(0, 5)}


# kinds of numbers, all of them exact under addition and multiplication
NUMBERS = [(int, lambda x: x), (int, lambda x: x * (2 ** 40 + 1)), (float, lambda x: x / 8), (Fraction, lambda x: Fraction(x, 7)),
           (complex, lambda x: complex(x, (x * x) % 5 - 2)), (bool, lambda x: x > 2)]


def run_mat(case, ctx):
    A, B = case["a"], case["b"]
    if not A or not B or not A[0] or not B[0] or len({len(x) for x in A}) > 1 or len({len(x) for x in B}) > 1:
        raise Invalid
    ty, number = NUMBERS[case.get("kind", 0) % 6]
    A, B = ([[number(x) for x in row] for row in M] for M in (A, B))
    wrap = [lambda M: [list(x) for x in M], lambda M: OneDimensionalArray(OneDimensionalArray, [OneDimensionalArray(ty, list(x)) for x in M]),
            lambda M: tuple(map(tuple, M))][case["oda"] % 3]
    ctx.label(ty.__name__)
    t = 1 + case["threads"] % 16
    if case["bad"] == 0:
        B = B + [B[0]]
    elif case["bad"] == 1 and len(B) > 1:
        B = B[:-1]
    if len(A[0]) != len(B):
        ctx.label("mismatch")
        raises(lambda: P.matrix_multiply_parallel(wrap(A), wrap(B), num_threads=t), ValueError)
        return
    a, b = wrap(A), wrap(B)
    got = P.matrix_multiply_parallel(a, b, num_threads=t)
    want = [[sum(x * y for x, y in zip(row, col)) for col in zip(*B)] for row in A]
    eq([[got[i][j] for j in range(len(B[0]))] for i in range(len(A))], want, "product")
    eq([[row[j] for j in range(len(A[0]))] for row in (a[i] for i in range(len(A)))], A, "the first factor was changed")
    eq([[row[j] for j in range(len(B[0]))] for row in (b[i] for i in range(len(B)))], B, "the second factor was changed")
    ctx.label("square" if len(A) == len(A[0]) == len(B[0]) else "rectangular")
    ctx.nontrivial(len(A) > 1 and len(B) > 1)


prop("S10", Sub("matrix", gen_mat, run_mat, quick=6000, shards=6, hyp=100), Sub("matrix_big", big(gen_mat, 3), run_mat, quick=400, shards=2, hyp=0),
     Sub("schedules", with_schedule(gen_mat), under_schedule(run_mat), quick=1200, shards=4, hyp=30),
     rule="random matrices of every shape up to 5x5 over six kinds of numbers, as lists, tuples and arrays, 1-6 threads, against the definition; the factors "
          "unchanged; "
          "mismatched shapes must raise; non-trivial = both have two or more rows." + RULE_SCHED)
