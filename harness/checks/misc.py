import functools, itertools, math, random
from fractions import Fraction
from collections import Counter, deque
from ..core import prop, Sub, big, huge, check, eq, raises, Invalid, Violation
from ..util import PY, CPP, be, eqt, spoil, datum
from pydatastructs import (Stack, Queue, PriorityQueue, DisjointSetForest, Multiset, RangeQueryStatic, RangeQueryDynamic,
                           ArraySegmentTree, SparseTable, OneDimensionalArray, DynamicOneDimensionalArray, minimum, greatest_common_divisor, summation)

TYPES = [(int, lambda k: k - 20), (float, lambda k: k / 4), (str, lambda k: "v%d" % k if k else ""), (list, lambda k: [k] * (k % 3)),
         (tuple, lambda k: (k, "t")[:k % 3])]
MIXED = lambda k: (None, 0, "", False, k, "v%d" % k, (), 0.0)[k % 8]


# ------------------------------------------------------------------ M01 stacks

def gen_stack(maxops):
    def gen(r):
        ops = []
        for _ in range(r.int(1, 4)):
            w = r.choice([(8, 1), (1, 8), (4, 4), (5, 3)])
            ops += [[r.weighted((2 * w[0], "push"), (2 * w[1], "pop"), (2, "retype"), (2, "str"), (1, "misfit")), r.int(0, 40)]
                    for _ in range(r.size(0, maxops // 3))]
            if r.int(0, 3) == 0:
                ops += [["drain", 0]] + [["retype", r.int(0, 40)]] * r.int(0, 1)
        return {"impl": r.int(0, 2), "ty": r.int(0, 4), "given": r.int(0, 2),
                "init": [r.int(0, 40) for _ in range(r.size(0, 12))], "ops": ops}
    return gen


def run_stack(case, ctx):
    impl = ["array", "cpp", "linked_list"][case["impl"] % 3]
    ty, mk = TYPES[case["ty"] % 5]
    if impl == "linked_list" and ty is tuple:
        mk = MIXED
    init = [mk(k) for k in case["init"]]
    kw = {"implementation": "linked_list" if impl == "linked_list" else "array"}
    if impl == "cpp":
        kw["backend"] = CPP
    if impl != "linked_list":
        kw["dtype"] = ty
    if case["given"] == 0 and impl != "linked_list" and ty is not int:
        kw.pop("dtype")                 # an empty stack takes the type of what is pushed first
        init = []
    given = None
    if init or (case["given"] == 1 and "dtype" in kw):
        given = tuple(init) if case["given"] == 2 else list(init)
        kw["items"] = given
    else:
        init = []
    ctx.label(impl, ty.__name__)
    s = Stack(**kw)
    m = list(init)
    val = (lambda x: x.key) if impl == "linked_list" else (lambda x: x)
    pops = refills = 0

    def agree():
        eq(len(s), len(m), "length")
        eqt(s.is_empty, not m, "is_empty")
        if m:
            eqt(val(s.peek), m[-1], "peek")
    agree()
    for op, k in case["ops"]:
        if op == "push":
            if not m and pops:
                refills += 1
            x = mk(k)
            s.push(x)
            m.append(x)
        elif op == "pop":
            if m:
                eqt(val(s.pop()), m.pop(), "pop")
                pops += 1
            else:
                raises(s.pop, IndexError)
                ctx.label("pop of an empty stack")
        elif op == "drain":
            while m:
                eqt(val(s.pop()), m.pop(), "pop")
                pops += 1
                agree()
            raises(s.pop, IndexError)
        elif op == "retype" and not m and impl != "linked_list":
            ty, mk = TYPES[k % 5]               # an empty stack takes the type of what is pushed next
            ctx.label("another type after emptying")
        elif op == "str" and impl == "linked_list":
            eq(str(s), str([str((x, None)) for x in m]), "string form")
        elif op == "misfit" and m and ty in (int, float) and impl != "linked_list":
            raises(lambda: s.push("x"), TypeError, ValueError)
            ctx.label("refused push")
        agree()
    while m:
        eqt(val(s.pop()), m.pop(), "pop")
        agree()
    raises(s.pop, IndexError)
    if given is not None:
        eq(list(given), init, "the caller's items")
    ctx.nontrivial(pops > 1 and refills > 0)


prop("M01", Sub("stack", gen_stack(40), run_stack, quick=20000, shards=6, hyp=200),
     Sub("stack_big", gen_stack(400), run_stack, quick=1500, shards=2, hyp=0),
     Sub("stack_huge", huge(gen_stack(150), 30), run_stack, quick=60, shards=4, hyp=0, cpu=60),
     rule="histories of push, pop, peek and draining on array, C++ array and linked-list stacks of five element types, started empty or "
          "from items, against a list; everything is popped at the end; non-trivial = the stack is filled again after being emptied.")


# ------------------------------------------------------------------ M02 queues

def gen_queue(maxops):
    def gen(r):
        ops = []
        de = r.int(0, 1)
        for _ in range(r.int(1, 4)):
            w = r.choice([(8, 1), (1, 8), (4, 4), (5, 3)])
            ops += [[r.weighted((w[0], "append"), (w[1], "popleft"), (w[0] // 2 if de else 0, "appendleft"), (w[1] // 2 if de else 0, "pop"),
                                (0 if de else 1, "refused"), (1, "str")), r.int(0, 40)] for _ in range(r.size(0, maxops // 3))]
            if r.int(0, 3) == 0:
                ops += [["drain", r.int(0, 1)]] + [["retype", r.int(0, 40)]] * r.int(0, 1)
        return {"impl": r.int(0, 1), "ty": r.int(0, 4), "de": de, "given": r.int(0, 2),
                "init": [r.int(0, 40) for _ in range(r.size(0, 12))], "ops": ops}
    return gen


def run_queue(case, ctx):
    impl = ["array", "linked_list"][case["impl"] % 2]
    ty, mk = TYPES[case["ty"] % 5]
    if impl == "linked_list" and ty is tuple:
        mk = MIXED
    de = bool(case["de"])
    init = [mk(k) for k in case["init"]]
    kw = {"implementation": impl, "double_ended": de}
    if impl == "array" and (case["given"] or ty is int):
        kw["dtype"] = ty
    given = None
    if init or case["given"] == 1:
        given = tuple(init) if case["given"] == 2 else list(init)
        kw["items"] = given
    ctx.label(impl, "double ended" if de else "single ended", ty.__name__)
    q = Queue(**kw)
    m = deque(init)
    ll = impl == "linked_list"
    every, calls = case.get("every", 1), [0]
    val = (lambda x: x.key) if ll else (lambda x: x)
    pops = refills = 0

    def agree():
        eq(len(q), len(m), "length")
        eqt(q.is_empty, not m, "is_empty")
        if m:
            if ll:
                eqt(q.front.key, m[0], "front")
                eqt(q.rear.key, m[-1], "rear")
            else:
                eq(q.rear - q.front + 1, len(m), "distance from front to rear")
        calls[0] += 1
        if calls[0] % every and len(m) > 5:
            return
        if ll:
            eq(str(q), str([str((x, None)) for x in m]), "string form")
        else:
            eq(str(q), str(list(m)), "string form")
    agree()
    for op, k in case["ops"]:
        x = mk(k)
        if op in ("append", "appendleft"):
            if not m and pops:
                refills += 1
            if op == "append":
                q.append(x)
                m.append(x)
            elif de:
                q.appendleft(x)
                m.appendleft(x)
        elif op in ("popleft", "pop"):
            if op == "pop" and not de:
                continue
            if m:
                eqt(val(getattr(q, op)()), getattr(m, op if op == "pop" else "popleft")(), op)
                pops += 1
            else:
                raises(getattr(q, op), IndexError)
                ctx.label("%s of an empty queue" % op)
        elif op == "refused" and not de:
            raises(q.pop, NotImplementedError)
            raises(lambda: q.appendleft(x), NotImplementedError)
        elif op == "drain":
            while m:
                o = "pop" if de and k else "popleft"
                eqt(val(getattr(q, o)()), getattr(m, o)(), o)
                pops += 1
                agree()
            raises(q.popleft, IndexError)
        elif op == "retype" and not m and not ll:
            ty, mk = TYPES[k % 5]               # an empty queue takes the type of what is appended next
            ctx.label("another type after emptying")
        agree()
    while m:
        eqt(val(q.popleft()), m.popleft(), "popleft")
        agree()
    raises(q.popleft, IndexError)
    if given is not None:
        eq(list(given), init, "the caller's items")
    ctx.nontrivial(pops > 1 and refills > 0)


def ex_queue():
    for n in range(1, 8):
        for ops in itertools.product(["append", "appendleft", "popleft", "pop"], repeat=n):
            yield {"impl": 0, "ty": 0, "de": 1, "given": 1, "init": [], "ops": [[o, 20 + i] for i, o in enumerate(ops)]}
            if n == 6:
                yield {"impl": 0, "ty": 0, "de": 1, "given": 0, "init": [1, 2, 3, 4, 5], "ops": [[o, 20 + i] for i, o in enumerate(ops)]}


prop("M02", Sub("queue", gen_queue(40), run_queue, quick=16000, shards=5, hyp=200),
     Sub("queue_big", gen_queue(300), run_queue, quick=1200, shards=2, hyp=0),
     Sub("queue_huge", huge(gen_queue(90), 30, 100), run_queue, quick=48, shards=4, hyp=0, cpu=60),
     Sub("queue_small", gen_queue(40), run_queue, quick=0, hyp=0, exhaust=ex_queue),
     rule="histories of append, popleft and, double-ended, appendleft and pop on array and linked-list queues of five element types, "
          "started empty or from items, against a deque; contents compared after every operation; every double-ended history of up to seven "
          "operations; non-trivial = the queue is filled again after being emptied.")


# ------------------------------------------------------------------ M03 priority queues

COMPS = [None, lambda a, b: a < b, lambda a, b: a > b, lambda a, b: (a % 4, a) < (b % 4, b)]


def gen_pq(maxops):
    def gen(r):
        hi = r.choice([2, 8, 50]) * r.k
        ops = []
        for _ in range(r.int(1, 3)):
            w = r.choice([(7, 2), (2, 7), (4, 4)])
            ops += [[r.weighted((w[0], "push"), (w[1], "pop"), (1, "peek")), r.int(0, hi)] for _ in range(r.size(0, maxops // 2))]
        return {"impl": r.int(0, 3), "comp": r.int(0, 3), "kt": r.int(0, 3), "ops": ops}
    return gen


def run_pq(case, ctx):
    impl = ["linked_list", "binary_heap", "binomial_heap", None][case["impl"] % 4]
    comp = COMPS[case["comp"] % 4] if impl != "binomial_heap" else None
    mk = [lambda k: k - 5, lambda k: k / 2, lambda k: "p%02d" % k, lambda k: (k % 3, k)][case["kt"] % 4 if case["comp"] % 4 != 3 else 0]
    kw = {}
    if impl:
        kw["implementation"] = impl
    if comp:
        kw["comp"] = comp
    q = PriorityQueue(**kw)
    before = comp or (lambda a, b: a < b)
    m = {}
    pops = most = 0
    ctx.label(impl or "default", "own comparator" if comp else "default order")

    def best(v):
        check(v in m, "%r is not in the queue", v)
        for p in m.values():
            check(not before(p, m[v]), "priority %r comes out although %r is waiting", m[v], p)

    def pop():
        v = q.peek.data
        best(v)
        w = q.pop()
        eq(w, v, "pop after peek")
        del m[v]
    for step, (op, k) in enumerate(case["ops"]):
        eqt(q.is_empty, not m, "is_empty")
        if op == "push":
            v = (None, 0, "", (), None)[step % 7] if step % 7 < 5 else "v%d" % step
            if v in m:
                v = "v%d" % step
            q.push(v, mk(k))
            m[v] = mk(k)
        elif not m:
            raises(q.pop, IndexError)
            raises(lambda: q.peek, IndexError)
        elif op == "pop":
            if k % 2:
                pop()
            else:
                v = q.pop()
                best(v)
                del m[v]
            pops += 1
        else:
            best(q.peek.data)
            eq(q.peek.data, q.peek.data, "peek twice")
        most = max(most, len(m))
    while m:
        pop()
    eqt(q.is_empty, True, "is_empty")
    raises(q.pop, IndexError)
    ctx.nontrivial(pops > 1 and most > 3)


prop("M03", Sub("pq", gen_pq(40), run_pq, quick=20000, shards=6, hyp=200),
     Sub("pq_big", gen_pq(200), run_pq, quick=1500, shards=2, hyp=0),
     Sub("pq_huge", huge(gen_pq(60), 20), run_pq, quick=40, shards=4, hyp=0, cpu=60),
     rule="histories of push, peek and pop on the three implementations with int, float, string and tuple priorities, ties and own "
          "comparators, against a dictionary; drained at the end; non-trivial = at least two pops and four values waiting at once.")


# ------------------------------------------------------------------ M04 disjoint sets

def gen_dsf(maxops):
    def gen(r):
        hi = r.choice([3, 8, 25]) * r.k
        return {"mod": 30 * r.k, "kt": r.int(0, 2), "ops": [[r.weighted((4, "make"), (5, "union"), (2, "root"), (2, "size"), (3, "reroot"), (1, "sets"), (1, "chain"), (1, "reroots")),
                                            r.int(0, hi), r.int(0, hi)] for _ in range(r.size(1, maxops))]}
    return gen


def run_dsf(case, ctx):
    mk = [lambda k: k, lambda k: "s%02d" % k, lambda k: (k % 2, k)][case["kt"] % 3]
    f = DisjointSetForest()
    group = {}                 # key -> set object shared by the group
    root = {}                  # id(set) -> the root make_root asked for, until the group changes
    data = {}
    unions = 0
    mod = case.get("mod", 30)
    every = case.get("every", 1)

    def same(k):
        n = f.find_root(k)
        g = group[k]
        check(n.key in g, "the root of %r is %r, outside its set", k, n.key)
        for x in g:
            eq(f.find_root(x).key, n.key, "root of %r, in the set of %r", x, k)
        if id(g) in root:
            eq(n.key, root[id(g)], "root after make_root")
        eq(n.data, data[n.key], "data of the root")
        return n

    def union(a, b):
        nonlocal unions
        f.union(a, b)
        ga, gb = group[a], group[b]
        if ga is not gb:
            root.pop(id(ga), None)
            root.pop(id(gb), None)
            ga |= gb
            for x in gb:
                group[x] = ga
            unions += 1

    for step, (op, i, j) in enumerate(case["ops"]):
        a, b = mk(i), mk(j)
        if op == "make":
            f.make_set(a, datum(step))
            if a not in group:
                group[a] = {a}
                data[a] = datum(step)
            else:
                ctx.label("made again")
        elif op == "chain":
            for k in range(j):
                x = mk((i + k) % mod)
                if x not in group:
                    f.make_set(x)
                    group[x] = {x}
                    data[x] = None
                if k:
                    union(mk((i + k - 1) % mod), x)
        elif op == "reroots":
            for k in range(j):
                x = mk((i + k) % mod)
                if x in group:
                    f.make_root(x)
                    root[id(group[x])] = x
        elif op == "union":
            if a in group and b in group:
                union(a, b)
            else:
                raises(lambda: f.union(a, b), KeyError)
                ctx.label("absent key")
        elif op == "root":
            if a in group:
                same(a)
            else:
                raises(lambda: f.find_root(a), KeyError)
        elif op == "size":
            if a in group:
                eq(f.find_size(a), len(group[a]), "size of the set of %r", a)
            else:
                raises(lambda: f.find_size(a), KeyError)
        elif op == "reroot":
            if a in group:
                f.make_root(a)
                root[id(group[a])] = a
                eq(f.find_root(a).key, a, "root after make_root(%r)", a)
                if len(group[a]) > 2:
                    ctx.label("rerooted")
            else:
                raises(lambda: f.make_root(a), KeyError)
        if step % every and step < len(case["ops"]) - 1:
            continue
        gs = {id(g): g for g in group.values()}
        sets = f.disjoint_sets()
        eq(sets, sorted(sorted(g) for g in gs.values()), "disjoint_sets()")
        spoil(sets)                             # they are the caller's
        for g in gs.values():
            for k in g:
                eq(f.find_size(k), len(g), "size of the set of %r", k)
    for k in group if every == 1 else sorted(group)[::1 + len(group) // 40]:
        same(k)
    ctx.nontrivial(unions > 1 and any(len(g) > 2 for g in group.values()))


prop("M04", Sub("dsf", gen_dsf(30), run_dsf, quick=14000, shards=6, hyp=200),
     Sub("dsf_big", gen_dsf(120), run_dsf, quick=800, shards=2, hyp=0),
     Sub("dsf_huge", huge(gen_dsf(3), 60, 60), run_dsf, quick=24, shards=4, hyp=0, cpu=60),
     rule="histories of make_set (repeated too), union, find_root, find_size, make_root and disjoint_sets over int, string and tuple keys, present "
          "or not, against a partition kept as sets; partition and all sizes compared after every operation; non-trivial = two unions and "
          "a set of at least three keys.")


# ------------------------------------------------------------------ M05 multiset

def gen_mset(maxops):
    def gen(r):
        hi = r.choice([3, 8, 30]) * r.k
        ops = []
        for _ in range(r.int(1, 3)):
            w = r.choice([(7, 2), (2, 7), (4, 4)])
            ops += [[r.weighted((w[0], "add"), (w[1], "rem"), (1, "q")), r.int(0, hi)] for _ in range(r.size(0, maxops // 2))]
        return {"kt": r.int(0, 3), "init": [r.int(0, hi) for _ in range(r.size(0, 8))], "ops": ops}
    return gen


def run_mset(case, ctx):
    mk = [lambda k: k - 3, lambda k: k / 2, lambda k: "abcdefgh"[k % 8] * (k // 8 + 1), lambda k: (k % 3, k)][case["kt"] % 4]
    init = [mk(k) for k in case["init"]]
    s = Multiset(*init)
    m = Counter(init)
    probes = [mk(k) for k in range(-1, 12)] if case["kt"] != 2 else [mk(k) for k in range(12)]
    rems = dup = 0

    def agree():
        eq(len(s), sum(m.values()), "length")
        ks = sorted(m)
        for p in probes + ks:
            eqt(s.count(p), m[p], "count(%r)", p)
            eqt(p in s, m[p] > 0, "%r in the multiset", p)
        for p in probes:
            eq(s.lower_bound(p), next((k for k in ks if k >= p), None), "lower_bound(%r)", p)
            eq(s.upper_bound(p), next((k for k in ks if k > p), None), "upper_bound(%r)", p)
    agree()
    every = case.get("every", 1)
    for step, (op, k) in enumerate(case["ops"], 1):
        x = mk(k)
        if op == "add":
            dup += m[x] > 0
            s.add(x)
            m[x] += 1
        elif op == "rem":
            if m[x]:
                s.remove(x)
                m[x] -= 1
                m += Counter()
                rems += 1
                if not m:
                    ctx.label("emptied")
            else:
                try:                    # removing what is not there may be refused; it never changes anything
                    s.remove(x)
                except KeyError:
                    pass
                ctx.label("removed an absent element")
            m += Counter()
        if step % every == 0 or step == len(case["ops"]):
            agree()
    ctx.nontrivial(rems > 1 and dup > 0)


prop("M05", Sub("multiset", gen_mset(40), run_mset, quick=9000, shards=6, hyp=200),
     Sub("multiset_big", gen_mset(150), run_mset, quick=600, shards=2, hyp=0),
     Sub("multiset_huge", huge(gen_mset(60), 40, 100), run_mset, quick=32, shards=4, hyp=0, cpu=60),
     rule="histories of add and remove (of absent elements too) over int, float, string and tuple elements, against a Counter; length, counts, "
          "membership, lower and upper bounds of every held and a dozen other elements after every operation; non-trivial = two removals "
          "and an element added twice.")


# ------------------------------------------------------------------ M06, M07 range queries

def concat(t):
    """Associative, not commutative, not idempotent: composition of affine maps mod p, coded as one int."""
    P = 97
    if len(t) == 1:
        return t[0]
    x, y = t
    if x is None or y is None:
        return x if y is None else y
    a, b = divmod(x, P)
    c, d = divmod(y, P)
    return (a * c % P) * P + (b * c + d) % P


def maximum(t):
    ys = [y for y in t if y is not None]
    return max(ys) if ys else None


FUNCS = [minimum, greatest_common_divisor, summation, concat, maximum]
ORACLE = [min, lambda xs: math.gcd(*xs) if len(xs) > 1 else xs[0], sum,
          lambda xs: __import__("functools").reduce(lambda a, b: concat((a, b)), xs), max]


def prep(f, x):
    """Domain of the function: gcd and the composition want non-negative numbers."""
    return abs(x) % (97 * 97) if f == 3 else abs(x) if f == 1 else x


# element types: what an integer of a case stands for; sums of the floats are exact, strings and tuples are joined by summation
RTYPES = [(int, lambda x: x), (float, lambda x: (x if abs(x) < 10 ** 9 else x % 10 ** 9) / 4), (str, lambda x: chr(97 + x % 7) * (abs(x) % 3)), (tuple, lambda x: (x % 5,) * (1 + x % 2)),
         (object, lambda x: Fraction(x, 3))]


def typed(case):
    """(element type, conversion of the case's numbers, the function's number)"""
    t, f = case.get("t", 0) % 5, case["f"] % 5
    if t and f in (1, 3):       # gcd and the composition are functions of integers
        f = 0
    dtype, conv = RTYPES[t]
    return dtype, (lambda x: prep(f, x)) if t == 0 else conv, f


def fold(f, xs):
    if f == 2:
        return functools.reduce(lambda a, b: a + b, xs)
    return ORACLE[f](xs)


def rq_array(dtype, xs, case, ctx):
    """The array that ranges are asked of, static or dynamic; the cells of a dynamic one are all set."""
    dyn, b = case.get("dyn", 0) % 2, be(case["be"])
    ctx.label("dynamic array" if dyn else "static array")
    return (DynamicOneDimensionalArray if dyn else OneDimensionalArray)(dtype, list(xs), backend=b)


def gen_static(r):
    n = r.size(1, 40)
    big = r.choice([3, 60, 10 ** 9, 10 ** 15])
    qs = []
    for _ in range(r.int(4, 20) if r.k > 1 else r.size(0, 12)):
        i, j = r.int(0, n - 1), r.int(0, n - 1)
        qs.append([min(i, j), max(i, j)])
    bad = [r.choice([[-1, 0], [0, n], [n, n], [n - 1, n + 3], [-2, -1], [1, 0], [n - 1, n - 2], [n + 1, n - 1]]) for _ in range(r.int(0, 3))]
    return {"be": r.int(0, 1), "f": r.int(0, 4), "ds": r.int(0, 2), "xs": [r.int(-big, big) for _ in range(n)], "qs": qs, "bad": bad,
            "t": r.weighted((5, 0), (2, 1), (1, 2), (1, 3), (1, 4)), "dyn": r.weighted((3, 0), (1, 1))}


def run_static(case, ctx):
    dtype, conv, f = typed(case)
    xs = [conv(x) for x in case["xs"]]
    n = len(xs)
    if not n:
        raise Invalid()
    arr = rq_array(dtype, xs, case, ctx)
    ds = case["ds"] % 3
    if n == 1:
        none = OneDimensionalArray(int, [], backend=be(case["be"]))
        raises(lambda: RangeQueryStatic(none, FUNCS[f], *([], ["sparse_table"], ["array"])[ds]), ValueError)
        raises(lambda: SparseTable(none, FUNCS[f]), ValueError)
        ctx.label("empty array")
    q = RangeQueryStatic(arr, FUNCS[f], *([], ["sparse_table"], ["array"])[ds])
    if n <= 9:
        rs = [(a, b) for a in range(n) for b in range(a, n)]
    else:
        rs = [tuple(p) for p in case["qs"]] + [(0, n - 1)]
    for a, b in rs:
        if not 0 <= a <= b < n:
            raise Invalid()
        eq(q.query(a, b), fold(f, xs[a:b + 1]), "query(%d, %d)", a, b)
    if ds < 2 and case["f"] % 2:
        t = SparseTable(arr, FUNCS[f])
        for a, b in rs:
            eq(t.query(a, b), fold(f, xs[a:b + 1]), "SparseTable.query(%d, %d)", a, b)
        if n < 40 and f != 1:
            cols = range(n.bit_length())
            eq(str(t), str([str([fold(f, xs[i:i + 2 ** j]) if i + 2 ** j <= n else None for j in cols]) for i in range(n)]), "string form")
    for a, b in case["bad"]:
        if 0 <= a <= b < n:
            raise Invalid()
        raises(lambda: q.query(a, b), ValueError if a > b else IndexError)
        ctx.label("refused range")
    eq([arr[i] for i in range(n)], xs, "the array")
    ctx.label(["minimum", "gcd", "sum", "composition", "maximum"][f], dtype.__name__, ["default", "sparse_table", "array"][ds])
    ctx.nontrivial(n > 2 and len(set(xs)) > 2 and len(rs) > 3)


def ex_static():
    for n in range(1, 34):
        for f in range(5):
            for ds in (1, 2):
                yield {"be": 0, "f": f, "ds": ds, "xs": [(k * 7919 + 13) % 1009 - 400 for k in range(n)],
                       "qs": [[a, b] for a in range(n) for b in range(a, n)], "bad": [[0, n], [-1, 0], [1, 0]]}


prop("M06", Sub("static", gen_static, run_static, quick=40000, shards=6, hyp=200),
     Sub("static_big", big(gen_static, 10), run_static, quick=1500, shards=2, hyp=0),
     Sub("static_huge", huge(gen_static, 60), run_static, quick=60, shards=4, hyp=0, cpu=60),
     Sub("static_small", gen_static, run_static, quick=0, hyp=0, exhaust=ex_static),
     rule="arrays of either backend of up to 40 integers, floats, strings, tuples or fractions, the three given functions, maximum and a non-commutative composition, both data structures "
          "and the sparse table itself, against folding the function over the slice; every range of short arrays and of every length below 34; "
          "ranges that are empty or outside; non-trivial = at least three different values and four ranges.")


def gen_dynamic(r):
    n = r.size(1, 30)
    big = r.choice([3, 60, 10 ** 9])
    ops = []
    for _ in range(r.int(4, 20) if r.k > 1 else r.size(1, 20)):
        i, j = r.int(0, n - 1), r.int(0, n - 1)
        ops.append(r.weighted((5, ["up", i, r.int(-big, big)]), (5, ["q", min(i, j), max(i, j)]), (1, ["all", 0, 0]),
                              (1, ["badup", r.choice([-1, -n, n, n + 4]), 1]),
                              (1, ["bad"] + r.choice([[-1, 0], [0, n], [n, n], [1, 0], [n - 1, n - 2], [-3, -2]]))))
    return {"be": r.int(0, 1), "f": r.int(0, 4), "ds": r.int(0, 3), "xs": [r.int(-big, big) for _ in range(n)], "ops": ops,
            "t": r.weighted((5, 0), (2, 1), (1, 2), (1, 3), (1, 4)), "mix": r.int(0, 1), "dyn": r.weighted((3, 0), (1, 1))}


def run_dynamic(case, ctx):
    dtype, conv, f = typed(case)
    m = [conv(x) for x in case["xs"]]
    n = len(m)
    if not n:
        raise Invalid()
    arr = rq_array(dtype, m, case, ctx)
    ds = case["ds"] % 4
    raw = ds == 3
    if n == 1:
        none = OneDimensionalArray(int, [], backend=be(case["be"]))
        if raw:
            q = ArraySegmentTree(none, FUNCS[f])
            raises(q.build, ValueError)
            raises(lambda: q.query(0, 0), ValueError)
            eqt(q.is_ready, False, "is_ready")
        else:
            raises(lambda: RangeQueryDynamic(none, FUNCS[f], *([], ["segment_tree"], ["array"])[ds]), ValueError)
        ctx.label("empty array")
    if raw:
        q = ArraySegmentTree(arr, FUNCS[f], dimensions=1)
        eqt(q.is_ready, False, "is_ready")
        raises(lambda: q.query(0, 0), ValueError)
        raises(lambda: q.update(0, 0), ValueError)
        q.build()
        q.build()
        eqt(q.is_ready, True, "is_ready")
    else:
        q = RangeQueryDynamic(arr, FUNCS[f], *([], ["segment_tree"], ["array"])[ds])
    ctx.label(["minimum", "gcd", "sum", "composition", "maximum"][f], dtype.__name__, ["default", "segment_tree", "array", "ArraySegmentTree"][ds])
    ups = asked = 0

    def ask(a, b):
        nonlocal asked
        eq(q.query(a, b), fold(f, m[a:b + 1]), "query(%d, %d)", a, b)
        asked += ups > 0 and b > a
    for op, a, b in case["ops"]:
        if op == "up":
            if not 0 <= a < n:
                raise Invalid()
            v = conv(b)
            if case.get("mix") and dtype in (int, float) and be(case["be"]) is PY and b % 3 == 0:
                v = str(v) if b % 2 else v + 0.5 if dtype is int else int(v)      # converted by the array
                ctx.label("converted")
                try:
                    want = dtype(v)
                except ValueError:
                    raise Invalid()
            else:
                want = v
            q.update(a, v)
            m[a] = v = want
            eq(arr[a], v, "the array after update(%d)", a)
            ups += 1
        elif op == "q":
            if not 0 <= a <= b < n:
                raise Invalid()
            ask(a, b)
        elif op == "all":
            for i in range(0, n, 1 + n // 300):
                ask(i, n - 1)
                ask(0, i)
                ask(i, i)
        elif op == "badup":
            if 0 <= a < n:
                raise Invalid()
            raises(lambda: q.update(a, conv(b)), IndexError)
            ctx.label("refused update")
        elif op == "bad" and not raw:
            if 0 <= a <= b < n:
                raise Invalid()
            raises(lambda: q.query(a, b), ValueError if a > b else IndexError)
            ctx.label("refused range")
    for i in range(0, n, 1 + n // 300):
        ask(i, n - 1)
        ask(0, i)
    eq([arr[i] for i in range(n)], m, "the array")
    if raw and n < 40:
        nodes = []

        def preorder(lo, hi):
            nodes.append(str(((lo, hi), fold(f, m[lo:hi + 1]))))
            if lo < hi:
                preorder(lo, (lo + hi) // 2)
                preorder((lo + hi) // 2 + 1, hi)
            else:
                nodes.extend(["", ""])
        preorder(0, n - 1)
        eq(str(q), str(nodes), "string form")
    ctx.nontrivial(ups > 1 and asked > 2)


def ex_dynamic():
    for n in range(1, 18):
        for ds in (1, 2, 3):
            for i in range(n):
                yield {"be": 0, "f": 2 + i % 2, "ds": ds, "xs": [(k * 7919 + 13) % 1009 - 400 for k in range(n)],
                       "ops": [["up", i, 5000]] + [["q", a, b] for a in range(n) for b in range(a, n)]}


prop("M07", Sub("dynamic", gen_dynamic, run_dynamic, quick=16000, shards=6, hyp=200),
     Sub("dynamic_big", big(gen_dynamic, 10), run_dynamic, quick=800, shards=2, hyp=0),
     Sub("dynamic_huge", huge(gen_dynamic, 60), run_dynamic, quick=48, shards=4, hyp=0, cpu=60),
     Sub("dynamic_small", gen_dynamic, run_dynamic, quick=0, hyp=0, exhaust=ex_dynamic),
     rule="histories of point updates and range queries on both data structures and the array segment tree itself, five element types, updates the array converts, five functions (one not "
          "commutative), arrays of either backend, against folding the function over a list; every range after updating every position for "
          "every length below 18; refused updates and ranges; non-trivial = two updates and three longer ranges asked afterwards.")
