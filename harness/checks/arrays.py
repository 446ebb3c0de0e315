import itertools
import operator
from ..core import prop, Sub, big, huge, check, eq, raises
from ..util import PY, CPP, be, eqt
from pydatastructs import (OneDimensionalArray, MultiDimensionalArray, DynamicOneDimensionalArray, bubble_sort,
                           selection_sort, insertion_sort, quick_sort)

DT = [int, str, float, list]


def val(dt, k):
    """The k-th value of a type."""
    if dt is int:
        return {18: 2 ** 31 + 7, 19: -2 ** 63 - 1, 20: 10 ** 25}.get(k, k - 8)
    return ("v%d" % k if k != 8 else "") if dt is str else (k - 8) / 2.0 if dt is float else [k] if k != 8 else []


# ------------------------------------------------------------------ A01

def gen_oda(r):
    dt = r.int(0, 3)
    n = r.size(0, 12)
    return {"cpp": r.int(0, 1), "dt": dt, "how": r.int(0, 7), "init": r.int(-1, 20),
            "data": [r.int(0, 20) for _ in range(n)],
            "conv": [r.int(0, 2) for _ in range(n)],
            "ops": [[r.weighted((4, "get"), (4, "set"), (1, "fill"), (1, "none"), (2, "bad"), (1, "conv")),
                     r.int(-3, 12 * r.k + 3), r.int(0, 20)] for _ in range(r.size(0, 14))]}


def foreign(dt, k, c):
    """A value of another type that the type converts (python backend)."""
    if dt is int:
        return [val(int, k), float(k - 8) + (0.5 if k > 8 else 0.0), str(val(int, k))][c]
    if dt is float:
        return [(k - 8) / 2.0, k - 8, str((k - 8) / 2.0)][c]
    if dt is str:
        return [val(str, k), k, k / 2.0][c]
    return [val(list, k), (k, k), (k,)][c]


def run_oda(case, ctx):
    backend, dt = be(case["cpp"]), DT[case["dt"] % 4]
    cpp = backend is CPP
    vals = [val(dt, k) for k in case["data"]]
    how = case["how"]
    kw = {"backend": backend}
    conv = (case["conv"] + [0] * len(vals))[:len(vals)]
    ctx.label("cpp" if cpp else "python")
    if how in (0, 1):                       # size only
        init = None if case["init"] < 0 else val(dt, case["init"])
        n = len(vals)
        a = OneDimensionalArray(dt, n, init=init, **kw) if how == 0 or init is not None else OneDimensionalArray(dt, n, **kw)
        model = [init] * n
    else:
        src = list(vals)
        if not cpp:
            src = [foreign(dt, k, c) for k, c in zip(case["data"], conv)]
            vals = [x if isinstance(x, dt) else dt(x) for x in src]
        arg = tuple(src) if how >= 5 else list(src)
        before = list(arg)
        if how in (3, 6):
            a = OneDimensionalArray(dt, len(src), arg, **kw)
        elif how in (4, 7):
            a = OneDimensionalArray(dt, arg, len(src), **kw)
        else:
            a = OneDimensionalArray(dt, arg, **kw)
        model = list(vals)
        check(list(arg) == before and all(type(x) is type(y) for x, y in zip(arg, before)),
              "constructing an array changed the caller's list")
        if how in (3, 4, 6, 7):
            raises(lambda: OneDimensionalArray(dt, len(src) + 1, list(src), **kw), ValueError)
        if how < 5 and src:                # a private copy
            arg[0] = val(dt, 21)

    def agree():
        eq(len(a), len(model), "length")
        for i, m in enumerate(model):
            eqt(a[i], m, "element %d", i)
        eq(str(a), str(["" if x is None else str(x) for x in model] if cpp else model), "string form")

    agree()
    wrong = object()
    refused = [(), (dt,), (dt, 1, 2, 3), (dt, list(vals), list(vals)), (dt, 2.0), (dt, len(vals), set()), (dt, None), (dt, 1.0, list(vals)),
               (dt, list(vals), "1"), (dt, 2, 3)][case["init"] % 10]
    raises(lambda: OneDimensionalArray(*refused, **kw), TypeError, ValueError)
    raises(lambda: OneDimensionalArray(dt, -1 - len(vals), **kw), ValueError, OverflowError)
    raises(lambda: DynamicOneDimensionalArray(dt, -1 - len(vals), **kw), ValueError, OverflowError, IndexError)
    every = case.get("every", 1)
    for step, (op, i, k) in enumerate(case["ops"], 1):
        n = len(model)
        if op == "get":
            if 0 <= i < n:
                eqt(a[i], model[i], "a[%d]", i)
            else:
                raises(lambda: a[i], IndexError)
                ctx.label("get out of range")
        elif op in ("set", "none", "conv"):
            v = None if op == "none" else val(dt, k)
            s = v
            if op == "conv" and not cpp:
                s = foreign(dt, k, 1 + i % 2)
                v = s if isinstance(s, dt) else dt(s)
            if 0 <= i < n:
                a[i] = s
                model[i] = v
                ctx.nontrivial()
            else:
                def f():
                    a[i] = s
                raises(f, IndexError)
                ctx.label("set out of range")
        elif op == "fill":
            if cpp or i % 2:
                a.fill(val(dt, k))
                model = [val(dt, k)] * n
            else:
                s = foreign(dt, k, 1 + k % 2)
                a.fill(s)
                model = [s if isinstance(s, dt) else dt(s)] * n
        elif op == "bad" and 0 <= i < n:
            if cpp or dt in (int, float, list):
                def f():
                    a[i] = wrong
                raises(f, TypeError)
                raises(lambda: a.fill(wrong), TypeError)
                ctx.label("wrong type")
        if step % every == 0 or step == len(case["ops"]):
            agree()
    if not cpp:
        eq(list(a), model, "iteration")


# ------------------------------------------------------------------ A02

def gen_mda(r):
    dims = [r.int(1, 4 * r.k) for _ in range(r.int(1, 4) if r.k == 1 else r.int(1, 3))]
    if r.k > 1 and r.int(0, 2) == 0:
        dims = [r.int(1, 3) for _ in range(r.int(5, 6))]
    return {"dims": dims, "fill": r.int(-1, 5), "dt": r.weighted((3, 0), (1, 1), (1, 2), (1, 3)),
            "ops": [[r.weighted((3, "set"), (3, "get"), (1, "bad"), (1, "neg"), (1, "arity"), (1, "fill")),
                     [r.int(0, 8 * r.k - 1) for _ in range(4 if r.k == 1 else 6)], r.int(0, 30)] for _ in range(r.size(0, 16) if r.k == 1 else r.int(1, 6))]}


def ex_mda():
    for d in range(1, 4):
        for dims in itertools.product(range(1, 4), repeat=d):
            yield {"dims": list(dims), "fill": -1, "ops": [["all", [0, 0, 0, 0], 0]]}


def run_mda(case, ctx):
    dims = [max(1, d) for d in case["dims"]] or [1]
    dt = DT[case.get("dt", 0) % 4]

    def of(k):
        return k if dt is int else None if k == 21 else val(dt, k)
    a = MultiDimensionalArray(dt, *dims)
    eq(a.shape, tuple(dims), "shape")
    model = {ix: None for ix in itertools.product(*[range(d) for d in dims])}
    ctx.label("%d dims" % len(dims))
    ctx.nontrivial(len(dims) > 1 and max(dims) > 1)
    one = len(dims) == 1
    p = sum(dims) % len(dims)
    raises(lambda: MultiDimensionalArray(int, *(dims[:p] + [-(case["fill"] % 3)] + dims[p + 1:])), ValueError)
    raises(lambda: MultiDimensionalArray(*([int] * (case["fill"] % 2))), ValueError)

    def key(ix):
        return ix[0] if one and dt is int else tuple(ix)

    def agree():
        for ix, v in model.items():
            eqt(a[key(ix)], v, "a%r" % (ix,))

    def setter(ix, v):
        a[ix] = v

    if case["fill"] >= 0:
        a.fill(of(case["fill"]))
        model = dict.fromkeys(model, of(case["fill"]))
    for op, raw, v in case["ops"]:
        raw = (list(raw) + [0] * 6)[:len(dims)]
        ix = tuple(x % d for x, d in zip(raw, dims))
        if op == "set":
            a[key(ix)] = of(v)
            model[ix] = of(v)
        elif op == "all":
            for n, ix in enumerate(sorted(model)):
                a[key(ix)] = n
                model[ix] = n
                agree()
        elif op == "get":
            eq(a[key(ix)], model[ix], "a%r" % (ix,))
        elif op == "fill":
            if dt is int:
                a.fill([v, v + 0.5, str(v)][raw[0] % 3])
                model = dict.fromkeys(model, v)
            else:
                k, c = v % 20, raw[0] % 3
                a.fill(foreign(dt, k, c))
                model = dict.fromkeys(model, dt(foreign(dt, k, c)))
        else:
            bad = list(ix)
            p = v % len(dims)
            if op == "bad":
                bad[p] = dims[p] + raw[p] % 3
            elif op == "neg":
                bad[p] = -1 - raw[p] % 3
            else:
                bad = bad + [0] if v % 2 or len(bad) < 2 else bad[:-1]
            k = tuple(bad) if len(bad) > 1 else bad[0]
            raises(lambda: a[k], IndexError)
            raises(lambda: setter(k, 99), IndexError)
            if dt in (int, float):
                raises(lambda: a.fill("x"), ValueError)
            ctx.label("rejected index: " + op)
        agree()


# ------------------------------------------------------------------ A03

def gen_doda(r):
    return {"cpp": r.int(0, 1), "dt": r.int(0, 2), "how": r.int(0, 3),
            "lf": r.int(0, 5),
            "data": [r.int(0, 20) for _ in range(r.size(0, 9))],
            "ops": [[r.weighted((10, "app"), (10, "del"), (2, "set"), (2, "burst"), (2, "wipe"), (2, "oob"), (3, "put"),
                                (1, "none"), (1, "blank"), (1, "fill"), (1, "sort"), (1, "bad")),
                     r.int(0, 30 * r.k), r.int(0, 20)] for _ in range(r.size(0, 30))]}


def run_doda(case, ctx):
    backend, dt = be(case["cpp"]), DT[case["dt"] % 3]
    vals = [val(dt, k) for k in case["data"]]
    how, lf = case["how"], [0.25, 0.25, 0.25, 0.1, 0.34, 0.5][case["lf"] % 6]
    kw = {"backend": backend}
    if lf != 0.25:
        kw["load_factor"] = lf
    if how == 0:
        a = DynamicOneDimensionalArray(dt, 0, **kw)
        cells, last = [], -1
    elif how == 1:
        a = DynamicOneDimensionalArray(dt, len(vals), **kw)
        cells, last = [None] * len(vals), -1
    else:
        a = (DynamicOneDimensionalArray(dt, list(vals), **kw) if how == 2
             else DynamicOneDimensionalArray(dt, tuple(vals), **kw))
        cells, last = list(vals), len(vals) - 1
    ctx.label("cpp" if case["cpp"] else "python")
    num = sum(x is not None for x in cells)

    def contract():
        nonlocal cells, last
        if num / len(cells) < lf:
            cells = [x for x in cells if x is not None]
            last = num - 1
            cells += [None] * (num + 1)
            ctx.label("contracted")
            ctx.nontrivial()

    def agree():
        eq(a.size, len(cells), "size")
        eq(len(a), len(cells), "len")
        for i, m in enumerate(cells):
            eqt(a[i], m, "element %d", i)
        eq(str(a), str(['' if x is None else str(x) for x in cells[:last + 1]]), "str")
        if not case["cpp"]:
            eq(list(reversed(a)), cells[:last + 1][::-1], "reversed")
        raises(lambda: a[len(cells)], IndexError)
        raises(lambda: a[-1], IndexError)

    def append(v):
        nonlocal cells, last, num
        if last + 1 == len(cells):
            cells = cells + [None] * (len(cells) + 1)
            ctx.label("grew")
        a.append(v)
        cells[last + 1] = v
        last += 1
        num += v is not None
        contract()

    def delete(i):
        nonlocal last, num
        a.delete(i)
        if 0 <= i <= last and cells[i] is not None:
            cells[i] = None
            num -= 1
            if last == i:
                last -= 1
            ctx.label("deleted")
            contract()
        else:
            ctx.label("delete of an empty position")

    agree()
    every = case.get("every", 1)
    for step, (op, i, k) in enumerate(case["ops"], 1):
        if op == "app":
            append(val(dt, k))
        elif op == "burst":
            for j in range(k % 9 * every):
                append(val(dt, (k + j) % 21))
        elif op == "wipe":
            for j in range(len(cells) - 1, -1, -1) if k % 2 else range(len(cells)):
                if (j * 7 + k) % 5 and j < len(cells):
                    delete(j)
        elif op == "del":
            delete(i % len(cells) if cells else i)
        elif op == "oob":
            delete(-1 - i if k % 2 else len(cells) + i)
        elif op in ("put", "none"):
            # an element written into any cell counts, wherever it is
            if cells:
                j = i % len(cells)
                v = val(dt, k) if op == "put" else None
                a[j] = v
                num += (v is not None) - (cells[j] is not None)
                if v is not None:
                    last = max(last, j)
                    ctx.label("filled a blank" if cells[j] is None else "overwrote")
                cells[j] = v
        elif op == "blank":
            append(None)
        elif op == "fill" and len(cells) <= 2000:             # each doubles the array with the next append
            a.fill(val(dt, k))
            cells = [val(dt, k)] * len(cells)
            num, last = len(cells), len(cells) - 1
        elif op == "sort":
            sort = [bubble_sort, selection_sort, insertion_sort, quick_sort][i % 4]
            if len(cells) <= 60 and cells:
                sort(a, backend=backend)
                full = sorted(x for x in cells if x is not None)
                cells = full + [None] * (len(cells) - num)
                last = num - 1
                contract()
                ctx.label("sorted")
        elif op == "bad":
            if dt is not str:
                raises(lambda: a.append("x"), TypeError if case["cpp"] else ValueError)
                if cells:
                    raises(lambda: operator.setitem(a, i % len(cells), "x"), TypeError if case["cpp"] else ValueError)
        elif op == "set":
            live = [j for j in range(last + 1) if cells[j] is not None]
            if live:
                j = live[i % len(live)]
                a[j] = val(dt, k)
                cells[j] = val(dt, k)
        if step % every == 0 or step == len(case["ops"]):
            agree()


def ex_doda():
    # every sequence of five deletes/appends on an array of four
    for cpp in (0, 1):
        for seq in itertools.product(range(-1, 5), repeat=5):
            yield {"cpp": cpp, "dt": 0, "how": 2, "lf": 0, "data": [1, 2, 3, 4],
                   "ops": [["app", 0, 10 + j] if s < 0 else ["del", s, 0] for j, s in enumerate(seq)]}


prop("A01", Sub("static", gen_oda, run_oda, quick=30000, shards=4, hyp=300), Sub("static_big", big(gen_oda, 12), run_oda, quick=600, shards=2, hyp=0),
     Sub("static_huge", huge(gen_oda, 200, 400), run_oda, quick=40, shards=4, hyp=0, cpu=60),
     rule="random arrays of both backends and four element types with histories of reads, writes, fills, "
          "out-of-range and wrong-type accesses against a list; non-trivial = at least one accepted write.")
prop("A02", Sub("multi", gen_mda, run_mda, quick=20000, shards=4, hyp=300, exhaust=ex_mda), Sub("multi_big", big(gen_mda, 4), run_mda, quick=600, shards=2, hyp=0),
     rule="random shapes (1-4 dimensions, sizes 1-4) and histories against a dict keyed by index tuple, plus every "
          "shape with up to 3 dimensions of size up to 3 written cell by cell; non-trivial = two or more dimensions.")
prop("A03", Sub("dynamic", gen_doda, run_doda, quick=30000, shards=4, hyp=300, exhaust=ex_doda), Sub("dynamic_big", big(gen_doda, 8), run_doda, quick=600, shards=2, hyp=0),
     Sub("dynamic_huge", huge(gen_doda, 16, 60), run_doda, quick=32, shards=4, hyp=0, cpu=60),
     rule="random histories of append/delete/overwrite on both backends against a reference model of cells with holes, "
          "plus every history of five steps on a four-element array; non-trivial = the array contracted.")
