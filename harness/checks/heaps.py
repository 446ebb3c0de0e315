import itertools
from collections import Counter
from ..core import prop, Sub, huge, check, eq, raises, Invalid, Violation
from ..util import PY, CPP, be, eqt, datum
from pydatastructs import (BinaryHeap, TernaryHeap, DHeap, BinomialHeap, BinomialTree, BinomialTreeNode, TreeNode,
                           OneDimensionalArray, DynamicOneDimensionalArray)


def keymaker(kt):
    """Key makers for ints, floats (infinite ones too), strings and tuples; all with a total order."""
    if kt == 1:
        inf = float("inf")
        return lambda i: -inf if i == 0 else inf if i == 9 else i / 2 if i % 2 else float(i) * 1e200
    if kt == 2:
        return lambda i: "abcdefghijklmnopqrstuvwxyz"[i % 26] * (1 + i % 2)
    if kt == 3:
        return lambda i: (i % 3, -i)
    return lambda i: i - 4


# ------------------------------------------------------------------ H01 d-ary heaps

def gen_dheap(maxops):
    def gen(r):
        hi = r.choice([2, 9, 40]) * r.k
        n0 = r.size(0, 12) if r.int(0, 2) else 0
        ops = []
        for _ in range(r.int(1, 3)):
            w = r.choice([(7, 2), (2, 7), (4, 4)])
            ops += [[r.weighted((w[0], "ins"), (w[1], "ext"), (1, "str")), r.int(0, hi)] for _ in range(r.size(0, maxops // 2))]
        return {"d": r.int(1, 6) if r.k == 1 or r.int(0, 1) else r.int(7, 70), "cls": r.int(0, 3), "max": r.int(0, 1), "kt": r.weighted((5, 0), (1, 1), (1, 2), (1, 3)),
                "init": [r.int(0, hi) for _ in range(n0)], "form": r.int(0, 4), "ops": ops}
    return gen


def check_dheap(h, d, m, before, full=True):
    n = sum(m.values())
    eq(h.is_empty, n == 0, "is_empty with %d elements", n)
    nodes = [h.heap[i] for i in range(n)]
    got = Counter((x.key, x.data) for x in nodes)
    if got != m:
        raise Violation("the heap holds %r, expected %r" % (sorted(got.elements(), key=repr), sorted(m.elements(), key=repr)))
    for i in range(1, n):
        p = (i - 1) // d
        check(not before(nodes[i].key, nodes[p].key), "%r is below %r", nodes[i].key, nodes[p].key)
    if full:
        eq(str(h), str([(nodes[i].key, nodes[i].data, [j for j in range(d * i + 1, d * i + d + 1) if j < n]) for i in range(n)]), "string form")


def run_dheap(case, ctx):
    mk = keymaker(case["kt"])
    mx = case["max"]
    d = case["d"]
    if d < 1:
        raise Invalid()
    before = (lambda a, b: a > b) if mx else (lambda a, b: a < b)
    hp = {"heap_property": "max" if mx else "min"}
    m = Counter()
    init = [(mk(k), i) for i, k in enumerate(case["init"])]
    args = ()
    form = case["form"]
    nodes = [TreeNode(k, x) for k, x in init]
    if form == 0 and not init:
        args = ()
    elif form == 1:
        args = (tuple(nodes),)
    elif form == 2 and nodes:
        args = (OneDimensionalArray(TreeNode, nodes),)
    elif form == 3:
        a = DynamicOneDimensionalArray(TreeNode, 0)
        for x in nodes:
            a.append(x)
        args = (a,)
    else:
        args = (nodes,)
    for e in init:
        m[e] += 1
    if case["cls"] == 0:
        h, d = BinaryHeap(*args, **hp), 2
    elif case["cls"] == 1:
        h, d = TernaryHeap(*args, **hp), 3
    else:
        h = DHeap(*args, d=d, **hp)
    ctx.label("d=%d" % d, "max" if mx else "min")
    if len(init) > 2:
        ctx.label("built from nodes")
    check_dheap(h, d, m, before)
    exts = most = 0
    every = case.get("every", 1)
    for step, (op, i) in enumerate(case["ops"]):
        if op == "ins":
            k = mk(i)
            r = h.insert(k, datum(step))
            check(r is None, "insert returned %r", r)
            m[(k, datum(step))] += 1
        elif op == "ext":
            if not m:
                raises(h.extract, IndexError)
                ctx.label("extract from empty")
            else:
                n = h.extract()
                e = (n.key, n.data)
                check(m[e] > 0, "extracted %r, which is not in the heap", e)
                for k, _ in m:
                    check(not before(k, n.key), "extracted %r although %r is in the heap", n.key, k)
                m[e] -= 1
                if not m[e]:
                    del m[e]
                exts += 1
        most = max(most, sum(m.values()) if every == 1 else len(m))
        if step % every == 0 or step == len(case["ops"]) - 1:
            check_dheap(h, d, m, before, op == "str")
    out = []
    while m and len(case["ops"]) < 60:
        n = h.extract()
        out.append(n.key)
        check(m[(n.key, n.data)] > 0, "extracted %r, which is not in the heap", n.key)
        m[(n.key, n.data)] -= 1
        m += Counter()
        check_dheap(h, d, m, before, False)
    eq(out, sorted(out, reverse=bool(mx)), "keys in the order of extraction")
    ctx.nontrivial(most > d + 1 and exts > 1)


def ex_dheap():
    for n in range(1, 7):
        for p in itertools.permutations(range(n)):
            for d in (2, 3):
                yield {"d": d, "cls": 2, "max": n % 2, "kt": 0, "init": list(p) if n % 3 else [], "form": 4,
                       "ops": [["ins", x] for x in p] if n % 3 == 0 else []}


prop("H01", Sub("dheap", gen_dheap(40), run_dheap, quick=20000, shards=5, hyp=200),
     Sub("dheap_big", gen_dheap(300), run_dheap, quick=1500, shards=2, hyp=0),
     Sub("dheap_huge", huge(gen_dheap(80), 20, 100), run_dheap, quick=40, shards=4, hyp=0, cpu=60),
     Sub("dheap_small", gen_dheap(40), run_dheap, quick=0, hyp=0, exhaust=ex_dheap),
     rule="histories of insert and extract on binary, ternary and d-ary (d from 1 to 6) min- and max-heaps with int, float, string and tuple "
          "keys, started empty or from lists, tuples and arrays of nodes, against a multiset; after every operation the heap order between every "
          "node and its parent and the whole contents; non-trivial = at least two extractions and more elements than two levels hold.")


# ------------------------------------------------------------------ H02 binomial heaps

def gen_binom(maxops):
    def gen(r):
        hi = r.choice([3, 9, 50]) * r.k
        ops = []
        for _ in range(r.size(1, maxops)):
            op = r.weighted((8 if r.k == 1 else 40, "ins"), (3, "delmin"), (2, "dec"), (2, "del"), (2, "merge"), (1, "badec"), (1, "copymerge"), (1, "list"))
            ops.append([op, r.int(0, hi), r.int(0, 40), r.int(0, 9)])
        return {"kt": r.weighted((5, 0), (1, 1), (1, 2), (1, 3)), "ops": ops}
    return gen


def walk_binom(h, m):
    """Checks the binomial structure; -> all nodes."""
    nodes = []
    total = sum(m.values())
    orders = []
    for tree in h.root_list:
        check(tree is not None and tree.root is not None, "a root without a tree")
        check(tree.root.is_root, "the root %r is not marked so", tree.root.key)
        orders.append(tree.order)
        st = [(tree.root, tree.order)]
        while st:
            n, k = st.pop()
            nodes.append(n)
            check(len(nodes) <= total, "more nodes than elements")
            kids = [c for c in n.children if c is not None]
            eq(len(kids), k, "children of a node of order %d", k)
            for j, c in enumerate(kids):
                check(not c.is_root, "%r below %r is marked as a root", c.key, n.key)
                check(c.parent is n, "parent of %r", c.key)
                check(not c.key < n.key, "%r is below %r", c.key, n.key)
                st.append((c, j))
    eq(orders, sorted(set(orders)), "orders of the trees")
    got = Counter((n.key, n.data) for n in nodes)
    if got != m:
        raise Violation("the heap holds %r, expected %r" % (sorted(got.elements(), key=repr), sorted(m.elements(), key=repr)))
    eq(h.is_empty, not m, "is_empty")
    if m:
        n = h.find_minimum()
        check(any(n is t.root for t in h.root_list), "the minimum is not a root")
        eq(n.key, min(k for k, _ in m), "the minimum")
    else:
        raises(h.find_minimum, IndexError)
        raises(h.delete_minimum, IndexError)
    return nodes


def run_binom(case, ctx):
    mk = keymaker(case["kt"])
    h, m = BinomialHeap(), Counter()
    dels = merges = 0
    every = case.get("every", 1)
    for step, (op, a, b, c) in enumerate(case["ops"]):
        nodes = walk_binom(h, m) if step % every == 0 or op in ("dec", "badec", "del", "delmin") else []
        if op == "ins":
            check(h.insert(mk(a), datum(step)) is None)
            m[(mk(a), datum(step))] += 1
        elif op == "delmin":
            if m:
                e = h.find_minimum()
                e = (e.key, e.data)
                h.delete_minimum()
                m[e] -= 1
                dels += 1
        elif op in ("dec", "badec") and nodes:
            n = nodes[b % len(nodes)]
            k = mk(a)
            old = (n.key, n.data)
            if k < n.key:
                h.decrease_key(n, k)
                m[old] -= 1
                m[(k, old[1])] += 1
                ctx.label("decreased a root" if n.is_root else "decreased a key below a root")
            else:
                raises(lambda: h.decrease_key(n, k), ValueError)
        elif op == "del" and nodes:
            n = nodes[b % len(nodes)]
            m[(n.key, n.data)] -= 1
            h.delete(n)
            dels += 1
            ctx.label("deleted a node")
        elif op in ("merge", "copymerge"):
            o = BinomialHeap()
            mo = Counter()
            for j in range(b):
                o.insert(mk((a + j * c) % 50), (step, j))
                mo[(mk((a + j * c) % 50), (step, j))] += 1
            for j in range(min(c % 4, b)):
                e = o.find_minimum()
                mo[(e.key, e.data)] -= 1
                o.delete_minimum()
                mo += Counter()
            walk_binom(o, mo)
            if op == "copymerge":
                h, o = o, h
            h.merge(o)
            m += mo
            merges += 1
            ctx.label("merged")
        elif op == "list":
            h = BinomialHeap(list(h.root_list) if c % 2 else h.root_list)
            raises(lambda: BinomialHeap([1]), TypeError)
            raises(lambda: h.merge([]), TypeError)
        m += Counter()
    walk_binom(h, m)
    ctx.nontrivial(dels > 0 and (merges > 0 or len(h.root_list) > 1) and sum(m.values()) > 2)
    out = []
    while m and len(case["ops"]) < 40:
        e = h.find_minimum()
        out.append(e.key)
        m[(e.key, e.data)] -= 1
        m += Counter()
        h.delete_minimum()
        walk_binom(h, m)
    eq(out, sorted(out), "keys in the order of extraction")


def run_binom_tree(case, ctx):
    """Binomial trees on their own."""
    a, b = case["a"], case["b"]
    def tree(k, base):
        if k == 0:
            return BinomialTree(BinomialTreeNode(base, base), 0)
        x, y = tree(k - 1, base), tree(k - 1, base + (1 << (k - 1)))
        x.add_sub_tree(y)
        return x
    x, y = tree(a, 0), tree(b, 1000)
    check(not x.is_empty)
    check(BinomialTree().is_empty)
    kids = [c.key for c in x.root.children if c is not None]
    if a != b:
        raises(lambda: x.add_sub_tree(y), ValueError)
        eq((x.order, y.order), (a, b), "orders after a refused addition")
        eq([c.key for c in x.root.children if c is not None], kids, "children after a refused addition")
        check(y.root.is_root)
    else:
        x.add_sub_tree(y)
        eq(x.order, a + 1, "order")
        eq([c.key for c in x.root.children if c is not None], kids + [1000], "children")
        check(y.root.parent is x.root and not y.root.is_root, "the added root")
        ctx.nontrivial(a > 0)
    raises(lambda: x.add_sub_tree(None), TypeError)
    raises(lambda: BinomialTree(TreeNode(1, 1), 0), TypeError)
    raises(lambda: BinomialTree(BinomialTreeNode(1, 1), 0.5), TypeError)


prop("H02", Sub("binomial", gen_binom(30), run_binom, quick=6000, shards=5, hyp=150),
     Sub("binomial_big", gen_binom(120), run_binom, quick=600, shards=2, hyp=0),
     Sub("binomial_huge", huge(gen_binom(30), 40, 100), run_binom, quick=24, shards=4, hyp=0, cpu=60),
     Sub("binomial_tree", lambda r: {"a": r.int(0, 5), "b": r.int(0, 5)}, run_binom_tree, quick=0, hyp=0,
         exhaust=lambda: ({"a": a, "b": b} for a in range(6) for b in range(6))),
     rule="histories of insert, merge with another heap, delete_minimum, decrease_key and delete of any node, with int, float, string and "
          "tuple keys, against a multiset; after every operation every tree is walked: a node of order k has children of orders 0 to k-1, "
          "parents and root marks, heap order, contents; non-trivial = a deletion, several trees or a merge, more than two elements left.")
