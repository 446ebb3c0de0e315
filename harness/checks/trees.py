import itertools, random, string
from collections.abc import MutableMapping
from fractions import Fraction
from ..core import prop, Sub, big, huge, check, eq, raises, Invalid, Violation
from ..util import PY, CPP, be, eqt, spoil, datum
from pydatastructs import (BinarySearchTree, AVLTree, RedBlackTree, CartesianTree, Treap, SplayTree, BinaryTree,
                           BinaryTreeTraversal, BinaryIndexedTree, OneDimensionalSegmentTree)

# ------------------------------------------------------------------ keys and comparators
# A comparator tells whether its first argument comes before its second, in a strict total order.

COMPS = [(None, lambda k: k), (lambda a, b: a < b, lambda k: k), (lambda a, b: a > b, lambda k: -k),
         (lambda a, b: (a % 5, a) < (b % 5, b), lambda k: (k % 5, k))]


class Rev(str):
    def __lt__(self, o):
        return str.__gt__(self, o)

    def __gt__(self, o):
        return str.__lt__(self, o)

    __hash__ = str.__hash__


class KeyMap(MutableMapping):
    """A dict whose keys are lists, which are ordered but not hashable."""

    def __init__(self):
        self.d = {}

    def __getitem__(self, k):
        return self.d[tuple(k)][1]

    def __setitem__(self, k, v):
        self.d[tuple(k)] = list(k), v

    def __delitem__(self, k):
        del self.d[tuple(k)]

    def __iter__(self):
        return iter([k for k, _ in self.d.values()])

    def __len__(self):
        return len(self.d)


def domain(case):
    """-> (comparator or None, order key, key maker)."""
    kt = case["kt"] % 6
    if kt == 1:
        if case["comp"] % 2:
            return (lambda a, b: a > b), Rev, (lambda i: string.ascii_letters[i % 52] * (1 + i % 3) if i else "")
        return None, (lambda k: k), (lambda i: string.ascii_letters[i % 52] * (1 + i % 3) if i else "")
    if kt == 2:
        return None, (lambda k: k), (lambda i: (i % 4, i))
    if kt == 4:
        if case["comp"] % 2:
            return (lambda a, b: a[::-1] > b[::-1]), (lambda k: [-x for x in k[::-1]]), (lambda i: [i % 4, i])
        return None, (lambda k: k), (lambda i: [i % 4, i])
    comp, order = COMPS[case["comp"] % 4]
    if kt == 3:
        return comp, order, (lambda i: i / 2 - 5)
    if kt == 5:                                 # numbers of several types, some of them equal
        return comp, order, (lambda i: [int, float, Fraction][i % 3](i // 2 - 4) if i % 8 else 2 ** 60 + i)
    return comp, order, (lambda i: i - 3)


def node_info(t, i):
    return t.tree[i]


def walk_tree(t, m, order, strict_parent=True):
    """Checks the search-tree structure below root_idx against the model; -> (indices in key order, height)."""
    tree = t.tree
    if not m:
        r = tree[t.root_idx]
        check(r is not None and r.key is None and r.left is None and r.right is None, "an emptied tree still has nodes")
        return [], -1
    out, depth = [], 0
    seen = set()
    stack = []
    cur, parent, d = t.root_idx, None, 0
    par = {t.root_idx: None}
    dep = {t.root_idx: 0}
    while stack or cur is not None:
        while cur is not None:
            check(cur not in seen, "the tree links make a cycle")
            seen.add(cur)
            n = tree[cur]
            check(n is not None, "a link leads to a deleted node")
            stack.append(cur)
            if n.left is not None:
                par.setdefault(n.left, cur)
                dep[n.left] = dep[cur] + 1
            if n.right is not None:
                par.setdefault(n.right, cur)
                dep[n.right] = dep[cur] + 1
            cur = n.left
        cur = stack.pop()
        out.append(cur)
        cur = tree[cur].right
    keys = [tree[i].key for i in out]
    eq(keys, sorted(m, key=order), "keys in tree order")
    eq([tree[i].data for i in out], [m[k] for k in keys], "data in tree order")
    for i in out:
        eq(tree[i].parent, par[i], "parent link of %r", tree[i].key)
        eq(tree[i].is_root, i == t.root_idx, "root mark of %r", tree[i].key)
    return out, max(dep.values())


def check_sizes(t, idx):
    cnt = {}

    def size(i):
        st = [(i, False)]
        while st:
            j, done = st.pop()
            if j is None:
                continue
            n = t.tree[j]
            if done:
                cnt[j] = 1 + cnt.get(n.left, 0) + cnt.get(n.right, 0)
            else:
                st += [(j, True), (n.left, False), (n.right, False)]
    size(t.root_idx)
    for i in idx:
        eq(t.tree[i].size, cnt[i], "subtree size at %r", t.tree[i].key)


def gen_tree(kinds, maxops=60, extra=(), oss=True):
    def gen(r):
        hi = r.choice([4, 9, 20, 50])
        ops = []
        phases = r.int(1, 3)
        for _ in range(phases):
            bias = r.choice([(8, 1), (2, 6), (4, 4), (1, 9)]) if ops else (8, r.int(0, 3))
            up = r.int(0, 5)
            for _ in range(r.size(0, maxops // phases)):
                op = r.weighted((bias[0] * 4, "ins"), (bias[1] * 4, "del"), (4 if bias[1] else 0, "delhit"), (4, "search"),
                                (4, "q"), (1, "bad"),
                                *[(4, e) for e in extra])
                k = r.int(0, hi)
                ops.append([op, k, r.int(0, 9)])
            if up == 0:
                ks = list(range(hi + 1))
                if r.bool():
                    ks.reverse()
                ops += [["ins", k, 0] for k in ks]
            elif up == 1:
                ops += [["del", k, 0] for k in r.shuffled(range(hi + 1))]
        return {"kind": r.int(0, len(kinds) - 1), "kt": r.weighted((5, 0), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5)), "comp": r.int(0, 3),
                "os": r.int(0, 1) if oss else 0, "root": r.int(0, 1), "seed": r.int(0, 1 << 20), "ops": ops}
    return gen


def ex_tree(kinds, n=5, os=1):
    """Every insertion order of up to n keys followed by every deletion order of some of them, then one more insertion."""
    def it():
        for k in range(len(kinds)):
            for m in range(1, n + 1):
                for p in itertools.permutations(range(m)):
                    if m <= 4:
                        dels = itertools.permutations(range(m), min(m, 3))
                    else:
                        dels = [(a, b) for a in range(m) for b in range(m) if a != b]
                    for d in dels:
                        yield {"kind": k, "kt": 0, "comp": 0, "os": os, "root": 0, "seed": 1,
                               "ops": [["ins", 2 * x, 0] for x in p] + [["del", 2 * x, 0] for x in d] + [["ins", 1, 0]]}
    return it


def bounds_model(keys, order, k):
    ok = order(k)
    lo = next((x for x in keys if not order(x) < ok), None)
    up = next((x for x in keys if ok < order(x)), None)
    return lo, up


def lca_model(t, a, b):
    """The deepest node having both below it, by the links from the root."""
    def path(k):
        i, p = t.search(k), []
        while i is not None:
            p.append(i)
            i = t.tree[i].parent
        return p[::-1]
    last = None
    for x, y in zip(path(a), path(b)):
        if x != y:
            break
        last = x
    return t.tree[last].key


def queries(t, m, order, a, b, ctx, os):
    """Order queries with two keys a and b (present or not)."""
    keys = sorted(m, key=order)
    if hasattr(t, "lower_bound"):
        for k in (a, b):
            lo, up = bounds_model(keys, order, k)
            eq(t.lower_bound(key=k), lo, "lower_bound(key=%r)", k)
            eq(t.upper_bound(key=k), up, "upper_bound(key=%r)", k)
            eq(t.lower_bound(k), lo, "lower_bound(%r)", k)
            eq(t.upper_bound(k), up, "upper_bound(%r)", k)
    if os:
        step = max(1, len(keys) // 40)
        for i in [*range(0, len(keys), step), len(keys) - 1] if keys else ():
            k = keys[i]
            eq(t.rank(k), i + 1, "rank(%r)", k)
            eq(t.select(i + 1).key, k, "select(%d)", i + 1)
        raises(lambda: t.select(len(keys) + 1), ValueError)
        raises(lambda: t.select(0), ValueError)
        for k in (a, b):
            if k not in m:
                check(t.rank(k) is None, "rank of an absent key")
        ctx.label("order statistics")
    for alg in (1, 2):
        for x in (a, b):
            y = b if x is a else a
            if x in m and y in m:
                eq(t.lowest_common_ancestor(x, y, alg), lca_model(t, x, y), "lowest_common_ancestor(%r, %r, %d)", x, y, alg)
            else:
                raises(lambda: t.lowest_common_ancestor(x, y, alg), ValueError)


def search_all(t, m, probe):
    for k in probe:
        i = t.search(k)
        if k in m:
            check(i is not None, "search does not find %r", k)
            eq((t.tree[i].key, t.tree[i].data), (k, m[k]), "what search(%r) finds", k)
        else:
            check(i is None, "search finds the absent %r", k)


def printed(t, m):
    text = str(t)
    for k in m:
        forms = [k] + [f(k) for f in (int, float, Fraction) if isinstance(k, (int, float, Fraction)) and f(k) == k]
        check(any(repr(f) in text for f in forms), "str of the tree lacks the key %r: %s", k, text)


class Alien:
    """A key that compares with nothing."""


def refuse(t, cls, x, os, ctx):
    """An operation with a key the comparator fails on raises the comparator's exception; the caller checks the tree."""
    k = Alien()
    calls = [lambda: t.insert(k, 1, 1) if cls is CartesianTree else t.insert(k, 1), lambda: t.search(k), lambda: t.delete(k),
             lambda: t.lower_bound(k), lambda: t.upper_bound(k)]
    if os:
        calls.append(lambda: t.rank(k))
    raises(calls[x % len(calls)], TypeError)
    ctx.label("incomparable key")


def refuse_far(t, cls, x, os, ctx, gate, m, k, order):
    """An operation with an absent key that doesn't compare with its neighbour in key order, which every way to it passes."""
    ks = sorted(m, key=order)
    at = sum(order(j) < order(k) for j in ks)
    near = [j for j in ks[max(0, at - 1):at + 1]]
    gate[:] = [k, near[x % len(near)]]
    calls = [lambda: t.insert(k, 1, 1) if cls is CartesianTree else t.insert(k, 1), lambda: t.search(k), lambda: t.delete(k),
             lambda: t.lower_bound(k), lambda: t.upper_bound(k)]
    if os:
        calls.append(lambda: t.rank(k))
    raises(calls[x // 2 % len(calls)], TypeError)
    gate[:] = []
    ctx.label("key incomparable with one key")


ANSWERS = [(True, False), (1, 0), (2, 0), (-1, 0), (10 ** 30, False)]   # the Python trees ask for a bool


def gated(comp, gate, form=0):
    """comp, which fails on the pair of keys in gate and has its own words for true and false."""
    yes, no = ANSWERS[form]

    def f(u, v):
        if gate and (u == gate[0] and v == gate[1] or u == gate[1] and v == gate[0]):
            raise TypeError("no order")
        return yes if comp(u, v) else no
    return f


ROOT = 77                   # the data of a root given to the constructor


def run_tree(kinds, shape=None, query=False, extra=None, cpp=False):
    def run(case, ctx):
        random.seed(case["seed"])
        cls = kinds[case["kind"] % len(kinds)]
        comp, order, mk = domain(case)
        os = bool(case["os"]) or query
        kw = {"is_order_statistic": os}
        if cpp:
            kw["backend"] = CPP
        gate = []
        if comp is not None:
            kw["comp"] = gated(comp, gate, case["seed"] % (5 if cpp else 2))
        m, prio = (KeyMap(), KeyMap()) if case["kt"] % 6 == 4 else ({}, {})
        ops = case["ops"]
        if case["root"] and ops:
            k = mk(ops[0][1])
            t = cls(k, ROOT, **kw)
            m[k] = ROOT
        else:
            t = cls(**kw)
        ctx.label(cls.__name__)
        if comp is not None:
            ctx.label("own comparator")
        if isinstance(m, KeyMap):
            ctx.label("list keys")
        dels, after = 0, 0
        for step, (op, i, x) in enumerate(ops):
            k = mk(i)
            if op == "ins":
                data = datum(step)
                if k in m:
                    ctx.label("inserted again")
                if cls is CartesianTree:
                    pr = (x * 7 + i * 3) % 11
                    t.insert(k, pr, data)
                    prio[k] = pr
                else:
                    r = t.insert(k, data=data) if cls is BinarySearchTree and x % 2 else t.insert(k, data)
                    check(r is None, "insert returned %r", r)
                m[k] = data
                after += dels > 0
            elif op in ("del", "delhit"):
                if op == "delhit" and m:
                    k = sorted(m, key=order)[i % len(m)]
                r = t.delete(k)
                if k in m:
                    eqt(r, True, "delete(%r)", k)
                    del m[k]
                    prio.pop(k, None)
                    dels += 1
                    if not m:
                        ctx.label("emptied")
                else:
                    check(r is None, "delete of an absent key returned %r", r)
            elif op == "search":
                search_all(t, m, [mk(j) for j in range(i + 3)])
            elif op == "bad":
                if m and comp is not None and k not in m and x % 4 != 1:
                    refuse_far(t, cls, x + i, os, ctx, gate, m, k, order)
                elif m and x % 4:
                    refuse(t, cls, x, os, ctx)
                else:
                    raises(lambda: t.insert(None, 1, 1) if cls is CartesianTree else t.insert(None, 1), ValueError, TypeError)
                    ctx.label("no key")
            elif op == "q" and query:
                a, b = mk(i), mk((i * 3 + x) % 23)
                if m and x % 3:
                    ks = sorted(m, key=order)
                    a, b = ks[i % len(ks)], ks[(i * 5 + x) % len(ks)]
                queries(t, m, order, a, b, ctx, os)
            elif extra and op not in ("q", "bad"):
                t = extra(t, m, order, mk, op, i, x, ctx, os, cls, kw) or t
            idx, height = walk_tree(t, m, order)
            if os and m:
                check_sizes(t, idx)
            if len(m) < 3:
                printed(t, m)
            if shape:
                shape(t, m, idx, height, prio, op, k)
        printed(t, m)
        search_all(t, m, [mk(j) for j in range(12)] + list(m))
        for other, others in ctx.others:
            walk_tree(other, others, order)
        ctx.nontrivial(dels > 1 and after > 0)
        if len(t.tree) > 30:
            ctx.label("array above 30")
    return run


def gen_deep(kinds):
    def gen(r):
        return {"kind": r.int(0, len(kinds) - 1), "n": r.int(1100, 1600), "pattern": r.int(0, 6), "os": r.int(0, 1),
                "seed": r.int(0, 1 << 20), "dels": r.size(1, 30), "comp": r.int(0, 1)}
    return gen


def deep_keys(n, pattern, rnd):
    if pattern > 3:
        return rnd.sample(range(2 * n), n)
    if pattern == 0:
        return list(range(n))
    if pattern == 1:
        return list(range(n, 0, -1))
    if pattern == 2:                                            # from both ends inwards: the path zigzags
        return [k for i in range(n // 2) for k in (i, n - i)]
    return list(range(n // 2, n)) + list(range(n // 2))         # two long arms


def run_deep(kinds, shape=None, query=False, trav=False, cpp=False):
    """Degenerate trees, deeper than the interpreter's recursion limit where nothing balances them."""
    def run(case, ctx):
        if case["n"] < 60:
            raise Invalid()
        random.seed(case["seed"])
        rnd = random.Random(case["seed"])
        cls = kinds[case["kind"] % len(kinds)]
        os = bool(case["os"])
        kw = {"is_order_statistic": os}
        order = lambda k: k
        if case["comp"]:
            kw["comp"] = lambda a, b: a > b
            order = lambda k: -k
        if cpp:
            kw["backend"] = CPP
        t = cls(**kw)
        m, prio = {}, {}
        keys = deep_keys(case["n"], case["pattern"], rnd)
        prios = list(range(len(keys)))
        if case["pattern"] > 4:
            rnd.shuffle(prios)
        for i, k in zip(prios, keys):
            if cls is CartesianTree:
                t.insert(k, i, str(k))
                prio[k] = i
            else:
                t.insert(k, str(k))
            m[k] = str(k)

        def look(probe):
            idx, height = walk_tree(t, m, order)
            if os:
                check_sizes(t, idx)
            if shape:
                shape(t, m, idx, height, prio, "", None)
            if trav:
                trav_extra(t, m, order, None, "trav", 7, 2, ctx, os, cls, kw)
            if query:
                queries(t, m, order, probe[0], probe[-1], ctx, os)
            search_all(t, m, probe)
            return height
        some = rnd.sample(sorted(m), 20)
        height = look(some + [-1, 2 * case["n"] + 5])
        gone = rnd.sample(sorted(m), min(30, case["dels"])) + keys[:1] + keys[-1:]
        if case["pattern"] > 3:                                 # half the keys, in key order at times
            gone = rnd.sample(keys, case["n"] // 2)
            gone = [gone, sorted(gone), sorted(gone)[::-1]][case["pattern"] - 4]
        for step, k in enumerate(gone, 1):
            if step % 200 == 0:
                look(some)
            if k in m:
                eqt(t.delete(k), True, "delete(%r)", k)
                del m[k]
            else:
                check(t.delete(k) is None, "delete of an absent key")
        k = 2 * case["n"] + 9
        t.insert(k, -1, "new") if cls is CartesianTree else t.insert(k, "new")
        m[k] = "new"
        if cls is CartesianTree:
            prio[k] = -1
        look(some + [k, -1])
        ctx.label("%s %s" % (cls.__name__, "deeper than 1000" if height > 1000 else "shallow"))
        ctx.nontrivial(len(m) > 500)
    return run


def deep(kinds, n=28, **kw):
    return Sub("deep", gen_deep(kinds), run_deep(kinds, **kw), quick=n, shards=4, hyp=0, cpu=60)


RULE = ("histories of insertions (keys again too), deletions and queries with int, float, string, tuple, list and mixed number keys and own "
        "comparators, and with keys the comparator fails on, against a dict; after every operation the whole tree is walked from its root: key order, data, "
        "parent links, subtree sizes; plus every insertion order of up to 5 keys followed by deletions; non-trivial = "
        "an insertion after two successful deletions.")

# ------------------------------------------------------------------ T01 plain BST

prop("T01", Sub("bst", gen_tree([BinarySearchTree]), run_tree([BinarySearchTree]), quick=9000, shards=5, hyp=200),
     deep([BinarySearchTree]),
     Sub("bst_big", gen_tree([BinarySearchTree], 200), run_tree([BinarySearchTree]), quick=1500, shards=2, hyp=0),
     Sub("bst_small", gen_tree([BinarySearchTree]), run_tree([BinarySearchTree]), quick=0, hyp=0,
         exhaust=ex_tree([BinarySearchTree])), rule=RULE)


# ------------------------------------------------------------------ T02 order queries

ALL = [BinarySearchTree, AVLTree, RedBlackTree, SplayTree, Treap]
prop("T02", Sub("queries", gen_tree(ALL, 40, extra=("q", "q", "q", "q")), run_tree(ALL, query=True), quick=9000, shards=6, hyp=200),
     deep(ALL, query=True),
     Sub("queries_big", gen_tree(ALL, 120, extra=("q", "q")), run_tree(ALL, query=True), quick=1200, shards=2, hyp=0),
     rule=RULE + " Queries: lower_bound, upper_bound, both lowest_common_ancestor algorithms, select and rank of every "
                 "key, on binary search, AVL, red-black, splay trees and treaps.")


# ------------------------------------------------------------------ T03 AVL

def shape_avl(t, m, idx, height, prio, op, k):
    h = {None: -1}
    for i in post(t):
        n = t.tree[i]
        a, b = h[n.left], h[n.right]
        check(abs(a - b) <= 1, "the subtrees below %r have heights %d and %d", n.key, a, b)
        h[i] = 1 + max(a, b)
        eq(n.height, h[i], "height at %r", n.key)
        eq(t.balance_factor(n), b - a, "balance factor at %r", n.key)


def post(t):
    if t.tree[t.root_idx].key is None:
        return
    st = [(t.root_idx, False)]
    while st:
        i, done = st.pop()
        if i is None:
            continue
        if done:
            yield i
        else:
            st += [(i, True), (t.tree[i].left, False), (t.tree[i].right, False)]


prop("T03", Sub("avl", gen_tree([AVLTree]), run_tree([AVLTree], shape_avl), quick=9000, shards=5, hyp=200),
     deep([AVLTree], 100, shape=shape_avl),
     Sub("avl_big", gen_tree([AVLTree], 200), run_tree([AVLTree], shape_avl), quick=1500, shards=2, hyp=0),
     Sub("avl_small", gen_tree([AVLTree]), run_tree([AVLTree], shape_avl), quick=0, hyp=0, exhaust=ex_tree([AVLTree])),
     rule=RULE + " At every node the heights of the two subtrees, recomputed from the links, differ by at most one.")


# ------------------------------------------------------------------ T04 red-black

def shape_rb(t, m, idx, height, prio, op, k):
    if not m:
        return
    eq(t.tree[t.root_idx].color, 0, "colour of the root")
    bh = {None: 1}
    for i in post(t):
        n = t.tree[i]
        check(n.color in (0, 1), "colour %r", n.color)
        if n.color == 1:
            for c in (n.left, n.right):
                check(c is None or t.tree[c].color == 0, "the red node %r has a red child", n.key)
        eq(bh[n.left], bh[n.right], "black heights below %r", n.key)
        bh[i] = bh[n.left] + (n.color == 0)


prop("T04", Sub("rb", gen_tree([RedBlackTree]), run_tree([RedBlackTree], shape_rb), quick=9000, shards=5, hyp=200),
     deep([RedBlackTree], 100, shape=shape_rb),
     Sub("rb_big", gen_tree([RedBlackTree], 200), run_tree([RedBlackTree], shape_rb), quick=1500, shards=2, hyp=0),
     Sub("rb_small", gen_tree([RedBlackTree]), run_tree([RedBlackTree], shape_rb), quick=0, hyp=0, exhaust=ex_tree([RedBlackTree])),
     rule=RULE + " After every operation: the root is black, no red node has a red child, all paths down have as many black nodes.")


# ------------------------------------------------------------------ T05 Cartesian tree, treap

def shape_heap(t, m, idx, height, prio, op, k):
    if not m:
        return
    for i in idx:
        n = t.tree[i]
        if n.key in prio:
            eq(n.priority, prio[n.key], "priority of %r", n.key)
        for c in (n.left, n.right):
            if c is not None:
                check(n.priority <= t.tree[c].priority, "%r with priority %r is above %r with priority %r",
                      n.key, n.priority, t.tree[c].key, t.tree[c].priority)


CT = [CartesianTree, Treap]
prop("T05", Sub("heap_ordered", gen_tree(CT), run_tree(CT, shape_heap), quick=9000, shards=5, hyp=200),
     deep(CT, shape=shape_heap),
     Sub("heap_ordered_big", gen_tree(CT, 200), run_tree(CT, shape_heap), quick=1500, shards=2, hyp=0),
     Sub("heap_ordered_small", gen_tree(CT), run_tree(CT, shape_heap), quick=0, hyp=0, exhaust=ex_tree(CT)),
     rule=RULE + " At every node the priority is at most those of its children; a Cartesian tree's priorities are the ones given.")


# ------------------------------------------------------------------ T06 splay

def shape_splay(t, m, idx, height, prio, op, k):
    if op == "ins":
        eq(t.tree[t.root_idx].key, k, "root after inserting %r", k)


def part(t, m, order, other, others, x, ctx):
    """The other tree of a split or a join goes on on its own: what becomes of either is not seen in the other."""
    walk_tree(other, others, order)
    if others and x % 2:
        q = list(others)[x % len(others)]
        eqt(other.delete(q), True, "delete in the other tree")
        del others[q]
        walk_tree(t, m, order)
        other.insert(q, "again")
        others[q] = "again"
        walk_tree(other, others, order)
    ctx.others.append((other, others))


def splay_extra(t, m, order, mk, op, i, x, ctx, os, cls, kw):
    if op == "split":
        keys = sorted(m, key=order)
        if not keys or x == 0:
            k = mk(i)
        else:
            k = keys[i % len(keys)]
        other = t.split(k)
        if k not in m:
            check(other is None, "split at an absent key returned %r", other)
            return
        high = type(m)()
        high.update((q, m.pop(q)) for q in keys if order(q) > order(k))
        check(type(other) is type(t), "split returned %r", other)
        ids, _ = walk_tree(other, high, order)
        if os and high:
            check_sizes(other, ids)
        search_all(other, high, keys)
        ctx.label("split")
        # the two halves live on independently; sometimes the upper one is used on, sometimes they are joined again
        if x % 3 == 0:
            for q in list(high)[::2]:
                eqt(other.delete(q), True, "delete in the split-off tree")
                del high[q]
            n = mk(60)
            if not keys or order(n) > order(keys[-1]):
                other.insert(n, "n")
                high[n] = "n"
            walk_tree(other, high, order)
        if x % 3 != 2:
            walk_tree(t, m, order)
            t.join(other)
            m.update(high)
            ctx.label("rejoined")
        part(t, m, order, other, high, x, ctx)
    elif op == "join":
        keys = sorted(m, key=order)
        other = SplayTree(**kw)
        fresh = type(m)()
        for j in range(x):
            q = mk(30 + (j * 7 + i) % 31)
            fresh[q] = j
            other.insert(q, j)
        for q in sorted(fresh, key=order)[::3]:
            if x % 2:
                other.delete(q)
                del fresh[q]
        if not fresh or not keys or order(keys[-1]) < min(map(order, fresh)):
            t.join(other)
            m.update(fresh)
            ctx.label("joined")
            part(t, m, order, other, fresh, x, ctx)
        else:
            raises(lambda: t.join(other), ValueError)
            ctx.label("join refused")


prop("T06", Sub("splay", gen_tree([SplayTree], extra=("split", "join")), run_tree([SplayTree], shape_splay, extra=splay_extra),
                quick=9000, shards=5, hyp=200),
     deep([SplayTree], 60),
     Sub("splay_big", gen_tree([SplayTree], 200, extra=("split",)), run_tree([SplayTree], shape_splay, extra=splay_extra),
         quick=1500, shards=2, hyp=0),
     Sub("splay_small", gen_tree([SplayTree]), run_tree([SplayTree], shape_splay), quick=0, hyp=0, exhaust=ex_tree([SplayTree])),
     rule=RULE + " Splits and joins interleave with the rest; an inserted key is at the root; a split leaves the keys up to the "
                 "split key and returns the others, a join refuses overlapping trees.")


# ------------------------------------------------------------------ T07 traversals

def trav_model(t, order, i):
    tree = t.tree
    out = []
    if order == "bfs":
        level = [i]
        while level:
            out += level
            level = [c for j in level for c in (tree[j].left, tree[j].right) if c is not None]
        return out

    stack = [(i, False)]
    while stack:
        j, expanded = stack.pop()
        if j is None:
            continue
        if expanded:
            out.append(j)
            continue
        n = tree[j]
        left, here, right = (n.left, False), (j, True), (n.right, False)
        stack += reversed({"pre_order": (here, left, right), "post_order": (left, right, here)}.get(order, (left, here, right)))
    return out[::-1] if order == "out_order" else out


def same_nodes(answer, want, msg, *args):
    got = list(answer)
    spoil(answer)                               # it is the caller's
    if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
        raise Violation("%s: got %r, expected %r" % (msg % args, [str(n) for n in got], [str(n) for n in want]))


def trav_extra(t, m, order, mk, op, i, x, ctx, os, cls, kw):
    if op != "trav" or not m:
        return
    held = getattr(ctx, "kept", None)           # one made while the tree was another
    if held is None or held[0] is not t:
        held = ctx.kept = t, BinaryTreeTraversal(t, **({"backend": CPP} if "backend" in kw else {}))
    elif x % 4:
        ctx.label("traversal made earlier")
    b = held[1] if x % 4 else BinaryTreeTraversal(t, **({"backend": CPP} if "backend" in kw else {}))
    nodes = trav_model(t, "pre_order", t.root_idx)
    eq(len(nodes), len(m), "nodes reached")
    start = nodes[i % len(nodes)] if x % 2 else None
    top = t.root_idx if start is None else start
    for o in ("pre_order", "in_order", "post_order", "out_order"):
        same_nodes(b.depth_first_search(o, start) if x % 3 else b.depth_first_search(order=o, node=start),
                   [t.tree[j] for j in trav_model(t, o, top)], "%s from %r", o, t.tree[top].key)
    same_nodes(b.depth_first_search(), [t.tree[j] for j in trav_model(t, "in_order", t.root_idx)], "default order")
    eq([n.key for n in b.depth_first_search()], sorted(m, key=order), "keys in order")
    same_nodes(b.breadth_first_search(start), [t.tree[j] for j in trav_model(t, "bfs", top)], "breadth first from %r", t.tree[top].key)
    raises(lambda: b.depth_first_search("level_order"), NotImplementedError)
    raises(lambda: b.breadth_first_search(strategy="iddfs"), NotImplementedError)
    ctx.label("traversed" if start is None else "traversed a subtree")


TRAV = [BinarySearchTree, AVLTree, RedBlackTree, SplayTree, Treap, CartesianTree]
prop("T07", Sub("traversals", gen_tree(TRAV, 40, extra=("trav", "trav")), run_tree(TRAV, extra=trav_extra), quick=9000, shards=6, hyp=200),
     deep(TRAV, trav=True),
     Sub("traversals_big", gen_tree(TRAV, 150, extra=("trav",)), run_tree(TRAV, extra=trav_extra), quick=800, shards=2, hyp=0),
     rule=RULE + " Traversals, of whole trees and from a node in them, against recursion over the links.")


# ------------------------------------------------------------------ T08 Fenwick tree

def gen_bit(r):
    n = r.size(1, 40)
    big = r.choice([5, 100, 10 ** 6, 10 ** 12])
    xs = [r.int(-big, big) for _ in range(n)]
    ops = []
    for _ in range(r.size(1, 25)):
        i, j = r.int(0, n - 1), r.int(0, n - 1)
        ops.append(r.weighted((5, ["up", i, r.choice([0, r.int(-big, big)])]), (3, ["sum", min(i, j), max(i, j)]), (2, ["pre", i, 0]),
                              (1, ["bad", r.choice([-1, -n, n, n + 1, n + 70]), 0]), (1, ["all", 0, 0])))
    return {"be": r.int(0, 1), "frac": r.int(0, 6), "tup": r.int(0, 1), "xs": xs, "ops": ops}


def run_bit(case, ctx):
    xs = list(case["xs"])
    cpp = case["be"] == 1
    if not xs:
        raise Invalid()
    # values whose sums are exact: integers, floats, integers beyond 64 bits, a mixture, fractions
    kind = {0: "floats", 4: "beyond 64 bits", 5: "mixed", 6: "fractions"}.get(case["frac"], "integers")
    if kind == "fractions" and len(xs) > 60:
        kind = "integers"               # sums of many fractions take long
    conv = {"floats": lambda x: x / 4, "beyond 64 bits": lambda x: x << 61, "fractions": lambda x: Fraction(x, 3),
            "mixed": lambda x: x // 4 if x % 3 else x / 4}.get(kind, lambda x: x)
    ctx.label(kind)
    xs = [conv(x) for x in xs]
    m = list(xs)
    n = len(m)
    given = list(xs)
    t = BinaryIndexedTree(tuple(given) if case["tup"] else given, backend=be(cpp))
    ctx.label("cpp" if cpp else "python")
    ups = 0
    for op, a, b in case["ops"]:
        if op == "up":
            v = conv(b)
            if not 0 <= a < n:
                raise Invalid()
            t.update(a, v)
            m[a] = v
            ups += 1
        elif op == "sum":
            if not 0 <= a <= b < n:
                raise Invalid()
            eq(t.get_sum(a, b), sum(m[a:b + 1]), "get_sum(%d, %d)", a, b)
            if a and ups:
                ctx.nontrivial()
        elif op == "pre":
            if not 0 <= a < n:
                raise Invalid()
            eq(t.get_prefix_sum(a), sum(m[:a + 1]), "get_prefix_sum(%d)", a)
        elif op == "bad":
            if 0 <= a < n:
                raise Invalid()
            raises(lambda: t.update(a, 1), IndexError)
            ctx.label("bad index")
        elif op == "all":
            upto = [0] + list(itertools.accumulate(m))      # exact, for floats too
            for i in range(0, n, 1 + n // 400 * 97):
                eq(t.get_prefix_sum(i), upto[i + 1], "get_prefix_sum(%d)", i)
                eq(t.get_sum(i, n - 1), upto[n] - upto[i], "get_sum(%d, last)", i)
    upto = list(itertools.accumulate(m))
    for i in range(n):
        eq(t.get_sum(i, i), m[i], "get_sum(%d, %d)", i, i)
        eq(t.get_prefix_sum(i), upto[i], "get_prefix_sum(%d)", i)
    eq(given, xs, "the caller's list")


def ex_bit():
    for n in range(1, 20):
        for c in (0, 1):
            for i in range(n):
                yield {"be": c, "frac": 1, "tup": 0, "xs": [3 ** (k % 30) for k in range(n)],
                       "ops": [["up", i, -7], ["all", 0, 0]] + [["sum", a, b] for a in range(n) for b in range(a, n)]}


prop("T08", Sub("bit", gen_bit, run_bit, quick=60000, shards=6, hyp=200),
     Sub("bit_big", big(gen_bit, 10), run_bit, quick=2500, shards=2, hyp=0),
     Sub("bit_huge", huge(gen_bit, 60), run_bit, quick=60, shards=4, hyp=0, cpu=60),
     Sub("bit_small", gen_bit, run_bit, quick=0, hyp=0, exhaust=ex_bit),
     rule="lists and tuples of up to 40 integers (up to 10^12 in size), integers beyond 64 bits, exact floats, both mixed, or fractions, updates, prefix and range sums, both backends, "
          "against sums over a plain list; every range for every length below 20; non-trivial = a range not starting at 0 after an update.",
     assumptions=["the C++ backend is given integers that fit 64 bits, sums included"])


# ------------------------------------------------------------------ T09 interval segment tree

def gen_seg(r):
    hi = r.choice([3, 8, 30, 200])
    n = r.size(0, 14)
    segs = [[r.int(-hi, hi), r.int(-hi, hi)] for _ in range(n)]
    if n and r.int(0, 4) == 0:
        segs += [list(r.choice(segs)) for _ in range(2)]
    qs = [r.int(-2 * hi - 4, 2 * hi + 4) for _ in range(r.size(1, 12))]
    return {"kind": r.int(0, 3), "outer": r.int(0, 2), "built": r.int(0, 1), "frac": r.weighted((3, 0), (3, 1), (1, 2), (1, 3), (1, 4), (1, 5)), "segs": segs, "qs": qs}


def run_seg(case, ctx):
    segs = [[a, b] for a, b in case["segs"]]
    inf = float("inf")
    top = max((abs(x) for s in segs for x in s), default=0)
    conv = [int, lambda x: x / 2, lambda x: x * 1e16, lambda x: x * 10 ** 19 + x, lambda x: inf if x >= top else -inf if -x >= top else x / 2,
            lambda x: Fraction(x, 3)][case["frac"]]
    segs = [[conv(a), conv(b)] for a, b in segs]
    ctx.label(["int", "float", "large float", "large int", "infinite", "Fraction"][case["frac"]] + " ends")
    kind = case["kind"]
    given = [tuple(s) if kind == 1 else set(s) if kind == 2 and s[0] != s[1] else list(s) for s in segs]
    if case["outer"] == 1:
        given = tuple(given)
    elif case["outer"] == 2 and all(isinstance(s, tuple) for s in given):
        given = set(given)
        segs = [list(s) for s in given]
        ctx.label("set of segments")
    copy = given.copy() if not isinstance(given, tuple) else given
    inner = [list(s) for s in given]
    t = OneDimensionalSegmentTree(given)
    if case["built"]:
        t.build()
        t.build()
    eq([list(s) for s in given], inner, "the caller's segments")
    pts = sorted({x for s in segs for x in s})
    qs = [q / 2 for q in case["qs"]] + [conv(q) for q in case["qs"]] + pts + [(a + b) / 2 for a, b in zip(pts, pts[1:]) if (a, b) != (-inf, inf)]
    qs += [pts[0] - 1, pts[0] - 2, pts[-1] + 1, pts[-1] + 2] if pts else []
    qs += [inf, -inf]
    if case["kind"] % 2 and len(segs) < 9:
        text = str(t)                           # builds it
        eq(text, str([(n.left, n.key, None if n.data is None else [str(x) for x in n.data], n.right) for n in t.tree]), "string form")
    hits = set()
    for q in qs:
        want = sorted(sorted(s) for s in segs if min(s) <= q <= max(s))
        found = t.query(q)
        got = sorted([n.key[1], n.key[2]] for n in found)
        eq(got, want, "segments containing %r", q)
        spoil(found)                            # it is the caller's
        hits.add(len(want))
    for i, q in enumerate(qs[:6] if len(segs) < 40 else []):
        # from a node: what is stored at it and at those below it that hold the point
        j = case["qs"][i % len(case["qs"])] % len(t.tree) if case["qs"] and i % 3 else -(i % 2)
        want, stack, below = [], [(j, True)], set()
        while stack:
            k, first = stack.pop()
            below |= {id(x) for x in t.tree[k].data or ()}
            lc, lo, hi, rc = t.tree[k].key
            if first or lo < q < hi or (q == lo and lc and lo <= hi) or (q == hi and rc):
                want += [id(x) for x in t.tree[k].data or ()]
            stack += [(c, False) for c in (t.tree[k].left, t.tree[k].right) if c is not None]
        found = t.query(q, init_node=j) if i % 2 else t.query(q, j)
        check(set(want) <= set(map(id, found)), "query(%r) from node %d misses a segment stored below it", q, j)
        top_data = [id(x) for x in t.tree[j].data or ()]
        for x in found:
            check(id(x) in top_data or id(x) in below and x.key[1] <= q <= x.key[2], "query(%r) from node %d found the segment %r", q, j, x.key)
        spoil(found)
    ctx.label("up to %d segments at a point" % min(3, max(hits)))
    ctx.nontrivial(len(segs) > 2 and max(hits) > 1 and len(hits) > 2)
    if any(s[0] == s[1] for s in segs):
        ctx.label("point segment")


def ex_seg():
    pts = [[a, b] for a in range(3) for b in range(a, 3)]
    for n in range(4):
        for s in itertools.product(pts, repeat=n):
            yield {"kind": 0, "outer": 0, "built": 0, "frac": 0, "segs": [list(x) for x in s], "qs": []}


prop("T09", Sub("intervals", gen_seg, run_seg, quick=30000, shards=7, hyp=200),
     Sub("intervals_big", big(gen_seg, 8), run_seg, quick=1200, shards=2, hyp=0),
     Sub("intervals_huge", huge(gen_seg, 60), run_seg, quick=40, shards=4, hyp=0, cpu=60),
     Sub("intervals_small", gen_seg, run_seg, quick=0, hyp=0, exhaust=ex_seg),
     rule="1 to 16 closed segments, as lists, tuples or sets, with ends of six kinds (also large and infinite floats), with duplicates, shared ends and single points, queried at all "
          "their ends, between them and outside, against a scan; all sets of up to three segments over three points; non-trivial = "
          "at least three segments and query points with none, one and several of them.")
