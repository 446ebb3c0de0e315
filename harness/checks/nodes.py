"""U01, U02: node objects, and the refusal of what is not supported."""
import random
import re
from ..core import prop, Sub, check, eq, raises, Invalid
from ..util import PY, CPP, LLVM, eqt
from . import graphs as G
import pydatastructs as P
from pydatastructs.utils.misc_util import (
    TreeNode, MAryTreeNode, LinkedListNode, BinomialTreeNode, Set, CartesianTreeNode, RedBlackTreeNode, TrieNode,
    SkipNode, AdjacencyListGraphNode, minimum, summation)
from pydatastructs.trees.m_ary_trees import MAryTree
from pydatastructs.trees.binary_trees import BinaryTree
from pydatastructs.linear_data_structures.linked_lists import LinkedList
from pydatastructs.trees.heaps import DHeap, BinaryHeap, TernaryHeap, BinomialHeap
from pydatastructs.trees.space_partitioning_trees import OneDimensionalSegmentTree
from pydatastructs.miscellaneous_data_structures import Stack, Queue, ArraySegmentTree, BinomialTree
from pydatastructs.trees import BinarySearchTree, AVLTree, RedBlackTree, SplayTree, Treap, BinaryTreeTraversal
from pydatastructs import OneDimensionalArray

VALUES = [None, 0, 1, -3, 10 ** 30, 2.5, "", "a", "key", (), (1, "b"), ("x", None), True, False, float("inf")]


def value(i):
    return VALUES[i] if i < len(VALUES) else [i]        # a fresh mutable object


# ------------------------------------------------------------------ U01 nodes

def kinds():
    """name -> (make(key, data, extra), fields besides key and data, expected str)"""
    return {
        "TreeNode": (lambda k, d, x: TreeNode(k, d),
                     lambda x: {"left": None, "right": None, "parent": None, "height": 0, "size": 1, "is_root": False},
                     lambda k, d, x: (None, k, d, None)),
        "TreeNode C++": (lambda k, d, x: TreeNode(k, d, backend=CPP),
                         lambda x: {"left": None, "right": None, "parent": None, "height": 0, "size": 1, "is_root": False},
                         lambda k, d, x: (None, k, d, None)),
        "CartesianTreeNode": (lambda k, d, x: CartesianTreeNode(k, x, d),
                              lambda x: {"left": None, "right": None, "parent": None, "is_root": False, "priority": x},
                              lambda k, d, x: (None, k, x, d, None)),
        "RedBlackTreeNode": (lambda k, d, x: RedBlackTreeNode(k, d),
                             lambda x: {"left": None, "right": None, "parent": None, "is_root": False, "color": 1},
                             lambda k, d, x: (None, k, d, None)),
        "BinomialTreeNode": (lambda k, d, x: BinomialTreeNode(k, d), lambda x: {"parent": None, "is_root": False},
                             lambda k, d, x: (k, d)),
        "MAryTreeNode": (lambda k, d, x: MAryTreeNode(k, d), lambda x: {"is_root": False}, lambda k, d, x: (k, d)),
        "SkipNode": (lambda k, d, x: SkipNode(k, d), lambda x: {"next": None, "down": None}, lambda k, d, x: (k, d)),
        "SkipNode linked": (lambda k, d, x: SkipNode(k, d, x, [x]), lambda x: {"next": x, "down": [x]}, lambda k, d, x: (k, d)),
        "LinkedListNode": (lambda k, d, x: LinkedListNode(k, d), lambda x: {"next": None}, lambda k, d, x: (k, d)),
        "LinkedListNode links": (lambda k, d, x: LinkedListNode(k, d, links=["next", "prev"], addrs=[x, None]),
                                 lambda x: {"next": x, "prev": None}, lambda k, d, x: (k, d)),
        "Set": (lambda k, d, x: Set(k, d), lambda x: {"parent": None, "size": None}, None),
    }


NAMES = list(kinds())
LEFT = {"TreeNode", "TreeNode C++", "CartesianTreeNode", "RedBlackTreeNode"}


def gen_nodes(r):
    return {"items": [[r.int(0, len(NAMES) - 1), r.int(0, 17), r.int(0, 17), r.int(0, 17)] for _ in range(r.size(1, 12))],
            "ops": [[r.int(0, 11), r.choice(["data", "data", "key", "left", "right", "parent"]), r.int(0, 17)] for _ in range(r.size(0, 20))]}


def run_nodes(case, ctx):
    K = kinds()
    if not case["items"]:
        raise Invalid()
    live = []                   # [node, name, {field: value}]
    for t, k, d, x in case["items"]:
        name = NAMES[t % len(NAMES)]
        make, extra, _ = K[name]
        k, d, x = value(k), value(d), value(x)
        f = {"key": k, "data": d}
        f.update(extra(x))
        live.append((make(k, d, x), name, f, x))
        ctx.label(name)

    def agree():
        for node, name, f, x in live:
            for a, v in f.items():
                eqt(getattr(node, a), v, "%s.%s", name, a)
            check(f["data"] is node.data, "%s.data is another object", name)
            st = K[name][2]
            if st is not None:
                want = st(f["key"], f["data"], x)
                if name in LEFT:
                    want = (f["left"],) + want[1:-1] + (f["right"],)
                eq(str(node), str(want), "str of %s", name)
    agree()
    for i, a, v in case["ops"]:
        node, name, f, x = live[i % len(live)]
        if a not in f:
            continue
        setattr(node, a, value(v))
        f[a] = getattr(node, a)
        eqt(f[a], value(v), "%s.%s after setting it", name, a)
        agree()
    ctx.nontrivial(len(live) > 2 and len(case["ops"]) > 2)


def gen_children(r):
    return {"t": r.int(0, 1), "n": r.int(1, 8),
            "ops": [[r.int(0, 7), r.ints(0, 7, 0, 5), r.weighted((6, 0), (1, 1), (1, 2), (1, 3))] for _ in range(r.size(0, 10))]}


def run_children(case, ctx):
    binom = case["t"] % 2 == 0
    if case["n"] < 1:
        raise Invalid()
    nodes = [(BinomialTreeNode if binom else MAryTreeNode)(i, ("d", i)) for i in range(case["n"])]
    kids = [[] for _ in nodes]
    parent = [None] * len(nodes)
    for p, cs, how in case["ops"]:
        p %= len(nodes)
        if how:                     # a node's own fields have nothing to do with its children
            for c in cs:
                node = nodes[c % len(nodes)]
                if how == 1:
                    node.is_root = not node.is_root
                elif how == 2 and binom:
                    node.parent = parent[c % len(nodes)] = None if c % 2 else nodes[p]
                else:
                    node.data = ("d", c % len(nodes))
            cs = cs[:1]
        cs = [c % len(nodes) for c in cs]
        if binom:
            nodes[p].add_children(*[nodes[c] for c in cs])
            for c in cs:
                parent[c] = nodes[p]
        else:
            nodes[p].add_children(*cs)
        kids[p] += cs
        for i, node in enumerate(nodes):
            have = [node.children[j] for j in range(node.children._last_pos_filled + 1)]
            if binom:
                check(len(have) == len(kids[i]) and all(h is nodes[c] for h, c in zip(have, kids[i])), "children of node %d: %r", i,
                      [str(h) for h in have])
                check(node.parent is parent[i], "the parent of node %d is %s", i, node.parent)
            else:
                eq(have, kids[i], "children of node %d", i)
            eq(str(node), str((i, ("d", i))), "str")
    ctx.nontrivial(sum(map(len, kids)) > 3)
    ctx.label("binomial" if binom else "m-ary")


LINKS = ["next", "prev", "down", "up", "head", "other", "x1", "_link"]


def gen_links(r):
    return {"nodes": [[r.int(0, 1), r.int(0, 17), r.int(0, 17), [[r.int(0, 7), r.int(0, 9)] for _ in range(r.size(0, 5))]] for _ in range(r.size(1, 10))],
            "ops": [[r.int(0, 9), r.int(0, 7), r.int(0, 9)] for _ in range(r.size(0, 10))]}


def run_links(case, ctx):
    """Nodes linked to any of the earlier ones, by any names."""
    live = []
    for t, k, d, links in case["nodes"]:
        k, d = value(k), value(d)
        m = {}
        for l, a in links:
            m[LINKS[l % (4 if t % 2 else 8)]] = live[a % len(live)][0] if live and a else None
        if t % 2:
            m = {"next": m.get("next"), "down": m.get("down")}
            node = SkipNode(k, d, m["next"], m["down"])
        else:
            names, addrs = list(m), list(m.values())
            node = LinkedListNode(k, d, links=names, addrs=addrs)
            eq((names, len(addrs)), (list(m), len(m)), "the lists given")
        live.append((node, k, d, m))
        ctx.label("skip" if t % 2 else "%d links" % len(m))

    def agree():
        for n, k, d, m in live:
            eqt((n.key, n.data), (k, d), "key and data")
            eq(str(n), str((k, d)), "str")
            for l, a in m.items():
                check(getattr(n, l) is a, "link %s of %s", l, n)
    agree()
    for i, l, a in case["ops"]:
        n, k, d, m = live[i % len(live)] if live else (None, None, None, {})
        if m:
            l = list(m)[l % len(m)]
            m[l] = live[a % len(live)][0] if a else None
            setattr(n, l, m[l])
            agree()
    ctx.nontrivial(sum(a is not None for _, _, _, m in live for a in m.values()) > 2)


def gen_trie_node(r):
    return {"ops": [[r.weighted((4, "add"), (2, "rem"), (2, "get")), r.int(0, 2), r.int(0, 5)] for _ in range(r.size(0, 24))]}


def run_trie_node(case, ctx):
    chars = ["a", "b", "", "é", "ab", "\0"]
    nodes = [TrieNode(), TrieNode("r"), TrieNode(char="q")]
    model = [{}, {}, {}]
    eq([n.char for n in nodes], [None, "r", "q"], "char")
    for op, i, c in case["ops"]:
        node, m, ch = nodes[i % 3], model[i % 3], chars[c % 6]
        if op == "add":
            x = TrieNode(ch)
            eq((x.char, x.is_terminal), (ch, False), "a new node")
            node.add_child(x)
            m[ch] = x
        elif op == "rem":
            if ch in m:
                node.remove_child(ch)
                del m[ch]
            else:
                raises(lambda: node.remove_child(ch))
        for n, m in zip(nodes, model):
            for ch in chars:
                check(n.get_child(ch) is m.get(ch), "child %r", ch)
    ctx.nontrivial(len(case["ops"]) > 5)


def gen_mary(r):
    return {"key": r.int(0, 17), "data": r.int(0, 17), "comp": r.int(0, 3), "max": r.int(1, 9), "stat": r.int(0, 1), "kids": r.ints(0, 40, 0, 6),
            "pairs": [[r.int(-3, 3), r.int(-3, 3)] for _ in range(r.int(0, 8))]}


def run_mary(case, ctx):
    k, d = value(case["key"]), value(case["data"])
    comp = [None, lambda a, b: a > b, lambda a, b: ("c", a, b), lambda a, b: abs(a) < abs(b)][case["comp"] % 4]
    kw = {"is_order_statistic": bool(case["stat"]), "max_children": case["max"]}
    if comp is not None or case["stat"]:
        kw["comp"] = comp
    if k is None and d is not None:
        raises(lambda: MAryTree(k, d, **kw), ValueError)
        ctx.label("key required")
        return
    t = MAryTree(k, d, **kw)
    root = t.tree[t.root_idx]
    k = None if d is None else k
    eqt((root.key, root.data), (k, d), "root")
    eqt((root.is_root, t.size, t.max_children, t.is_order_statistic), (True, 1, case["max"], bool(case["stat"])), "the tree")
    eq(str(t), str([(k, d)]), "str")
    for a, b in case["pairs"]:
        eq(t.comparator(a, b), a < b if comp is None else comp(a, b), "comparator of %r and %r", a, b)
    root.add_children(*case["kids"])
    eq(str(t), str([(k, d) + tuple(case["kids"])]), "str with children")
    for f in (lambda: t.insert(1, 2), lambda: t.delete(k), lambda: t.search(k), lambda: t.to_binary_tree()):
        raises(f, NotImplementedError)
    eq(str(t), str([(k, d) + tuple(case["kids"])]), "str after the abstract methods")
    ctx.nontrivial(len(case["kids"]) > 0 and len(case["pairs"]) > 0)


prop("U01", Sub("fields", gen_nodes, run_nodes, quick=16000, shards=3, hyp=100), Sub("children", gen_children, run_children, quick=12000, shards=2, hyp=100),
     Sub("links", gen_links, run_links, quick=12000, shards=2, hyp=100), Sub("trie_node", gen_trie_node, run_trie_node, quick=12000, shards=2, hyp=100), Sub("mary_tree", gen_mary, run_mary, quick=12000, hyp=100),
     rule="sets of nodes of the eleven forms with keys, data and links of many types, written to in any order and all compared after each write; linked-list and skip nodes linked to one another by "
          "one to eight names; children added to binomial and m-ary nodes whose other fields change as well; children of trie nodes added, replaced and removed against a dict; m-ary trees with comparators and children; non-trivial = several nodes and writes.")


# ------------------------------------------------------------------ U02 refusals

ALGS = ["kruskal", "prim", "kosaraju", "tarjan", "bellman_ford", "dijkstra", "floyd_warshall", "johnson", "kahn", "edmonds_karp", "dinic",
        "kmp", "rabin_karp", "boyer_moore", "z_function", "array", "linked_list", "binary_heap", "binomial_heap", "sparse_table", "segment_tree",
        "queue", "in_order", "post_order", "pre_order", "out_order", "adjacency_list", "adjacency_matrix"]
OTHER = ["", "none", "Prim", "KMP", "boruvka", "a_star", "dial", "push_relabel", "fibonacci_heap", "stack", "iterative_deepening", "level_order",
         "order", "edge_list", "hash", "tree", "kmp ", " dijkstra", "dijkstra_", "__", "__class__", "doc", "%s", "kruskal_adjacency"]
MISSES = [lambda n: n + "s", lambda n: n[:-1], lambda n: n[1:], lambda n: n.upper(), lambda n: n.capitalize(), lambda n: "_" + n, lambda n: n + "_", lambda n: " " + n,
          lambda n: n + "\n", lambda n: n.replace("_", "-"), lambda n: n.replace("_", ""), lambda n: n + n, lambda n: "parallel_" + n, lambda n: n + "_parallel",
          lambda n: n.split("_")[0], lambda n: n.split("_")[-1], lambda n: n + "_adjacency_list", lambda n: n + "\0"]
POOL = list(dict.fromkeys(ALGS + OTHER + [f(n) for n in ALGS for f in MISSES]))

# what -> (names it has, those of them each configuration may lack, call(env, name))
GRAPH = {
    "mst": (("kruskal", "prim"), lambda e, a: P.minimum_spanning_tree(e, a)),
    "mst parallel": (("kruskal", "prim"), lambda e, a: P.minimum_spanning_tree_parallel(e, a, 2)),
    "scc": (("kosaraju", "tarjan"), lambda e, a: P.strongly_connected_components(e, a)),
    "shortest": (("bellman_ford", "dijkstra"), lambda e, a: P.shortest_paths(e, a, "v0")),
    "all pairs": (("floyd_warshall", "johnson"), lambda e, a: P.all_pair_shortest_paths(e, a)),
    "topological": (("kahn",), lambda e, a: P.topological_sort(e, a)),
    "topological parallel": (("kahn",), lambda e, a: P.topological_sort_parallel(e, a, 2)),
    "flow": (("edmonds_karp", "dinic"), lambda e, a: P.max_flow(e, "v0", "v1", a)),
}
CPPG = {
    "mst": (("prim", "kruskal"), lambda e, a: P.minimum_spanning_tree(e, a, backend=CPP)),
    "shortest": (("dijkstra", "bellman_ford"), lambda e, a: P.shortest_paths(e, a, "v0", "", backend=CPP)),
}
OTHERS = {
    "find": (("kmp", "knuth_morris_pratt", "rabin_karp", "boyer_moore", "z_function"), lambda a: P.find("abab", "ab", a)),
    "stack": (("array", "linked_list"), lambda a: P.Stack(a)),
    "queue": (("array", "linked_list"), lambda a: P.Queue(a)),
    "deque": (("array", "linked_list"), lambda a: P.Queue(implementation=a, double_ended=True)),
    "priority queue": (("linked_list", "binary_heap", "binomial_heap"), lambda a: P.PriorityQueue(a)),
    "graph": (("adjacency_list", "adjacency_matrix"), lambda a: P.Graph(implementation=a)),
    "static": (("array", "sparse_table"), lambda a: P.RangeQueryStatic([1, 2], min, a)),
    "dynamic": (("array", "segment_tree"), lambda a: P.RangeQueryDynamic([1, 2], min, a)),
}
TREE = {
    "order": (("in_order", "post_order", "pre_order", "out_order"), lambda t, a: P.BinaryTreeTraversal(t).depth_first_search(a)),
    "strategy": (("queue",), lambda t, a: P.BinaryTreeTraversal(t).breadth_first_search(strategy=a)),
    "order C++": (("in_order", "post_order", "pre_order", "out_order"), lambda t, a: P.BinaryTreeTraversal(t, backend=CPP).depth_first_search(a)),
    "strategy C++": (("queue",), lambda t, a: P.BinaryTreeTraversal(t, backend=CPP).breadth_first_search(strategy=a)),
}


def gen_names(r):
    c = G.gen_digraph(4, 2, lambda r: r.int(0, 5))(r)
    c["edges"] = [[min(u, v), max(u, v), w] for u, v, w in c["edges"] if u != v]
    c.update(group=r.int(0, 3), which=r.int(0, 7), alg=r.int(0, len(POOL if r.bool(0.5) else ALGS) - 1), matrix=r.int(0, 1), keys=r.ints(0, 9, 0, 6))
    return c


def ex_names():
    """Every name against every entry point, each configuration."""
    for group, t in enumerate((GRAPH, CPPG, OTHERS, TREE)):
        for which in range(len(t)):
            for alg in range(len(POOL)):
                for m in range(2 if group < 2 else 1):
                    yield {"n": 3, "edges": [[0, 1, 2], [1, 2, 1]], "names": 0, "noise": 0, "group": group, "which": which, "alg": alg, "matrix": m,
                           "keys": [3, 1, 2]}


def refused(call, name, names, state, ctx, partial=False):
    before = state()
    if name not in names:
        raises(call, NotImplementedError)
        ctx.label("refused")
        ctx.nontrivial()
    elif partial:               # a name it has, though perhaps not in this configuration
        try:
            v = call()
        except NotImplementedError:
            ctx.label("refused in this configuration")
            ctx.nontrivial()
        else:
            check(v is not None, "%r is neither refused nor answered", name)
    else:
        call()
        ctx.label("accepted")
    eq(state(), before, "the arguments afterwards")


def run_names(case, ctx):
    name = POOL[case["alg"] % len(POOL)]
    group = case["group"] % 4
    table = (GRAPH, CPPG, OTHERS, TREE)[group]
    what = list(table)[case["which"] % len(table)]
    names, call = table[what]
    ctx.label(what + " C++" if group == 1 else what)
    if group < 2:
        kind = "matrix" if case["matrix"] % 2 else "list"
        vs = ["v%d" % i for i in range(max(2, case["n"]))]
        b = CPP if group else PY
        g = G.graph(kind, G.make(kind, vs, b), b)
        for u, v, w in case["edges"]:
            u, v = "v%d" % (u % len(vs)), "v%d" % (v % len(vs))
            g.add_edge(u, v, w)
            if what.startswith("mst"):
                g.add_edge(v, u, w)
        refused(lambda: call(g, name), name, names, lambda: G.snapshot(g, vs), ctx, True)
    elif group == 2:
        refused(lambda: call(name), name, names, lambda: 0, ctx)
    else:
        b = CPP if what.endswith("C++") else PY
        t = P.BinarySearchTree(backend=b)
        for k in case["keys"] or [0]:
            t.insert(k, k)
        refused(lambda: call(t, name), name, names, lambda: str(t), ctx)


ARR = [5, 3, 4, 1]


def _array(b=PY):
    return P.OneDimensionalArray(int, list(ARR), backend=b)


def python_only():
    """name -> (call(backend), state())"""
    a, d = _array(), P.DynamicOneDimensionalArray(int, list(ARR))
    g = P.Graph(*[AdjacencyListGraphNode("v%d" % i) for i in range(3)])
    g.add_edge("v0", "v1", 2)
    g.add_edge("v1", "v2", 3)
    st = lambda: (str(a), str(d), G.snapshot(g, ["v0", "v1", "v2"]))
    f = {
        "merge_sort_parallel": lambda b: P.merge_sort_parallel(a, 2, backend=b),
        "brick_sort": lambda b: P.brick_sort(a, backend=b),
        "brick_sort_parallel": lambda b: P.brick_sort_parallel(a, 2, backend=b),
        "heapsort": lambda b: P.heapsort(a, backend=b),
        "counting_sort": lambda b: P.counting_sort(d, backend=b),
        "bucket_sort": lambda b: P.bucket_sort(d, backend=b),
        "cocktail_shaker_sort": lambda b: P.cocktail_shaker_sort(a, backend=b),
        "intro_sort": lambda b: P.intro_sort(a, backend=b),
        "longest_common_subsequence": lambda b: P.longest_common_subsequence(a, a, backend=b),
        "longest_increasing_subsequence": lambda b: P.longest_increasing_subsequence(a, backend=b),
        "upper_bound": lambda b: P.upper_bound(a, 3, backend=b),
        "lower_bound": lambda b: P.lower_bound(a, 3, backend=b),
        "next_permutation": lambda b: P.next_permutation(a, backend=b),
        "prev_permutation": lambda b: P.prev_permutation(a, backend=b),
        "find": lambda b: P.find("abab", "ab", "kmp", backend=b),
        "bfs parallel": lambda b: P.breadth_first_search_parallel(g, "v0", 2, lambda *x: True, backend=b),
        "dfs": lambda b: P.depth_first_search(g, "v0", lambda *x: True, backend=b),
        "mst parallel": lambda b: P.minimum_spanning_tree_parallel(g, "kruskal", 2, backend=b),
        "scc": lambda b: P.strongly_connected_components(g, "tarjan", backend=b),
        "all pairs": lambda b: P.all_pair_shortest_paths(g, "johnson", backend=b),
        "topological_sort": lambda b: P.topological_sort(g, "kahn", backend=b),
        "topological_sort_parallel": lambda b: P.topological_sort_parallel(g, "kahn", 2, backend=b),
        "max_flow": lambda b: P.max_flow(g, "v0", "v2", "dinic", backend=b),
        "Queue": lambda b: P.Queue(items=ARR, backend=b),
        "Queue linked": lambda b: P.Queue("linked_list", items=ARR, backend=b),
        "PriorityQueue": lambda b: P.PriorityQueue(backend=b),
        "Stack linked": lambda b: P.Stack("linked_list", items=ARR, backend=b),
        "DisjointSetForest": lambda b: P.DisjointSetForest(backend=b),
        "SparseTable": lambda b: P.SparseTable(a, min, backend=b),
        "RangeQueryStatic": lambda b: P.RangeQueryStatic(a, min, backend=b),
        "RangeQueryDynamic": lambda b: P.RangeQueryDynamic(a, min, backend=b),
        "MultiDimensionalArray": lambda b: P.MultiDimensionalArray(int, 2, 2, backend=b),
        "SinglyLinkedList": lambda b: P.SinglyLinkedList(backend=b),
        "DoublyLinkedList": lambda b: P.DoublyLinkedList(backend=b),
        "SinglyCircularLinkedList": lambda b: P.SinglyCircularLinkedList(backend=b),
        "DoublyCircularLinkedList": lambda b: P.DoublyCircularLinkedList(backend=b),
        "SkipList": lambda b: P.SkipList(backend=b),
        "Trie": lambda b: P.Trie(backend=b),
        "BinaryHeap": lambda b: P.BinaryHeap(backend=b),
        "TernaryHeap": lambda b: P.TernaryHeap(backend=b),
        "DHeap": lambda b: P.DHeap(d=4, backend=b),
        "BinomialHeap": lambda b: P.BinomialHeap(backend=b),
        "OneDimensionalSegmentTree": lambda b: P.OneDimensionalSegmentTree([[0, 1]], backend=b),
        "MAryTree": lambda b: MAryTree(1, 1, backend=b),
        "LinkedListNode": lambda b: LinkedListNode(1, backend=b),
        "CartesianTreeNode": lambda b: CartesianTreeNode(1, 1, backend=b),
        "BinomialTreeNode": lambda b: BinomialTreeNode(1, 1, backend=b),
        "Set": lambda b: Set(1, backend=b),
        "TrieNode": lambda b: TrieNode("a", backend=b),
        "SkipNode": lambda b: SkipNode(1, backend=b),
    }
    return f, st


PYONLY = list(python_only()[0])


def gen_backend(r):
    return {"which": r.int(0, len(PYONLY) - 1), "b": r.int(0, 4)}


def ex_backend():
    for which in range(len(PYONLY)):
        for b in range(5):
            yield {"which": which, "b": b}


def run_backend(case, ctx):
    fs, st = python_only()
    name = PYONLY[case["which"] % len(PYONLY)]
    b = [PY, CPP, LLVM, "Cpp", None][case["b"] % 5]
    before = st()
    ctx.label(name)
    if b is PY:
        fs[name](b)
        return
    raises(lambda: fs[name](b), ValueError)
    eq(st(), before, "the arguments afterwards")
    ctx.nontrivial()


def gen_abstract(r):
    return {"t": r.int(0, 2), "ops": [[r.int(0, 3), r.int(0, 9)] for _ in range(r.size(1, 8))], "n": r.int(0, 4), "edges": [[r.int(0, 3), r.int(0, 3)] for _ in range(r.int(0, 5))]}


def run_abstract(case, ctx):
    t = case["t"] % 3
    if not case["ops"]:
        raise Invalid()
    if t == 0:
        o = BinaryTree(case["n"], ("d", case["n"]), **({"backend": CPP} if len(case["edges"]) % 2 else {}))
        fs = [lambda x: o.insert(x, x), lambda x: o.delete(x), lambda x: o.search(x)]
        st = lambda: str(o)
    elif t == 1:
        o = LinkedList()
        fs = [lambda x: o.insert_at(x, x), lambda x: o.extract(x), lambda x: o.insert_after(x, x), lambda x: o.insert_before(x, x)]
        st = lambda: 0
    else:
        vs = ["v%d" % i for i in range(case["n"] + 1)]
        o = G.graph("matrix", G.make("matrix", vs, PY), PY)
        for u, v in case["edges"]:
            o.add_edge(vs[u % len(vs)], vs[v % len(vs)], 1)
        fs = [lambda x: o.add_vertex(G.make("matrix", ["w%d" % x], PY)[0]), lambda x: o.add_vertex(G.make("matrix", [vs[x % len(vs)]], PY)[0]),
              lambda x: o.remove_vertex(vs[x % len(vs)]), lambda x: o.remove_vertex("nobody")]
        st = lambda: G.snapshot(o, vs)
    before = st()
    for i, x in case["ops"]:
        raises(lambda: fs[i % len(fs)](x), NotImplementedError)
        eq(st(), before, "state after a refusal")
    ctx.label(["BinaryTree", "LinkedList", "AdjacencyMatrix"][t])
    ctx.nontrivial()


JUNK = [5, "ab", 2.5, {1: 2}, object, {1}, b"xy", range(2), True, frozenset((1, 2)), 0, "", {}, 0.0]
MADE = ["heap elements", "heap property", "heap of an array", "tree without a key", "traversal of no tree", "segments", "list items",
        "binomial tree", "binomial heap", "segment tree dimensions", "m-ary tree without a key"]


def gen_made(r):
    return {"what": r.int(0, len(MADE) - 1), "cls": r.int(0, 7), "j": r.int(0, len(JUNK) - 1), "be": r.int(0, 1), "n": r.int(0, 4), "at": r.int(0, 4)}


def run_made(case, ctx):
    """A constructor given what its documentation rules out raises, and leaves what it was given."""
    what, c, j, n, at = case["what"] % len(MADE), case["cls"], JUNK[case["j"] % len(JUNK)], case["n"] % 5, case["at"] % 5
    kw = {"backend": CPP} if case["be"] % 2 else {}
    heap = [DHeap, BinaryHeap, TernaryHeap][c % 3]
    tree = [BinarySearchTree, AVLTree, RedBlackTree, SplayTree, BinaryTree, Treap][c % 6]
    data = [0, "", False, "d", (), 3][case["j"] % 6]
    given = None
    if what == 0:
        f, exc = lambda: heap(elements=j), ValueError
    elif what == 1:
        f, exc = lambda: heap(heap_property=["mini", "MIN", "", "max ", 0, "minmax", None][(n + case["j"]) % 7]), ValueError
    elif what == 2:
        f, exc = lambda: heap(elements=OneDimensionalArray(int, [n, at])), TypeError
    elif what == 3:
        f, exc = lambda: tree(None, data, **kw), ValueError
    elif what == 4:
        f, exc = lambda: BinaryTreeTraversal(j, **kw), (TypeError, ValueError) if kw else TypeError
    elif what == 5:
        given = [(i, i + at) for i in range(n)]
        given.insert(at % (n + 1), [5, "ab", None, (1,), [], [1, 2, 3], {1}, "a", (1, 2, 3, 4), 2.5][case["j"] % 10])
        f, exc = lambda: OneDimensionalSegmentTree(given if c % 2 else tuple(given)), ValueError
    elif what == 6:
        f, exc = lambda: (Queue if c % 2 else Stack)(implementation="linked_list", items=j), TypeError
    elif what == 7:
        root = BinomialTreeNode(n, n)
        f, exc = (lambda: BinomialTree(root=j, order=0)) if c % 2 else (lambda: BinomialTree(root, [x for x in JUNK if not isinstance(x, int)][case["j"] % 11])), TypeError
    elif what == 8:
        given = [BinomialTree(BinomialTreeNode(i, i), 0) for i in range(n)]
        given.insert(at % (n + 1), j)
        f, exc = lambda: BinomialHeap(root_list=given), TypeError
    elif what == 9:
        f, exc = lambda: ArraySegmentTree(OneDimensionalArray(int, [1, 2]), min, dimensions=[0, 2, 3, -1, 10, "1"][case["j"] % 6]), NotImplementedError
    else:
        f, exc = lambda: MAryTree(None, data), ValueError
    copy = list(given) if given is not None else None
    raises(f, *(exc if isinstance(exc, tuple) else (exc,)))
    check(given is None or len(given) == len(copy) and all(a is b for a, b in zip(given, copy)), "the list given to a constructor that refused it changed")
    ctx.label(MADE[what])
    ctx.nontrivial()


prop("U02", Sub("constructors", gen_made, run_made, quick=6000, shards=1, hyp=50), Sub("names", gen_names, run_names, quick=12000, shards=4, hyp=100, exhaust=ex_names),
     Sub("backends", gen_backend, run_backend, quick=300, hyp=0, exhaust=ex_backend),
     Sub("abstract", gen_abstract, run_abstract, quick=4000, shards=2, hyp=50),
     rule="every name of a pool of 400 (the algorithms, implementations, orders and strategies of the whole library, and 18 near misses of each) against every entry point that takes one, on random "
          "arguments; every Python-only entry point with other backends; operations an abstract class or a static graph lacks; [constructors] what their documentation rules out, of 11 kinds; non-trivial = a refusal was due.")


# ------------------------------------------------------------------ U03 wrong arguments

from pydatastructs.utils.misc_util import GraphEdge, AdjacencyMatrixGraphNode


class Unorderable:
    """No comparison with it succeeds, it has no hash and no index."""
    def __lt__(self, other):
        raise ZeroDivisionError("not comparable")
    __gt__ = __eq__ = __ne__ = __le__ = __ge__ = __index__ = __lt__
    __hash__ = None


class Untestable:
    """Neither true nor false."""
    def __bool__(self):
        raise ZeroDivisionError("not a truth value")


class Unprintable:
    def __repr__(self):
        raise ZeroDivisionError("not printable")
    __str__ = __repr__


def boom(*a, **k):
    raise ZeroDivisionError("called")


def _tree(T):
    t = T(backend=CPP)
    for i in (5, 2, 8, 1, 9):
        t.insert(i, i) if T is not P.CartesianTree else t.insert(i, i * 7 % 5, i)
    return t


def _graph(impl):
    N = AdjacencyListGraphNode if impl == "adjacency_list" else AdjacencyMatrixGraphNode
    g = P.Graph(*[N(x, backend=CPP) for x in "abc"], implementation=impl, backend=CPP)
    g.add_edge("a", "b", 1)
    g.add_edge("b", "c", 2)
    return g


TREES = {T.__name__: T for T in (P.BinarySearchTree, P.AVLTree, P.RedBlackTree, P.SplayTree, P.Treap, P.CartesianTree)}
LN = lambda x: AdjacencyListGraphNode(x, backend=CPP)
MN = lambda x: AdjacencyMatrixGraphNode(x, backend=CPP)
MAKE = {
    "array": lambda: P.OneDimensionalArray(int, [3, 1, 2], backend=CPP),
    "dynamic": lambda: P.DynamicOneDimensionalArray(int, [3, 1, 2], backend=CPP),
    "stack": lambda: P.Stack(items=[1, 2], dtype=int, backend=CPP),
    "fenwick": lambda: P.BinaryIndexedTree([1, 2, 3], backend=CPP),
    "traversal": lambda: P.BinaryTreeTraversal(_tree(P.BinarySearchTree), backend=CPP),
    "lgraph": lambda: _graph("adjacency_list"), "mgraph": lambda: _graph("adjacency_matrix"),
    "lnode": lambda: LN("a"), "mnode": lambda: MN("a"),
    "treenode": lambda: TreeNode(1, 1, backend=CPP),
    "edge": lambda: GraphEdge(LN("a"), LN("b"), 3, backend=CPP),
}
for _n in TREES:
    MAKE[_n] = lambda T=TREES[_n]: _tree(T)
_TREE = ["insert", "delete", "search", "lower_bound", "upper_bound", "lowest_common_ancestor", "rank", "select", "?root_idx", "?size",
         "?comparator", "?is_order_statistic"]
_GRAPH = ["is_adjacent", "neighbors", "add_vertex", "remove_vertex", "add_edge", "get_edge", "remove_edge", "num_vertices", "num_edges"]
METHODS = {
    "array": ["__getitem__", "__setitem__", "__len__", "__str__", "fill"],
    "dynamic": ["__getitem__", "__setitem__", "__len__", "__str__", "fill", "append", "delete", "?size"],
    "stack": ["push", "pop", "?peek", "?is_empty", "__len__", "__str__"],
    "fenwick": ["update", "get_prefix_sum", "get_sum"],
    "traversal": ["depth_first_search", "breadth_first_search"],
    "lgraph": _GRAPH, "mgraph": _GRAPH,
    "lnode": ["add_adjacent_node", "remove_adjacent_node", "__str__", "=name", "=data", "=adjacent", "?name", "?data", "?adjacent"],
    "mnode": ["__str__", "=name", "=data", "?name", "?data"],
    "treenode": ["__str__", "?key", "?data", "?left", "?right"],
    "edge": ["__str__", "=value", "?value", "?source", "?target"],
}
for _n in TREES:
    METHODS[_n] = _TREE + {"SplayTree": ["join", "split"] * 2, "AVLTree": ["set_tree", "balance_factor"]}.get(_n, [])
ARGPOOL = ([lambda i=i: i for i in (None, 0, 1, -1, 2, 3, 5, 8, -7, 2 ** 40, 2 ** 63, -2 ** 63, 2 ** 70, -2 ** 70, 1.5, float("nan"), -0.0, True,
                                 "a", "b", "z", "", "in_order", "out_order", "dijkstra", "prim", "\ud800", "a\0b", b"a", int, str, float, object, len, boom)]
        + [lambda: [], lambda: [1, 2], lambda: ["a", None], lambda: [[1], [2]], lambda: (1, 2), lambda: {}, lambda: {"a": 1}, lambda: {1},
           lambda: (lambda a, b: a < b), lambda: (lambda *a: None), lambda: (lambda *a: True), lambda: (lambda *a: Untestable()), object,
           Unorderable, Unprintable, lambda: CPP, lambda: PY, lambda: range(3), lambda: LN("a"), lambda: LN("z"), lambda: MN("b"),
           lambda: AdjacencyListGraphNode("a"), lambda: TreeNode(1, 1), lambda: TreeNode(1, 1, backend=CPP),
           lambda: P.BinarySearchTree(1, 1), lambda: P.OneDimensionalArray(int, [1, 2]), lambda: P.DynamicOneDimensionalArray(int, [1, 2]),
           lambda: {"a": LN("b")}, lambda: {"\ud800": LN("b")}, lambda: {1: 2}, lambda: [(1, 2), (3, 4)], lambda: [LN("a"), LN("b")]]
        + [MAKE[n] for n in MAKE])
WORDS = ["start", "end", "comp", "dtype", "items", "init", "load_factor", "node", "order", "strategy", "parent", "algorithm", "balancing_info",
         "is_order_statistic", "implementation", "key", "root_data", "source_node", "target", "pick_pivot_element", "value"]
CTORS = {"array": P.OneDimensionalArray, "dynamic": P.DynamicOneDimensionalArray, "stack": P.Stack, "fenwick": P.BinaryIndexedTree,
         "traversal": P.BinaryTreeTraversal, "graph": P.Graph, "lnode": AdjacencyListGraphNode, "mnode": AdjacencyMatrixGraphNode,
         "treenode": TreeNode, "edge": GraphEdge, **TREES}
FUNCS = {f.__name__: f for f in (P.bubble_sort, P.selection_sort, P.insertion_sort, P.quick_sort, P.shell_sort, P.radix_sort, P.is_ordered,
                                 P.linear_search, P.binary_search, P.jump_search, P.breadth_first_search, P.minimum_spanning_tree,
                                 P.shortest_paths)}
OBJS = sorted(METHODS)


def _args(r):
    return [r.int(0, 8) if r.bool(0.25) else r.int(0, len(ARGPOOL) - 1) for _ in range(r.weighted((1, 0), (4, 1), (4, 2), (2, 3), (1, 4)))]


NEAR = [i for i, f in enumerate(ARGPOOL[:38]) if type(f()) in (int, str) and str(f()) in ("0", "1", "2", "3", "5", "8", "a", "b", "z", "1.5")]


def _near(r):
    """As _args, but for the most part arguments many of the methods take."""
    return [r.choice(NEAR) if r.bool(0.6) else r.int(0, len(ARGPOOL) - 1) for _ in range(r.weighted((1, 0), (4, 1), (5, 2), (2, 3), (1, 4)))]


def _kw(r):
    return [[r.choice(WORDS), r.int(0, len(ARGPOOL) - 1)] for _ in range(r.weighted((4, 0), (1, 1), (1, 2)))]


def gen_calls(r):
    o = r.int(0, len(OBJS) - 1)
    return {"o": o, "ops": [[r.int(0, len(METHODS[OBJS[o]]) - 1), _args(r), _kw(r)] for _ in range(r.size(1, 6))]}


def _call(f, args, kw):
    """What the call raised, or None: whatever comes back has to print or to say that it doesn't."""
    args = [ARGPOOL[i % len(ARGPOOL)]() for i in args]
    kw = {k: ARGPOOL[i % len(ARGPOOL)]() for k, i in kw}
    try:
        v = f(*args, **kw)
    except SystemError as e:
        raise Violation("the interpreter's error state was left inconsistent: %r" % e)
    except Exception as e:
        return type(e).__name__
    try:
        str(v)
    except SystemError as e:
        raise Violation("the interpreter's error state was left inconsistent: %r" % e)
    except Exception as e:
        pass
    return None


def _state(kind, o):
    """What can be read of an object, None if something held doesn't print."""
    try:
        if kind == "fenwick":
            return [str(o.get_prefix_sum(i)) for i in range(3)]
        if kind in ("lgraph", "mgraph"):
            g = [str(o.num_vertices() if kind == "lgraph" else 0)]
            for v in "abcz":
                for f in (lambda: sorted(n.name for n in o.neighbors(v)), *[lambda w=w: str(o.get_edge(v, w)) for w in "abc"]):
                    try:
                        g.append(f())
                    except Exception as e:
                        g.append(type(e).__name__)
            return g
        if kind == "traversal":
            return 0
        out = [str(o)]
        if kind == "lnode":
            out.append(sorted((k, str(v)) for k, v in o.adjacent.items()))
        if kind in ("dynamic", "stack", "array"):
            out.append(len(o))
        if kind == "dynamic":
            out += [o.size, o._num, o._last_pos_filled]
        if kind in TREES:
            out += [o.root_idx, o.size, [str(o.tree[i]) for i in range(len(o.tree))]]
        return out
    except ZeroDivisionError:
        return None


def _attempt(o, name, args, kw):
    if name[0] == "=":
        if args:
            return _call(lambda v: setattr(o, name[1:], v), args[:1], [])
        return _call(lambda: delattr(o, name[1:]), [], [])
    if name[0] == "?":
        return _call(lambda: getattr(o, name[1:]), [], [])
    return _call(lambda *a, **k: getattr(o, name)(*a, **k), args, kw)


def run_calls(case, ctx):
    kind = OBJS[case["o"] % len(OBJS)]
    o = MAKE[kind]()
    names = METHODS[kind]
    n = 0
    for op in case["ops"]:
        name = names[op[0] % len(names)]
        before = _state(kind, o)
        e = _attempt(o, name, op[1], op[2])
        if e and before is not None:
            eq(_state(kind, o), before, "state of %s after %s raised %s", kind, name, e)
        n += e is not None
        if e:
            ctx.label(e)
    for name in names:                                  # what only reads still works, or raises
        if name[0] == "?" or name == "__str__":
            _attempt(o, name, [], [])
    _call(lambda: str(o), [], [])
    ctx.label(kind)
    ctx.nontrivial(n)


def gen_ctor(r):
    return {"c": r.int(0, len(CTORS) - 1), "a": _args(r), "k": _kw(r)}


def run_ctor(case, ctx):
    name = sorted(CTORS)[case["c"] % len(CTORS)]
    box = []

    def make(*a, **k):
        k["backend"] = CPP
        box.append(CTORS[name](*a, **k))
    e = _call(make, case["a"], case["k"])
    if box:
        _call(lambda: str(box[0]), [], [])
        kind = name if name in METHODS else "lgraph"
        for m in METHODS[kind]:
            if m[0] not in "=":
                _attempt(box[0], m, case["a"][:1], [])
    e2 = _call(lambda: type(MAKE[name]()) and type(MAKE[name]())(*[ARGPOOL[i % len(ARGPOOL)]() for i in case["a"]]), [], []) if name in MAKE else None
    ctx.label(name, str(e))
    ctx.nontrivial(e or e2)


def gen_func(r):
    f = r.int(0, len(FUNCS) - 1)
    return {"f": f, "x": r.int(0, 9), "a": _args(r), "k": _kw(r)}


def run_func(case, ctx):
    name = sorted(FUNCS)[case["f"] % len(FUNCS)]
    graphs = name in ("breadth_first_search", "minimum_spanning_tree", "shortest_paths")
    first = [["lgraph", "mgraph"], ["array", "dynamic"]][not graphs][case["x"] % 2] if case["x"] < 8 else None
    o = MAKE[first]() if first else None

    def go(*a, **k):
        k["backend"] = CPP
        if first:
            a = (o,) + a
        return FUNCS[name](*a, **k)
    e = _call(go, case["a"], case["k"])
    if first:
        _call(lambda: str(o), [], [])
        for m in METHODS[first]:
            if m[0] not in "=":
                _attempt(o, m, case["a"][:1], [])
    ctx.label(name, str(e))
    ctx.nontrivial(e)


FAR_TREES = [P.BinarySearchTree, P.AVLTree, P.RedBlackTree, P.SplayTree, P.Treap, P.CartesianTree]
TREE_OPS = ["insert", "delete", "search", "lower_bound", "upper_bound", "rank", "lowest_common_ancestor", "split"]


class Refused(Exception):
    pass


def gen_far(r):
    return {"tree": r.int(0, 5), "os": r.int(0, 1), "keys": r.ints(0, 20, 0, 14), "op": r.int(0, 7), "x": r.int(0, 20), "y": r.int(0, 20), "k": r.int(1, 12)}


def run_far(case, ctx):
    """A C++ tree's comparator fails at its k-th call: the operation passes that on at once, and what reads leaves the tree alone."""
    cls = FAR_TREES[case["tree"] % 6]
    calls, stop = [0], [0]

    def comp(u, v):
        calls[0] += 1
        if calls[0] == stop[0]:
            raise Refused(calls[0])
        return u < v
    os = bool(case["os"])
    t = cls(comp=comp, is_order_statistic=os, backend=CPP)
    put = (lambda k: t.insert(k, k * 7 % 11, k)) if cls is P.CartesianTree else (lambda k: t.insert(k, k))
    for k in case["keys"]:
        put(k)
    op, x, y = TREE_OPS[case["op"] % 8], case["x"], case["y"]
    if op == "split" and (cls is not P.SplayTree or x not in case["keys"]) or op == "rank" and not os:
        op = "search"
    call = {"insert": lambda: put(x), "lowest_common_ancestor": lambda: t.lowest_common_ancestor(x, y, 1 + case["k"] % 2)}.get(op, lambda: getattr(t, op)(x))
    before = str(t), t.root_idx
    calls[0], stop[0] = 0, max(1, case["k"])
    try:
        call()
    except Refused:
        eq(calls[0], stop[0], "%s went on comparing after a comparison failed" % op)
        ctx.nontrivial(stop[0] > 1)
        ctx.label(op, cls.__name__)
        if op not in ("insert", "delete", "split") or cls is P.BinarySearchTree:
            eq((str(t), t.root_idx), before, "the tree after %s failed" % op)
    except Exception as e:
        check(not isinstance(e, SystemError), "%s raised SystemError: %s", op, e)
        check(calls[0] < stop[0], "%s raised %r, not what its comparator raised", op, e)
    else:
        check(calls[0] < stop[0], "%s lost what its comparator raised", op)
    stop[0] = 0
    str(t)
    for k in case["keys"]:
        t.search(k)


prop("U03", Sub("calls", gen_calls, run_calls, quick=120000, shards=6, hyp=300),
     Sub("constructors", gen_ctor, run_ctor, quick=40000, shards=2, hyp=100),
     Sub("functions", gen_func, run_func, quick=40000, shards=2, hyp=100),
     Sub("failing_comparator", gen_far, run_far, quick=12000, shards=2, hyp=100),
     rule="up to 6 calls of public methods, reads, writes and deletions of attributes of every C++ object, every constructor and every C++ algorithm, with 0-4 positional and "
          "0-2 named arguments from a pool of 100 values (numbers beyond 64 bits, text that can't be encoded, callables that raise, objects that can't be compared, printed or "
          "hashed, nodes, trees, arrays and graphs of either backend); non-trivial = at least one call was refused. failing_comparator: trees whose comparator fails at the "
          "k-th call of an operation; non-trivial = it failed after the first comparison.")


# ------------------------------------------------------------------ U04 refused calls of the Python structures

def _full(o, put, xs):
    for x in xs:
        put(o, x)
    return o


def _pq(impl):
    return _full(P.PriorityQueue(implementation=impl), lambda q, i: q.push(i, i), (4, 2, 7))


def _pygraph(impl):
    N = AdjacencyListGraphNode if impl == "adjacency_list" else AdjacencyMatrixGraphNode
    g = P.Graph(*[N(x) for x in "abc"], implementation=impl)
    g.add_edge("a", "b", 1)
    g.add_edge("b", "c", 2)
    return g


def _dsf():
    d = _full(P.DisjointSetForest(), lambda d, i: d.make_set(i), range(5))
    d.union(0, 1)
    d.union(1, 2)
    return d


LISTS = {c.__name__: c for c in (P.SinglyLinkedList, P.DoublyLinkedList, P.SinglyCircularLinkedList, P.DoublyCircularLinkedList)}
HEAPS = {c.__name__: c for c in (P.BinaryHeap, P.TernaryHeap, P.DHeap, P.BinomialHeap)}
PYMAKE = {
    "array": lambda: P.OneDimensionalArray(int, [3, 1, 2]), "strings": lambda: P.OneDimensionalArray(str, ["a", "b"]),
    "dynamic": lambda: P.DynamicOneDimensionalArray(int, [3, 1, 2]), "grid": lambda: P.MultiDimensionalArray(int, 2, 2),
    "stack": lambda: P.Stack(items=[1, 2], dtype=int), "linked stack": lambda: P.Stack(implementation="linked_list", items=[1, 2]),
    "queue": lambda: P.Queue(items=[1, 2]), "deque": lambda: P.Queue(items=[1, 2], double_ended=True),
    "linked queue": lambda: P.Queue(implementation="linked_list", items=[1, 2]),
    "linked deque": lambda: P.Queue(implementation="linked_list", items=[1, 2], double_ended=True),
    "pq binary": lambda: _pq("binary_heap"), "pq binomial": lambda: _pq("binomial_heap"), "pq list": lambda: _pq("linked_list"),
    "fenwick": lambda: P.BinaryIndexedTree([1, 2, 3]),
    "lgraph": lambda: _pygraph("adjacency_list"), "mgraph": lambda: _pygraph("adjacency_matrix"),
    "trie": lambda: _full(P.Trie(), lambda t, i: t.insert("ab" * i), (1, 2)), "sets": _dsf,
    "sum": lambda: P.RangeQueryDynamic(P.OneDimensionalArray(int, [3, 1, 2]), summation),
    "sums": lambda: P.RangeQueryDynamic(P.OneDimensionalArray(object, [3, 1, 2, 5, 4]), summation),
    "min": lambda: P.RangeQueryStatic(P.OneDimensionalArray(int, [3, 1, 2]), minimum),
    "skip": lambda: _full(P.SkipList(), lambda s, i: s.insert(i, i), (3, 1, 2)), "multiset": lambda: P.Multiset(1, 2, 2),
}
for _n in LISTS:
    PYMAKE[_n] = lambda C=LISTS[_n]: _full(C(), lambda l, i: l.append(i, i), (1, 2, 3))
for _n in HEAPS:
    PYMAKE[_n] = lambda C=HEAPS[_n]: _full(C(), lambda h, i: h.insert(i, i), (4, 2, 7, 5))
for _n in TREES:
    PYMAKE[_n] = lambda C=TREES[_n]: _full(C(is_order_statistic=True),
                                           lambda t, i: t.insert(i, i) if C is not P.CartesianTree else t.insert(i, i * 7 % 5, i), (5, 2, 8, 1, 9))
PYMETHODS = {
    "array": ["__getitem__", "__setitem__", "fill"], "strings": ["__getitem__", "__setitem__", "fill"],
    "dynamic": ["__getitem__", "__setitem__", "fill", "append", "delete"], "grid": ["__getitem__", "__setitem__", "fill"],
    "stack": ["push", "pop"], "linked stack": ["push", "pop"], "queue": ["append", "appendleft", "pop", "popleft"],
    "deque": ["append", "appendleft", "pop", "popleft"], "linked queue": ["append", "appendleft", "pop", "popleft"],
    "linked deque": ["append", "appendleft", "pop", "popleft"], "pq binary": ["push", "pop"], "pq binomial": ["push", "pop"],
    "pq list": ["push", "pop"], "fenwick": ["update", "get_prefix_sum", "get_sum"], "lgraph": _GRAPH, "mgraph": _GRAPH,
    "trie": ["insert", "is_present", "is_inserted", "delete", "strings_with_prefix"],
    "sets": ["make_set", "find_root", "union", "make_root", "find_size"], "sum": ["query", "update"], "sums": ["query", "update"], "min": ["query"],
    "skip": ["insert", "extract", "search"], "multiset": ["add", "remove", "count", "lower_bound", "upper_bound", "__contains__"],
}
for _n in LISTS:
    PYMETHODS[_n] = ["search", "insert_at", "insert_after", "extract", "__getitem__", "append", "appendleft", "popleft", "popright"] + \
        ["insert_before"] * ("Doubly" in _n)
for _n in HEAPS:
    PYMETHODS[_n] = ["insert", "extract"] if _n != "BinomialHeap" else ["insert", "delete_minimum", "decrease_key", "delete", "merge", "merge_tree"]
for _n in TREES:
    PYMETHODS[_n] = ["insert", "delete", "search", "lower_bound", "upper_bound", "lowest_common_ancestor", "rank", "select"] + \
        ["join", "split"] * (_n == "SplayTree")
PYOBJS = sorted(PYMAKE)
HEX = re.compile("0x[0-9a-f]+")
assert set(PYMAKE) == set(PYMETHODS)


def _walk_binomial(n):
    return [str(n), n.is_root, str(n.parent), [_walk_binomial(c) for c in n.children._data if c is not None]]


def _nodes(n):
    yield n
    for c in n.children._data:
        if c is not None:
            yield from _nodes(c)


def _pystate(kind, o):
    """What can be read of an object through its interface; what it raises where a key it took in can't be compared."""
    try:
        if kind in ("array", "strings", "dynamic"):
            return [str(o[i]) for i in range(len(o))] + [len(o), str(o) if kind == "dynamic" else 0]
        if kind == "grid":
            return [str(o[i, j]) for i in range(2) for j in range(2)]
        if kind in ("stack", "linked stack", "queue", "deque", "linked queue", "linked deque"):
            return [str(o), len(o), o.is_empty]
        if kind.startswith("pq"):
            return [o.is_empty] + ([] if o.is_empty or kind == "pq binomial" else [str(o.peek)]) + \
                [str(o.items) if kind != "pq binomial" else [_walk_binomial(t.root) for t in o.items.root_list]]
        if kind == "fenwick":
            return [str(o.get_prefix_sum(i)) for i in range(3)]
        if kind in ("sum", "sums", "min"):
            n = 5 if kind == "sums" else 3
            return [str(o.query(i, j)) for i in range(n) for j in range(i, n)]
        if kind in ("lgraph", "mgraph"):
            g = []
            for v in "abcz":
                for f in (lambda: sorted(n.name for n in o.neighbors(v)), *[lambda w=w: str(o.get_edge(v, w)) for w in "abc"]):
                    try:
                        g.append(f())
                    except Exception as e:
                        g.append(type(e).__name__)
            return g
        if kind == "trie":
            return sorted(o.strings_with_prefix(""))
        if kind == "sets":
            return [[str(o.find_root(k).key), o.find_size(k)] for k in o.tree]
        if kind == "skip":
            return [str(o), o.size, o.levels]
        if kind == "multiset":
            return [len(o)] + [(str(k), o.count(k)) for k in list(o.counter) if o.count(k)] + [str(k in o) for k in (1, 2, "a", 1.5)]
        if kind in LISTS:
            return [str(o), len(o), str(o.head), str(o.tail), [str(o[i]) for i in range(len(o))]]
        if kind == "BinomialHeap":
            return [_walk_binomial(t.root) for t in o.root_list] + [o.is_empty]
        if kind in HEAPS:
            return [str(o), o.is_empty]
        return [str(o), o.root_idx, len(o.tree)]
    except (TypeError, ValueError, ZeroDivisionError) as e:
        return type(e).__name__


def gen_py(r):
    o = r.int(0, len(PYOBJS) - 1)
    ops = []
    for _ in range(r.size(1, 8)):
        if ops and r.bool(0.45):                    # the one before again, with another argument
            m, a = ops[-1]
            a = list(a)
            if a:
                a[r.int(0, len(a) - 1)] = r.choice(NEAR)
            ops.append([m, a])
        else:
            ops.append([r.int(0, len(PYMETHODS[PYOBJS[o]]) - 1), _near(r)])
    return {"o": o, "seed": r.int(0, 1 << 20), "ops": ops}


NO_NONE = ("stack", "queue", "deque", "dynamic", "array", "strings")    # None is an empty place of an array


def run_py(case, ctx):
    kind = PYOBJS[case["o"] % len(PYOBJS)]
    seed = case["seed"]
    random.seed(seed)
    o = PYMAKE[kind]()
    done = []
    for t, (m, args) in enumerate(case["ops"]):
        name = PYMETHODS[kind][m % len(PYMETHODS[kind])]
        args = [ARGPOOL[i % len(ARGPOOL)]() for i in args]
        if any(type(x).__name__ == "Treap" or type(x) is float and x != x or x is None and kind in NO_NONE for x in args):
            continue                                # nan has no place in any order, two treaps are not alike
        before = _pystate(kind, o)
        random.seed(seed + t)
        try:
            getattr(o, name)(*args)
            done.append((t, name))
        except Exception as e:
            ctx.label(kind, type(e).__name__)
            eq(_pystate(kind, o), before, "state of %s after %s raised %s", kind, name, type(e).__name__)
            ctx.nontrivial(1)
    # a twin which gets the calls that went through only: each goes through there too
    random.seed(seed)
    twin = PYMAKE[kind]()
    for t, name in done:
        random.seed(seed + t)
        getattr(twin, name)(*[ARGPOOL[i % len(ARGPOOL)]() for i in case["ops"][t][1]])
    a, b = (HEX.sub("", repr(_pystate(kind, x))) for x in (o, twin))
    eq(a, b, "%s which refused some of the calls, and one which did not get these", kind)


PARTIAL = {"pq binary": "push", "pq binomial": "push", "pq list": "push", "multiset": "add", "skip": "insert"}
for _n in TREES:
    PARTIAL[_n] = "insert"
for _n in HEAPS:
    PARTIAL[_n] = "insert"
PARTIALS = sorted(PARTIAL)
TAKE = {"pq binary": "pop", "pq list": "pop", "pq binomial": "pop", "multiset": "remove", "skip": "extract", **{n: "extract" for n in HEAPS}}
PART = {"pq binary": lambda: P.PriorityQueue(implementation="binary_heap"),
        "pq binomial": lambda: P.PriorityQueue(implementation="binomial_heap"),
        "pq list": lambda: P.PriorityQueue(implementation="linked_list"), "multiset": P.Multiset, "skip": P.SkipList,
        **{n: (lambda C=C: C(is_order_statistic=True)) for n, C in TREES.items()}, **HEAPS}


def gen_partial(r):
    return {"o": r.int(0, len(PARTIALS) - 1), "seed": r.int(0, 1 << 20),
            "keys": [[r.int(0, 4), r.weighted((4, r.int(0, 4)), (1, r.int(5, 7)))] for _ in range(r.size(2, 14))]}


def run_partial(case, ctx):
    """Pairs, some with a second element that doesn't compare with others'; they may be refused at any comparison."""
    kind = PARTIALS[case["o"] % len(PARTIALS)]
    random.seed(case["seed"])
    o = PART[kind]()
    n = 0
    for a, b in case["keys"]:
        key = (a, b % 5 if b % 5 < 3 else "xy"[b % 5 - 3])
        before = _pystate(kind, o)
        name = "insert"
        try:
            if b > 4:
                name = TAKE.get(kind, "delete")
                if kind == "BinomialHeap":
                    nodes = [n for t in o.root_list for n in _nodes(t.root)]
                    node = nodes[case["seed"] % len(nodes)] if nodes else None
                    name = ("delete_minimum", "decrease_key", "delete")[b - 5]
                    if node is not None:
                        args = {"decrease_key": (node, (node.key[0] - 1, key[1])), "delete": (node,)}.get(name, ())
                        getattr(o, name)(*args)
                elif name in ("extract", "pop") and kind != "skip":
                    if not o.is_empty:
                        getattr(o, name)()
                else:
                    getattr(o, name)(o.tree[o.root_idx].key if b == 5 and kind in TREES else (a * 5 + b) * 7 % 11 if kind == "CartesianTree" else key)
            elif kind == "multiset":
                o.add(key)
            elif kind.startswith("pq"):
                o.push(b, key)
            elif kind == "CartesianTree":
                o.insert((a * 5 + b) * 7 % 11, key, b)
            else:
                o.insert(key, b)
        except KeyError as e:
            check(kind in ("skip", "multiset"), "%s of %s raised %r", name, kind, e)
            eq(_pystate(kind, o), before, "state of %s after extracting the absent key %r", kind, key)
        except TypeError as e:
            eq(_pystate(kind, o), before, "state of %s after %s %r raised %s", kind, name, key, type(e).__name__)
            ctx.label(kind, name)
            n += 1
    ctx.nontrivial(n)


prop("U04", Sub("calls", gen_py, run_py, quick=240000, shards=8, hyp=300), Sub("partial", gen_partial, run_partial, quick=40000, shards=8, hyp=300),
     rule="calls: up to 8 calls of public methods of 37 kinds of Python structures with 0-4 arguments from the pool of U03; the contents read through the interface before and "
          "after each call that raises; non-trivial = at least one call was refused. partial: pairs inserted and taken out that compare with some of the pairs held and not with others; "
          "non-trivial = at least one was refused.")
