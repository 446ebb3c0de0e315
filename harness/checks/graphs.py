import itertools, random
from fractions import Fraction
from ..core import prop, Sub, check, eq, raises, Invalid, Violation
from ..util import PY, CPP, be, eqt, spoil, with_schedule, under_schedule
from pydatastructs import (Graph, AdjacencyListGraphNode, AdjacencyMatrixGraphNode, breadth_first_search,
                           breadth_first_search_parallel, depth_first_search, minimum_spanning_tree,
                           minimum_spanning_tree_parallel, strongly_connected_components, shortest_paths,
                           all_pair_shortest_paths, topological_sort, topological_sort_parallel, max_flow, find_bridges)
from pydatastructs.utils.misc_util import GraphEdge

INF = float("inf")


def namer(kind):
    return [str, lambda i: "v_%d" % i, lambda i: "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[i % 26] * (1 + i // 26),
            lambda i: "n\u00e9 %d" % i, lambda i: "x" * (i + 1), lambda i: "__q__" + "q" * i][kind % 6]


def make(kind, names, backend=PY, data=None):
    cls = AdjacencyListGraphNode if kind == "list" else AdjacencyMatrixGraphNode
    return [cls(v, data(i) if data else i, backend=backend) for i, v in enumerate(names)]


def graph(kind, nodes, backend=PY):
    return Graph(*nodes, implementation="adjacency_" + kind, backend=backend)


def val(e):
    return None if e is None else e.value


def neighbor_names(g, v):
    nb = g.neighbors(v)
    out = sorted(w.name for w in nb)
    spoil(nb)
    return out


def snapshot(g, names):
    return ([neighbor_names(g, v) for v in names],
            [[val(g.get_edge(u, v)) for v in names] for u in names], g.num_vertices(), g.num_edges())


# costs as they are, as integers no float holds, as fractions, and as floats
SCALE = [lambda w: w, lambda w: int(4 * w) * (2 ** 70 + 1), lambda w: Fraction(w) / 3, float]


def gen_wt(r):
    return r.weighted((4, 0), (1, 1), (1, 2), (1, 3))


def ruin(answer):
    if isinstance(answer, Graph):
        for u in list(answer.vertices):
            for w in list(answer.neighbors(u)):
                answer.remove_edge(u, w.name)
    else:
        spoil(answer)


def disturb(g, kind, backend, spare, names, edges, how, both, call):
    """Runs call on the graph while it differs a little, so that what it answers later cannot be left over from then."""
    if not names:
        return
    def put(u, v, w):
        for a, b in [(u, v), (v, u)] if both else [(u, v)]:
            g.add_edge(a, b) if w is None else g.add_edge(a, b, w)

    def drop(u, v):
        for a, b in {(u, v), (v, u)} if both else [(u, v)]:
            g.remove_edge(a, b)

    def attempt():
        try:
            ruin(call(g, names))
        except Exception:
            pass
    if how % 2:                 # the answer for the graph itself, emptied
        attempt()
    how //= 2
    n, es = len(names), list(edges)
    old = es[how % len(es)] if es else None
    w = 1 if any(x is not None for x in edges.values()) else None
    new = next(((u, v) for i in range(n * n) for u, v in [(names[(how + i) % n], names[(how + i) // n % n])]
                if u != v and (u, v) not in edges and not (both and (v, u) in edges)), None)
    if how % 4 == 0 and old and edges[old] is not None:             # another cost
        put(*old, edges[old] + 1)
        attempt()
        put(*old, edges[old])
    elif how % 4 == 1 and new:                                      # an edge more
        put(*new, w)
        attempt()
        drop(*new)
    elif how % 4 == 2 and new and old:                              # one edge for another
        drop(*old)
        put(*new, w)
        attempt()
        drop(*new)
        put(*old, edges[old])
    elif how % 4 == 3 and kind == "list":                           # a vertex more
        g.add_vertex(make(kind, [spare], backend)[0])
        for a, b in ((spare, names[how % n]), (names[how % n], spare)):
            g.add_edge(a, b) if w is None else g.add_edge(a, b, w)
        attempt()
        g.remove_vertex(spare)


def build(case, kind, backend=PY, both=False, early=None):
    """A graph of the case's vertices and edges ([u, v, w] by number), after the additions and removals of its noise and
    the call of early, if given, on a graph that differs.  -> graph, names, {(u, v): w}"""
    wt = case.get("wt", 0) if backend is PY else 0
    nm = namer(case["names"])
    n = case["n"]
    names = [nm(i) for i in range(n)]
    g = graph(kind, make(kind, names, backend), backend)
    edges = {}
    noise = case.get("noise", 0)
    if noise and kind == "list":
        x = nm(n)
        for _ in range(2):
            g.add_vertex(make("list", [x], backend)[0])
            for i in range(n):
                if noise >> (i % 5) & 1:
                    g.add_edge(x, names[i], 1)
                    g.add_edge(names[i], x, 1)
            g.remove_vertex(x)
    for k, (u, v, w) in enumerate(case["edges"]):
        if not (0 <= u < n and 0 <= v < n):
            raise Invalid()
        if w is not None:
            w = INF if w == "inf" else SCALE[wt % 4](w)
        for a, b in ([(u, v), (v, u)] if both else [(u, v)]):
            if noise >> (k % 7) & 1 and a != b and (names[b], names[a]) not in edges and (names[a], names[b]) not in edges:
                g.add_edge(names[b], names[a], 3)
                g.remove_edge(names[b], names[a])
            if w is None:
                g.add_edge(names[a], names[b])
            else:
                g.add_edge(names[a], names[b], w)
            edges[names[a], names[b]] = w
    if early and noise % 3:
        disturb(g, kind, backend, nm(n), names, edges, noise // 3, both, early)
    return g, names, edges


def adjacency(names, edges):
    adj = {v: [] for v in names}
    for u, v in edges:
        adj[u].append(v)
    return adj


def gen_edges(r, n, wf, simple=False, loops=True):
    """Edges of one of several shapes; wf(r) draws a weight."""
    es, seen = [], set()

    def add(u, v):
        if u == v and not loops:
            return
        k = (min(u, v), max(u, v)) if simple else (u, v)
        if k in seen:
            return
        seen.add(k)
        es.append([u, v, wf(r)])
    shape = r.int(0, 5)
    p = r.shuffled(range(n))
    if shape == 0:
        for a, b in zip(p, p[1:]):
            add(a, b)
    elif shape == 1 and n > 1:
        for i in range(1, n):
            add(p[r.int(0, i - 1)], p[i])
    elif shape == 2:
        for a, b in zip(p, p[1:] + p[:1]):
            add(a, b)
    m = r.size(0, {3: n * n, 4: 2 * n}.get(shape, n))
    for _ in range(m):
        add(r.int(0, n - 1), r.int(0, n - 1))
    return r.shuffled(es)


def backend_kind(case):
    """0, 1: Python list and matrix; 2, 3: C++."""
    i = case["impl"] % 4
    return ("list", "matrix")[i % 2], be(i >= 2)


RULE_SCHED = " [schedules] the order in which the threads run is drawn too: tasks take turns after any line, reproducibly."


def only_parallel(gen, algs):
    """The cases of gen that run an algorithm in threads."""
    def g(r):
        c = gen(r)
        c["alg"] = r.choice(algs)
        return c
    return with_schedule(g)


# ------------------------------------------------------------------ long paths and cycles, solved in closed form

def gen_long(impls):
    def gen(r):
        return {"impl": r.int(0, impls - 1), "n": r.int(1100, 2400), "cycle": r.int(0, 1), "seed": r.int(0, 1 << 30), "alg": r.int(0, 6),
                "w": r.choice([1, 5, 10 ** 6]), "threads": r.int(1, 3)}
    return gen


def long_graph(case, both=False):
    """-> graph, its vertices in path order, {(u, v): w}; the graph holds the vertices in another order."""
    kind, backend = backend_kind(case)
    rnd = random.Random(case["seed"])
    n = max(2, min(case["n"], 4000))
    path = ["p%d" % i for i in range(n)]
    order = list(path)
    rnd.shuffle(order)
    g = graph(kind, make(kind, order, backend), backend)
    pairs = list(zip(path, path[1:])) + ([(path[-1], path[0])] if case["cycle"] % 2 else [])
    edges = {}
    es = [(u, v, rnd.randint(1, max(1, case["w"]))) for u, v in pairs]
    rnd.shuffle(es)
    for u, v, w in es:
        for a, b in [(u, v), (v, u)] if both else [(u, v)]:
            g.add_edge(a, b, w)
            edges[a, b] = w
    return g, path, edges


def run_long_search(dfs):
    def run(case, ctx):
        g, path, edges = long_graph(case)
        seen = []

        def op(u, v):
            seen.append((getattr(u, "name", u), getattr(v, "name", v)))
            return True
        if dfs:
            depth_first_search(g, path[0], op)
        elif case["alg"] % 3 == 0 and backend_kind(case)[1] is PY:
            breadth_first_search_parallel(g, path[0], max(1, case["threads"]), op)
        else:
            breadth_first_search(g, path[0], op, backend=backend_kind(case)[1])
        want = list(zip(path, path[1:]))
        eq([e for e in seen if e in edges and e[1] != path[0]], want, "discoveries along the path")
        eq([e for e in seen if e not in edges and e != (path[-1], "")], [], "calls for no edge")
        ctx.nontrivial()
    return run


def run_long_mst(case, ctx):
    alg, kind, backend, par = [("kruskal", "list", PY, 0), ("kruskal", "matrix", PY, 0), ("prim", "list", PY, 0), ("prim", "list", CPP, 0),
                               ("kruskal", "list", PY, 1), ("kruskal", "matrix", PY, 1), ("prim", "list", PY, 1)][case["alg"] % 7]
    case = dict(case, impl=(kind == "matrix") + 2 * (backend is CPP))
    g, path, edges = long_graph(case, True)
    t = (minimum_spanning_tree_parallel(g, alg, max(1, case["threads"])) if par else
         minimum_spanning_tree(g, alg, backend=backend))
    got = {}
    if backend is PY:
        for e in t.edge_weights.values():
            got[frozenset((e.source.name, e.target.name))] = e.value
    else:
        for u, v in edges:
            e = t.get_edge(u, v)
            if e is not None:
                got[frozenset((u, v))] = e.value
    costs = {frozenset(e): w for e, w in edges.items()}
    check(all(costs.get(e) == w for e, w in got.items()), "an edge that is not the graph's")
    eq(len(got), len(path) - 1, "edges of the spanning tree")
    eq(sum(got.values()), sum(costs.values()) - (max(costs.values()) if case["cycle"] % 2 else 0), "cost")
    ctx.label(alg)
    ctx.nontrivial()


def run_long_scc(case, ctx):
    g, path, edges = long_graph(dict(case, impl=case["impl"] % 2))
    got = strongly_connected_components(g, ("kosaraju", "tarjan")[case["alg"] % 2])
    want = [set(path)] if case["cycle"] % 2 else [{v} for v in path]
    eq(sorted(map(sorted, got)), sorted(map(sorted, want)), "components")
    ctx.nontrivial()


def run_long_sssp(case, ctx):
    alg = ("bellman_ford", "dijkstra")[case["alg"] % 3 == 0]
    case = dict(case, impl=case["impl"] % 2 if alg == "bellman_ford" else case["impl"] % 3, n=case["n"] if alg == "bellman_ford" else min(case["n"], 700))
    g, path, edges = long_graph(case)
    dist, pred = shortest_paths(g, alg, path[0], "", backend=backend_kind(case)[1])
    d = 0
    for u, v in zip(path, path[1:]):
        d += edges[u, v]
        eq(dist[v], d, "distance of %s", v)
        eq(pred[v], u, "predecessor of %s", v)
    ctx.label(alg)
    ctx.nontrivial()


def run_long_topo(case, ctx):
    g, path, edges = long_graph(dict(case, impl=0, n=case["n"] if case["alg"] % 2 else min(case["n"], 400)))
    run = (lambda: topological_sort(g, "kahn")) if case["alg"] % 2 else (lambda: topological_sort_parallel(g, "kahn", max(1, case["threads"])))
    if case["cycle"] % 2:
        raises(run, ValueError)
    else:
        eq(run(), path, "the only order")
    ctx.nontrivial()


def run_long_flow(case, ctx):
    g, path, edges = long_graph(dict(case, impl=case["impl"] % 2), bool(case["w"] == 5))
    want = min(edges[e] for e in zip(path, path[1:]))
    if case["cycle"] % 2 and case["w"] == 5:
        want += edges[path[0], path[-1]]
    eq(max_flow(g, path[0], path[-1], ("edmonds_karp", "dinic")[case["alg"] % 2]), want, "flow")
    ctx.nontrivial()


def run_long_bridges(case, ctx):
    g, path, edges = long_graph(dict(case, impl=case["impl"] % 2), bool(case["alg"] % 2))
    eq(find_bridges(g), [] if case["cycle"] % 2 else sorted(tuple(sorted(e)) for e in zip(path, path[1:])), "bridges")
    ctx.nontrivial()


# ------------------------------------------------------------------ G01, G02 the abstract data type

def gen_hist(static):
    def gen(r):
        pool = r.int(2, 6)
        ops = []
        for _ in range(r.size(2, 60)):
            op = r.weighted((7, "adde"), (3, "reme"), (0 if static else 3, "addv"), (0 if static else 1, "remv"), (1, "bad"))
            ops.append([op, r.int(0, pool), r.int(0, pool), r.weighted((2, None), (3, r.int(-9, 9)), (1, r.int(-20, 20) / 4), (1, 10 ** 12))])
        return {"be": r.int(0, 1), "names": r.int(0, 4), "pool": pool, "start": r.int(0, pool + 1),
                "pre": [[r.int(0, pool), r.int(0, pool)] for _ in range(r.size(0, 4) * r.int(0, 1))], "ops": ops}
    return gen


def run_hist(kind):
    def run(case, ctx):
        backend = be(case["be"])
        cpp = backend == CPP
        nm = namer(case["names"])
        names = [nm(i) for i in range(case["pool"] + 1)]
        k = len(names) - 1 if kind == "matrix" else min(case["start"], len(names))
        if k < 1 and kind == "matrix":
            raise Invalid()
        nodes = dict(zip(names, make(kind, names[:k], backend, data=lambda i: "d%d" % i)))
        edges = {}               # (u, v) -> the costs get_edge may report
        if kind == "list" and not cpp:
            for i in range(k):
                to = [j for a, j in case.get("pre", []) if a == i and j < k]
                if to:                  # a vertex that comes with its adjacent nodes
                    nodes[names[i]] = AdjacencyListGraphNode(names[i], "d%d" % i, adjacency_list=make(kind, [names[j] for j in dict.fromkeys(to)]))
                    edges.update({(names[i], names[j]): [None] for j in to})
                    ctx.label("vertices given with adjacent nodes")
        g = graph(kind, list(nodes.values()), backend)
        order = list(nodes)
        num = (lambda w: None if w is None else float(w)) if cpp and kind == "matrix" else (lambda w: w)
        removed = 0
        touched = set()

        def agree():
            eq(g.num_vertices(), len(nodes), "num_vertices")
            eq(g.num_edges(), len(edges), "num_edges")
            if not cpp:
                eq(list(g.vertices), order, "vertices")
            for u in names:
                if u in nodes:
                    nb = g.neighbors(u)
                    eq(sorted(w.name for w in nb), sorted(b for a, b in edges if a == u), "neighbors of %r", u)
                    for w in nb:
                        check(w is nodes[w.name], "a neighbor of %r is not the vertex %r itself", u, w.name)
                        eq(w.data, "d%d" % names.index(w.name), "data of %r", w.name)
                    spoil(nb)
                for v in names:
                    if u in nodes:
                        eqt(g.is_adjacent(u, v), (u, v) in edges, "is_adjacent(%r, %r)", u, v)
                    e = g.get_edge(u, v)
                    if (u, v) not in edges:
                        check(e is None, "get_edge(%r, %r) although there is no such edge", u, v)
                    else:
                        check(any(type(val(e)) is type(x) and val(e) == x for x in edges[u, v]), "cost of the edge (%r, %r): got %r, expected one of %r",
                              u, v, val(e), edges[u, v])
                        if e is not None and not cpp:
                            check(e.source is nodes[u] and e.target is nodes[v], "ends of the edge (%r, %r)", u, v)
                            eq(str(e), str((u, v)), "string form of an edge")
                        elif e is not None and not isinstance(e.value, float):
                            eq(str(e), "('%s', '%s', %s)" % (u, v, e.value), "string form of an edge")
        agree()
        for step, (op, i, j, w) in enumerate(case["ops"]):
            if not (0 <= i < len(names) and 0 <= j < len(names)):
                raise Invalid()
            u, v = names[i], names[j]
            if op == "addv" and kind == "list":
                x = make(kind, [u], backend, data=lambda _: "d%d" % i)[0]
                if u in nodes:
                    if cpp:
                        raises(lambda: g.add_vertex(x), ValueError)
                    else:
                        g.add_vertex(x)
                    ctx.label("added again")
                else:
                    g.add_vertex(x)
                    nodes[u] = x
                    order.append(u)
            elif op == "remv" and kind == "list":
                if u in nodes:
                    g.remove_vertex(u)
                    del nodes[u]
                    order.remove(u)
                    removed += any(u in e for e in edges)
                    edges = {e: c for e, c in edges.items() if u not in e}
                else:
                    raises(lambda: g.remove_vertex(u))
            elif op == "adde":
                add = (lambda: g.add_edge(u, v)) if w is None and step % 2 else (lambda: g.add_edge(u, v, w))
                if u in nodes and v in nodes:
                    add()
                    if w is None and (u, v) in edges:
                        edges[u, v] = edges[u, v] + [None]
                    else:
                        edges[u, v] = [num(w)]
                else:
                    raises(add, ValueError)
                    ctx.label("edge to an absent vertex")
            elif op == "reme":
                if (u, v) in edges:
                    g.remove_edge(u, v)
                    del edges[u, v]
                    removed += 1
                elif u in nodes and v in nodes:
                    try:                # refused or ignored, it changes nothing
                        g.remove_edge(u, v)
                    except (ValueError, KeyError):
                        pass
                    ctx.label("removed an absent edge")
            elif op == "bad":
                if kind == "matrix":
                    raises(lambda: g.add_vertex(make(kind, ["q"], backend)[0]), NotImplementedError, AttributeError)
                    raises(lambda: g.remove_vertex(names[0]), NotImplementedError, AttributeError)
                raises(lambda: g.add_edge("absent", u, w), ValueError)
                raises(lambda: g.add_edge(u, "absent", w), ValueError)
            touched.add(op)
            agree()
        ctx.label("C++" if cpp else "Python")
        ctx.nontrivial(removed > 0 and len(edges) > 1)
    return run


def ex_hist(static):
    ops = [["adde", 0, 1, 5], ["adde", 1, 0, None], ["adde", 0, 0, 7], ["reme", 0, 1, 0], ["reme", 1, 0, 0]]
    if not static:
        ops += [["addv", 1, 0, 0], ["remv", 1, 0, 0], ["remv", 0, 0, 0]]

    def ex():
        for n in (3, 4):
            for seq in itertools.product(ops, repeat=n):
                for b in (0, 1):
                    yield {"be": b, "names": 1, "pool": 2 if static else 1, "start": 2, "ops": [list(o) for o in seq]}
    return ex


NAMES = ["", "0", "-1", "None", "a b", "a.b", "v_1", "1_v", "_", "__", "__x__", "\u00e9\u4e2d", "class", "self", "x" * 300, "a-b", "1_2", "2", "1", "q", "weight", "'", "%s", "\n", "Name"]


def gen_names(r):
    names = r.sample(NAMES, r.int(1, 7))
    n = len(names)
    return {"be": r.int(0, 1), "vertices": names, "edges": gen_edges(r, n, lambda r: r.weighted((1, None), (3, r.int(0, 99)))), "drop": r.int(0, 30)}


def run_names(kind):
    def run(case, ctx):
        backend = be(case["be"])
        names = case["vertices"]
        if len(set(names)) < len(names) or not names:
            raise Invalid()
        if not case.get("any"):         # see known_findings.txt
            keys = [names[u] + "_" + names[v] for u, v, _ in case["edges"]]
            every = [u + "_" + v for u in names for v in names]
            if any(every.count(k) > 1 for k in keys):
                raise Invalid()
        g = graph(kind, make(kind, names, backend), backend)
        num = (lambda w: None if w is None else float(w)) if backend == CPP and kind == "matrix" else (lambda w: w)
        edges = {}

        def agree():
            eq(g.num_vertices(), len(names), "num_vertices")
            for u in names:
                eq(sorted(w.name for w in g.neighbors(u)), sorted(b for a, b in edges if a == u), "neighbors of %r", u)
                for v in names:
                    eq(bool(g.is_adjacent(u, v)), (u, v) in edges, "is_adjacent(%r, %r)", u, v)
                    eq(val(g.get_edge(u, v)), edges.get((u, v)), "cost of the edge (%r, %r)", u, v)
            eq(g.num_edges(), len(edges), "num_edges")
        agree()
        for u, v, w in case["edges"]:
            if w is None:
                g.add_edge(names[u], names[v])
            else:
                g.add_edge(names[u], names[v], w)
            edges[names[u], names[v]] = num(w)
        agree()
        if case["edges"]:
            u, v, _ = case["edges"][case["drop"] % len(case["edges"])]
            g.remove_edge(names[u], names[v])
            del edges[names[u], names[v]]
            agree()
        if kind == "list" and len(names) > 1:
            x = names[case["drop"] % len(names)]
            g.remove_vertex(x)
            names = [y for y in names if y != x]
            edges = {e: w for e, w in edges.items() if x not in e}
            agree()
        ctx.label("C++" if backend == CPP else "Python")
        ctx.nontrivial(len(edges) > 1 and len(names) > 2)
    return run


EXPLAIN = ("num_vertices, num_edges, vertices, neighbors (identity and data too), is_adjacent and get_edge of all pairs compared after every operation; "
           "non-trivial = an edge was removed, by itself or with its vertex, and at least two edges are left.")
prop("G01", Sub("list", gen_hist(False), run_hist("list"), quick=24000, shards=6, hyp=150),
     Sub("list_names", gen_names, run_names("list"), quick=12000, shards=2, hyp=50),
     Sub("list_small", gen_hist(False), run_hist("list"), quick=0, hyp=0, exhaust=ex_hist(False)),
     rule="histories of add_vertex, remove_vertex, add_edge (with and without cost, again, to absent vertices) and remove_edge on adjacency "
          "lists of both backends against sets, and graphs of vertices with peculiar names; " + EXPLAIN)
prop("G02", Sub("matrix", gen_hist(True), run_hist("matrix"), quick=24000, shards=6, hyp=150),
     Sub("matrix_names", gen_names, run_names("matrix"), quick=12000, shards=2, hyp=50),
     Sub("matrix_small", gen_hist(True), run_hist("matrix"), quick=0, hyp=0, exhaust=ex_hist(True)),
     rule="histories of add_edge (with and without cost, again, to absent vertices) and remove_edge on adjacency matrices of both backends "
          "against sets, and graphs of vertices with peculiar names; " + EXPLAIN)


# ------------------------------------------------------------------ G03, G04 searches

TRUTHY = [True, 1, "go", [0]]
FALSY = [False, None, 0, "", []]


class Stop(Exception):
    pass


def gen_search(big):
    def gen(r):
        n = r.int(1, big)
        return {"impl": r.int(0, 3), "names": r.int(0, 4), "n": n, "noise": r.int(0, 127) * r.int(0, 1), "edges": gen_edges(r, n, lambda r: None if r.int(0, 1) else 1),
                "src": r.int(0, n - 1), "stop": r.weighted((2, -1), (1, r.int(0, 2 * n))), "fl": r.int(0, 6), "extra": r.int(0, 3), "threads": r.int(1, 5)}
    return gen


def record(case, cpp):
    events, extra = [], [(), ("x",), (1, [2]), ("x", None, 3)][case["extra"] % 4]
    kw = {} if cpp or case["extra"] % 2 else {"backend": PY}
    opkw = {} if cpp or case["extra"] != 2 else {"flag": "k"}

    def op(cur, nxt, *args, **kwargs):
        eq(args, extra, "extra arguments of the operation")
        eq(kwargs, opkw, "keyword arguments of the operation")
        if cpp:
            cur, nxt = cur.name, nxt.name
        events.append((cur, nxt))
        if case["fl"] % 7 > 4 and len(events) - 1 == case["stop"]:
            raise Stop()
        return FALSY[case["fl"] % 7] if len(events) - 1 == case["stop"] else TRUTHY[len(events) % 4]
    return events, op, extra, dict(kw, **opkw)


def call_search(case, events, search):
    """The search returns None, or raises what its operation raised."""
    try:
        r = search()
    except Stop:
        check(case["fl"] % 7 > 4 and 0 <= case["stop"] < len(events))
    else:
        check(case["fl"] % 7 < 5 or not 0 <= case["stop"] < len(events), "the operation raised, the search did not")
        check(r is None, "the search returned %r", r)


def expect_serial(events, adj, src, stop, lifo, leaves):
    """events is a breadth- (depth-) first search of adj from src up to the call number stop, whatever the order of neighbors."""
    pending, seen, i = [src], {src}, 0
    while pending:
        cur = pending.pop() if lifo else pending.pop(0)
        want = set(adj[cur]) - seen
        if not adj[cur] and leaves:
            want = {""}
        while want:
            check(i < len(events), "the search ended before %r was expanded: %r", cur, events)
            check(events[i][0] == cur and events[i][1] in want, "call %d: got %r, expected %r with one of %r", i, events[i], cur, sorted(want))
            if events[i][1]:
                pending.append(events[i][1])
                seen.add(events[i][1])
            want.discard(events[i][1])
            i += 1
            if i - 1 == stop:
                eq(len(events), i, "calls after the operation refused")
                return
    eq(len(events), i, "number of calls")


def run_search(lifo):
    def run(case, ctx):
        kind, backend = backend_kind(case)
        if lifo:
            backend = PY
        cpp = backend == CPP
        search = depth_first_search if lifo else breadth_first_search
        g, names, edges = build(case, kind, backend, early=lambda g, names: search(
            g, names[case["src"]], lambda *a, **kw: True, **({"backend": CPP} if cpp else {})))
        adj = adjacency(names, edges)
        if not 0 <= case["src"] < len(names):
            raise Invalid()
        src = names[case["src"]]
        before = snapshot(g, names)
        events, op, extra, kw = record(case, cpp)
        if cpp:
            kw = {"backend": CPP}
        call_search(case, events, lambda: search(g, src, op, *extra, **kw))
        expect_serial(events, adj, src, case["stop"], lifo, leaves=not cpp)
        if cpp:
            raises(lambda: breadth_first_search(g, "absent", op, *extra, **kw), KeyError)
        eq(snapshot(g, names), before, "the graph after the search")
        ctx.label(kind, "C++" if cpp else "Python")
        if 0 <= case["stop"] < len(events):
            ctx.label("stopped")
        ctx.nontrivial(len({e[1] for e in events}) > 3)
    return run


def run_parallel_bfs(case, ctx):
    kind = ("list", "matrix")[case["impl"] % 2]
    if case["threads"] < 1:
        raise Invalid()
    g, names, edges = build(case, kind, early=lambda g, names: breadth_first_search_parallel(g, names[case["src"]], case["threads"], lambda *a: True))
    adj = adjacency(names, edges)
    if not 0 <= case["src"] < len(names):
        raise Invalid()
    src = names[case["src"]]
    before = snapshot(g, names)
    events, op, extra, kw = record(case, False)
    call_search(case, events, lambda: breadth_first_search_parallel(g, src, case["threads"], op, *extra, **kw))
    depth, layer = {src: 0}, [src]
    while layer:
        nxt = []
        for u in layer:
            for v in adj[u]:
                if v not in depth:
                    depth[v] = depth[u] + 1
                    nxt.append(v)
        layer = nxt
    seen = {src}
    for k, (u, v) in enumerate(events):
        check(u in depth, "%r is expanded, which cannot be reached", u)
        check(k == 0 or depth[events[k - 1][0]] <= depth[u], "call %d expands a vertex of an earlier layer", k)
        if v == "":
            check(not adj[u], "call %d: (%r, '') although %r has neighbors", k, u, u)
            check(events.count((u, "")) == 1, "%r is called twice with no neighbor", u)
        else:
            check(v in adj[u], "call %d: (%r, %r) is no edge", k, u, v)
            check(v not in seen, "call %d: %r is discovered again", k, v)
            eq(depth[v], depth[u] + 1, "layer of %r", v)
            seen.add(v)
    if 0 <= case["stop"] < len(events):
        for u, v in events[case["stop"] + 1:]:
            eq(depth[u], depth[events[case["stop"]][0]], "layer expanded after the operation refused")
        ctx.label("stopped")
    else:
        eq(seen, set(depth), "vertices discovered")
        eq({u for u, v in events if v == ""}, {u for u in depth if not adj[u]}, "vertices without neighbors")
    eq(snapshot(g, names), before, "the graph after the search")
    ctx.nontrivial(len(seen) > 3)


def ex_graphs(n, **kw):
    """All directed graphs on n vertices."""
    pairs = [(u, v) for u in range(n) for v in range(n)]

    def ex():
        for mask in range(1 << len(pairs)):
            es = [[u, v, 1] for k, (u, v) in enumerate(pairs) if mask >> k & 1]
            for impl in kw.get("impls", (0,)):
                yield dict({"impl": impl, "names": 0, "n": n, "noise": 0, "edges": es, "src": 0, "stop": -1, "fl": 0, "extra": 0,
                            "threads": 2, "alg": 0}, **{k: v for k, v in kw.items() if k != "impls"})
    return ex


prop("G03", Sub("bfs", gen_search(9), run_search(False), quick=32000, shards=4, hyp=150),
     Sub("bfs_big", gen_search(40), run_search(False), quick=2400, shards=1, hyp=0),
     Sub("bfs_long", gen_long(4), run_long_search(False), quick=12, hyp=0, cpu=60),
     Sub("bfs_parallel", gen_search(9), run_parallel_bfs, quick=6000, shards=3, hyp=50),
     Sub("bfs_schedules", with_schedule(gen_search(9)), under_schedule(run_parallel_bfs), quick=2000, shards=4, hyp=30),
     Sub("bfs_small", gen_search(4), run_search(False), quick=0, hyp=0, exhaust=ex_graphs(3, impls=(0, 1, 2, 3))),
     rule="random directed graphs (paths, trees, cycles, sparse and dense, self-loops) after additions and removals, lists and matrices of both "
          "backends, all directed graphs on 3 vertices; the calls of the operation are replayed against the definition; parallel search with 1 to 5 "
          "threads by layers; stops at a random call with five false values, or by an exception; non-trivial = at least four vertices are discovered." + RULE_SCHED)
prop("G04", Sub("dfs", gen_search(9), run_search(True), quick=32000, shards=6, hyp=150),
     Sub("dfs_long", gen_long(2), run_long_search(True), quick=8, hyp=0, cpu=60),
     Sub("dfs_big", gen_search(40), run_search(True), quick=2400, shards=1, hyp=0),
     Sub("dfs_small", gen_search(4), run_search(True), quick=0, hyp=0, exhaust=ex_graphs(3, impls=(0, 1))),
     rule="as for breadth-first search, in Python lists and matrices; non-trivial = at least four vertices are discovered.")


# ------------------------------------------------------------------ G05 minimum spanning trees

def weight(lo, hi):
    return lambda r: r.weighted((6, r.int(lo, hi)), (1, r.int(4 * lo, 4 * hi) / 4), (1, r.int(lo, lo + 2)))


def gen_mst(big):
    def gen(r):
        n = r.int(0, big)
        wf = weight(*r.choice([(1, 9), (-9, 9), (-10 ** 9, 10 ** 9), (0, 2)]))
        p = r.shuffled(range(n))
        es = [[p[r.int(0, i - 1)], p[i], wf(r)] for i in range(1, n)]
        seen = {(min(u, v), max(u, v)) for u, v, _ in es}
        for _ in range(r.size(0, r.choice([0, n, n * n])) if n else 0):
            u, v = r.int(0, n - 1), r.int(0, n - 1)
            if (min(u, v), max(u, v)) not in seen and (u != v or r.int(0, 3) == 0):
                seen.add((min(u, v), max(u, v)))
                es.append([u, v, wf(r)])
        return {"alg": r.int(0, 6), "names": r.int(0, 4), "n": n, "noise": r.int(0, 127) * r.int(0, 1), "edges": r.shuffled(es), "threads": r.int(1, 5),
                "wt": gen_wt(r)}
    return gen


MST = [("kruskal", "list", PY, 0), ("kruskal", "matrix", PY, 0), ("prim", "list", PY, 0), ("prim", "list", CPP, 0), ("kruskal", "list", PY, 1),
       ("kruskal", "matrix", PY, 1), ("prim", "list", PY, 1)]


def find(parent, x):
    while parent[x] != x:
        x = parent[x]
    return x


def usable(t, kind, backend, names, got):
    """The tree is a graph of its own: it takes vertices, edges and searches and gives them up again."""
    for u in names:
        for w in t.neighbors(u):
            eq(w.data, names.index(w.name), "data of the tree's node %r", w.name)
    all_names = list(names)
    tree = snapshot(t, names)
    if kind == "list":
        x = "new"
        all_names.append(x)
        t.add_vertex(make("list", [x], backend)[0])
        if names:
            t.add_edge(x, names[-1], 7)
            t.add_edge(names[0], x, 8)
            eq((t.get_edge(x, names[-1]).value, t.get_edge(names[0], x).value), (7, 8), "costs of edges added to the tree")
            eq(t.num_edges(), len(got) + 2, "num_edges of the tree with two edges added")
        eq(t.num_vertices(), len(names) + 1, "vertices of the tree with one added")
    if all_names:
        seen = []

        def note(u, v):
            seen.append(getattr(v or u, "name", v or u))
            return True
        breadth_first_search(t, all_names[-1], note, backend=backend)
        eq(sorted(set(seen) | {all_names[-1]}), sorted(all_names), "vertices found in the tree from %r", all_names[-1])
    if kind == "list":
        t.remove_vertex(all_names[-1])
        eq(snapshot(t, names), tree, "the tree after adding and removing a vertex")
    for u, v in got:
        t.remove_edge(u, v)
    eq((t.num_edges(), t.num_vertices()), (0, len(names)), "edges and vertices of the tree without its edges")


def run_mst(case, ctx):
    alg, kind, backend, par = MST[case["alg"] % 7]
    if case["threads"] < 1:
        raise Invalid()

    def span(g, names=None):
        if par:
            return minimum_spanning_tree_parallel(g, alg, case["threads"])
        return minimum_spanning_tree(g, alg, backend=backend)
    g, names, edges = build(case, kind, backend, both=True, early=span)
    parent = {v: v for v in names}
    total, links = 0, 0
    for (u, v), w in sorted(edges.items(), key=lambda e: e[1]):
        if find(parent, u) != find(parent, v):
            parent[find(parent, u)] = find(parent, v)
            total += w
            links += 1
    if links != max(len(names) - 1, 0):
        raise Invalid()
    before = snapshot(g, names)
    t = span(g)
    eq(t._impl, g._impl, "implementation of the tree")
    check(type(t) is type(g), "type of the tree")
    eq(t.num_vertices(), len(names), "vertices of the tree")
    if backend == PY:
        eq(sorted(t.vertices), sorted(names), "vertices of the tree")
    got = {}
    for u in names:
        for v in names:
            e = t.get_edge(u, v)
            if e is not None:
                check((u, v) in edges, "the tree's edge (%r, %r) is not in the graph", u, v)
                eqt(e.value, edges[u, v], "cost of the tree's edge (%r, %r)", u, v)
                got[u, v] = e.value
    for u, v in got:
        check((v, u) in got, "the tree has (%r, %r) in one direction only", u, v)
    eq(len(got), 2 * max(len(names) - 1, 0), "edges of the tree, both directions")
    parent = {v: v for v in names}
    for u, v in got:
        parent[find(parent, u)] = find(parent, v)
    eq(len({find(parent, v) for v in names}), min(len(names), 1), "components of the tree")
    eq(sum(got.values()), 2 * total, "cost of the tree")
    for u in names:
        eq(sorted(w.name for w in t.neighbors(u)), sorted(b for a, b in got if a == u), "neighbors of %r in the tree", u)
    eq(t.num_edges(), len(got), "num_edges of the tree")
    eq(snapshot(g, names), before, "the graph afterwards")
    usable(t, kind, backend, names, got)
    eq(snapshot(g, names), before, "the graph after changes to the tree")
    ctx.label("%s %s%s%s" % (alg, kind, " C++" if backend == CPP else "", " parallel" if par else ""))
    ctx.nontrivial(len(edges) > 2 * len(names) and len(names) > 3)


prop("G05", Sub("mst", gen_mst(8), run_mst, quick=16000, shards=6, hyp=100),
     Sub("mst_long", gen_long(4), run_long_mst, quick=14, hyp=0, cpu=60),
     Sub("mst_big", gen_mst(25), run_mst, quick=1600, shards=2, hyp=0),
     Sub("mst_schedules", only_parallel(gen_mst(7), [4, 5, 6]), under_schedule(run_mst), quick=1200, shards=4, hyp=30),
     rule="random connected undirected graphs (trees to complete graphs, ties, negative, integer and fractional costs, integers no float holds, self-loops) after additions "
          "and removals, by each of the seven algorithms (Kruskal and Prim, list and matrix, Python and C++, sequential and with 1 to 5 threads); "
          "the result is a spanning tree of the graph's edges whose cost is that of an independent Kruskal; non-trivial = a graph with cycles on at least four vertices." + RULE_SCHED)


# ------------------------------------------------------------------ G06 strongly connected components

def gen_digraph(big, algs, wf=lambda r: None):
    def gen(r):
        n = r.int(1, big)
        return {"alg": r.int(0, algs - 1), "names": r.int(0, 4), "n": n, "noise": r.int(0, 127) * r.int(0, 1), "edges": gen_edges(r, n, wf), "threads": r.int(1, 5),
                "src": r.int(0, n - 1), "tgt": r.int(-1, n - 1), "wt": gen_wt(r)}
    return gen


def reach(names, adj):
    out = {}
    for u in names:
        seen, st = {u}, [u]
        while st:
            for v in adj[st.pop()]:
                if v not in seen:
                    seen.add(v)
                    st.append(v)
        out[u] = seen
    return out


def run_scc(case, ctx):
    kind = ("list", "matrix")[case["alg"] % 2]
    alg = ("kosaraju", "tarjan")[case["alg"] // 2 % 2]
    g, names, edges = build(case, kind, early=lambda g, names: strongly_connected_components(g, alg))
    rc = reach(names, adjacency(names, edges))
    want = {frozenset(v for v in rc[u] if u in rc[v]) for u in names}
    before = snapshot(g, names)
    got = strongly_connected_components(g, alg)
    for c in got:
        check(isinstance(c, set), "a component is a %s", type(c).__name__)
    eq(sorted(sorted(c) for c in got), sorted(sorted(c) for c in want), "components")
    eq(snapshot(g, names), before, "the graph afterwards")
    ctx.label(alg, kind)
    ctx.nontrivial(len(want) > 1 and max(map(len, want)) > 1)


prop("G06", Sub("scc", gen_digraph(9, 4), run_scc, quick=40000, shards=6, hyp=150),
     Sub("scc_long", gen_long(2), run_long_scc, quick=12, hyp=0, cpu=60),
     Sub("scc_big", gen_digraph(60, 4), run_scc, quick=1600, shards=2, hyp=0),
     Sub("scc_small", gen_digraph(4, 4), run_scc, quick=0, hyp=0, exhaust=lambda: itertools.chain(
         *(ex_graphs(n, alg=a)() for n in (0, 1, 2, 3) for a in range(4)))),
     rule="random directed graphs after additions and removals, lists and matrices, both algorithms, all directed graphs on up to 3 vertices, against mutual "
          "reachability; non-trivial = several components, one of at least two vertices.")


# ------------------------------------------------------------------ G07 single-source shortest paths

def true_dist(names, edges, src):
    """-> distances, or None if a negative cycle can be reached."""
    d = {v: INF for v in names}
    d[src] = 0
    for k in range(len(names) + 1):
        ch = False
        for (u, v), w in edges.items():
            if d[u] + w < d[v]:
                d[v] = d[u] + w
                ch = True
        if not ch:
            return d
    return None


SSSP = [("dijkstra", "list", PY), ("dijkstra", "matrix", PY), ("dijkstra", "list", CPP), ("bellman_ford", "list", PY), ("bellman_ford", "matrix", PY)]


def gen_sssp(big):
    def gen(r):
        alg = r.int(0, 4)
        wf = weight(*r.choice([(0, 9), (1, 10 ** 9), (0, 1)])) if alg < 3 else weight(*r.choice([(-3, 9), (-1, 9), (-9, 9), (0, 9)]))
        if alg > 2 and r.int(0, 1):         # costs by potentials: negative ones, but no negative cycle
            h = [r.int(-20, 20) for _ in range(big)]
            c = gen_digraph(big, 1, weight(0, 9))(r)
            c["edges"] = [[u, v, w + h[u] - h[v]] for u, v, w in c["edges"]]
        elif r.int(0, 7) == 0:              # the more edges a path has the less it costs: distances improve again and again
            c = gen_digraph(big, 1, wf)(r)
            c["n"] = n = r.int(2, big)
            h = [r.int(-20, 20) if alg > 2 else 0 for _ in range(n)]
            p = r.shuffled(range(n))
            s = r.choice([1, 10])
            es = [(i, j) for i in range(n) for j in range(i + 1, n) if j == i + 1 or r.int(0, 5)]
            es.sort(key=lambda e: (e[0], r.choice([0, -e[1], r.int(0, 99)])))
            if r.bool():
                es = r.shuffled(es)
            c["edges"] = [[p[i], p[j], s * (j - i) ** 2 + h[p[i]] - h[p[j]] + r.int(0, s // 2)] for i, j in es]
            c["src"] = p[0]
        else:
            c = gen_digraph(big, 1, wf)(r)
        c["alg"] = alg
        return c
    return gen


def check_pred(names, edges, src, d, pred, msg=""):
    eq(set(pred), set(names), "vertices with a predecessor entry")
    for v in names:
        if v == src or d[v] == INF:
            check(pred[v] is None, "predecessor of %r is %r", v, pred[v])
        else:
            p, seen = v, set()
            while p != src:
                check(p not in seen, "the predecessors of %r never reach the source", v)
                seen.add(p)
                q = pred[p]
                check((q, p) in edges, "the predecessor of %r is %r, but there is no such edge", p, q)
                eq(d[q] + edges[q, p], d[p], "cost of reaching %r through its predecessor %r", p, q)
                p = q


def run_sssp(case, ctx):
    alg, kind, backend = SSSP[case["alg"] % 5]
    g, names, edges = build(case, kind, backend, early=lambda g, names: shortest_paths(g, alg, names[case["src"]], backend=backend))
    if any(w is None or (w < 0 and alg == "dijkstra") for w in edges.values()) or not 0 <= case["src"] < len(names):
        raise Invalid()
    src = names[case["src"]]
    d = true_dist(names, edges, src)
    before = snapshot(g, names)
    if backend == CPP and not (case["tgt"] + 1) % 3:
        raises(lambda: shortest_paths(g, alg, "absent", backend=CPP), KeyError)
        raises(lambda: shortest_paths(g, alg, src, "absent", backend=CPP), KeyError)
        ctx.label("absent vertex")
    tgt = names[case["tgt"]] if 0 <= case["tgt"] < len(names) else ""
    args = (g, alg, src) + ((tgt,) if tgt else ())
    if d is None:
        raises(lambda: shortest_paths(*args), ValueError)
        ctx.label("negative cycle")
    else:
        dist, pred = shortest_paths(*args, backend=backend)
        if tgt:
            eq(dist, d[tgt], "distance to %r", tgt)
        else:
            eq(dist, d, "distances")
        check_pred(names, edges, src, d, pred)
        ctx.nontrivial(sum(x < INF for x in d.values()) > 3 and len(edges) > 4)
        if INF in d.values():
            ctx.label("unreachable vertices")
    eq(snapshot(g, names), before, "the graph afterwards")
    ctx.label("%s %s%s" % (alg, kind, " C++" if backend == CPP else ""))


prop("G07", Sub("sssp", gen_sssp(8), run_sssp, quick=32000, shards=6, hyp=150),
     Sub("sssp_long", gen_long(3), run_long_sssp, quick=10, hyp=0, cpu=60),
     Sub("sssp_big", gen_sssp(25), run_sssp, quick=2400, shards=2, hyp=0),
     rule="random directed graphs with costs of several types (non-negative for Dijkstra; negative, with and without negative cycles, for Bellman-Ford) "
          "after additions and removals, lists and matrices, Dijkstra in C++ too, with and without a target, against relaxing all edges; the predecessors are followed "
          "back to the source; non-trivial = at least four vertices reached and five edges, no negative cycle.")


# ------------------------------------------------------------------ G08 all pairs

APSP = [("floyd_warshall", "list"), ("floyd_warshall", "matrix"), ("johnson", "list")]


def gen_apsp(big):
    def gen(r):
        h = [r.int(-20, 20) for _ in range(big)]
        c = gen_digraph(big, 3, weight(*r.choice([(0, 9), (1, 10 ** 6), (0, 1)])))(r)
        if r.int(0, 2):
            c["edges"] = [[u, v, w + h[u] - h[v]] for u, v, w in c["edges"]]
        elif r.int(0, 3) == 0:
            c["edges"] = [[u, v, w - 3] for u, v, w in c["edges"]]
        if r.int(0, 15) == 0:
            c["names"] = 5          # the name of the vertex that Johnson's algorithm adds
        return c
    return gen


def run_apsp(case, ctx):
    alg, kind = APSP[case["alg"] % 3]
    g, names, edges = build(case, kind, early=lambda g, names: all_pair_shortest_paths(g, alg))
    if any(w is None for w in edges.values()):
        raise Invalid()
    d = {u: true_dist(names, edges, u) for u in names}
    before = snapshot(g, names)
    if None in d.values():
        if alg == "johnson":
            raises(lambda: all_pair_shortest_paths(g, alg), ValueError)
            eq(snapshot(g, names), before, "the graph after a refusal")
            eq(sorted(g.vertices), sorted(names), "vertices after a refusal")
        ctx.label("negative cycle")
        return
    dist, pred = all_pair_shortest_paths(g, alg)
    eq(set(dist), set(names), "sources")
    for u in names:
        check(set(dist[u]) <= set(names), "targets of %r", u)
        for v in names:
            eq(dist[u].get(v, INF), d[u][v], "distance from %r to %r", u, v)
            p = pred[u].get(v)
            if p is not None and d[u][v] < INF and u != v:
                check((p, v) in edges, "the predecessor from %r to %r is %r, but there is no such edge", u, v, p)
                eq(d[u][p] + edges[p, v], d[u][v], "cost from %r to %r through the predecessor %r", u, v, p)
    eq(snapshot(g, names), before, "the graph afterwards")
    eq(sorted(g.vertices), sorted(names), "vertices afterwards")
    ctx.label("%s %s" % (alg, kind))
    if any(w < 0 for w in edges.values()):
        ctx.label("negative costs")
    ctx.nontrivial(sum(x < INF for u in names for x in d[u].values()) > 2 * len(names) and len(names) > 2)


def ex_apsp():
    """All graphs on up to two vertices, loops included, and on three without, with costs from a few."""
    for n, costs, loops in ((0, [None], 1), (1, [None, -2, 0, 1], 1), (2, [None, -2, 0, 1, 3], 1), (3, [None, -1, 2], 0)):
        pairs = [(u, v) for u in range(n) for v in range(n) if loops or u != v]
        for ws in itertools.product(costs, repeat=len(pairs)):
            for alg in range(3):
                yield {"alg": alg, "names": 0, "n": n, "noise": 0, "edges": [[u, v, w] for (u, v), w in zip(pairs, ws) if w is not None]}


prop("G08", Sub("apsp", gen_apsp(7), run_apsp, quick=16000, shards=6, hyp=100),
     Sub("apsp_small", gen_apsp(4), run_apsp, quick=0, hyp=0, shards=2, exhaust=ex_apsp),
     Sub("apsp_big", gen_apsp(15), run_apsp, quick=1200, shards=2, hyp=0),
     rule="random directed graphs with costs of several types, negative ones, and mostly no negative cycle after additions and removals, Floyd-Warshall on lists and matrices and Johnson "
          "on lists, against single-source relaxation from every vertex; Johnson's refusal of negative cycles; non-trivial = at least two proper pairs connected per vertex.")


# ------------------------------------------------------------------ G09 topological sorting

def gen_topo(big):
    def gen(r):
        c = gen_digraph(big, 2, lambda r: r.choice([None, 1]))(r)
        if r.int(0, 3):
            p = r.shuffled(range(c["n"]))
            c["edges"] = [[u, v, w] if p[u] < p[v] else [v, u, w] for u, v, w in c["edges"] if u != v]
        return c
    return gen


def run_topo(case, ctx):
    if case["threads"] < 1:
        raise Invalid()
    par = case["alg"] % 2
    g, names, edges = build(case, "list", early=lambda g, names: topological_sort_parallel(g, "kahn", case["threads"]) if par else topological_sort(g, "kahn"))
    adj = adjacency(names, edges)
    rc = reach(names, adj)
    cyclic = any(u in rc[v] for u in names for v in adj[u])
    before = snapshot(g, names)
    run = (lambda: topological_sort_parallel(g, "kahn", case["threads"])) if par else (lambda: topological_sort(g, "kahn"))
    ctx.label("parallel" if par else "serial", "cyclic" if cyclic else "acyclic")
    if cyclic:
        raises(run, ValueError)
    else:
        out = run()
        eq(sorted(out), sorted(names), "vertices in the order")
        pos = {v: i for i, v in enumerate(out)}
        for u, v in edges:
            check(pos[u] < pos[v], "%r comes after %r: %r", u, v, out)
        ctx.nontrivial(len(edges) > 3 and len(names) > 3)
    eq(snapshot(g, names), before, "the graph afterwards")
    eq(sorted(g.vertices), sorted(names), "vertices afterwards")


prop("G09", Sub("topo", gen_topo(9), run_topo, quick=20000, shards=6, hyp=100),
     Sub("topo_long", gen_long(1), run_long_topo, quick=8, hyp=0, cpu=60),
     Sub("topo_big", gen_topo(40), run_topo, quick=1600, shards=2, hyp=0),
     Sub("topo_schedules", only_parallel(gen_topo(9), [1]), under_schedule(run_topo), quick=2000, shards=4, hyp=30),
     Sub("topo_small", gen_topo(4), run_topo, quick=0, hyp=0, exhaust=lambda: itertools.chain(*(ex_graphs(n, alg=a)() for n in (0, 1, 2, 3) for a in range(2)))),
     rule="random acyclic and cyclic directed graphs after additions and removals, all directed graphs on 3 vertices, sequential and with 1 to 5 threads; the result is "
          "a permutation in which every edge goes forward, or ValueError exactly for cyclic graphs; non-trivial = acyclic with at least four edges." + RULE_SCHED)


# ------------------------------------------------------------------ G10 maximum flow

def gen_flow(big):
    def gen(r):
        n = r.int(2, big)
        hi = r.choice([1, 4, 20, 10 ** 9])
        wf = (lambda r: r.int(0, hi)) if r.int(0, 3) else (lambda r: r.int(0, 4 * hi) / 4)
        s, t = r.sample(range(n), 2)
        es = gen_edges(r, n, wf)
        if r.int(0, 1):                     # more of a network: in layers from s to t
            p = [s] + r.shuffled([x for x in range(n) if x not in (s, t)]) + [t]
            seen = {(u, v) for u, v, _ in es}
            for i in range(n):
                for _ in range(2):
                    j = r.int(0, n - 1)
                    a, b = p[min(i, j)], p[max(i, j)]
                    if a != b and (a, b) not in seen:
                        seen.add((a, b))
                        es.append([a, b, wf(r)])
        if r.int(0, 3) == 0:                # inner edges that never fill up
            es = [[u, v, "inf" if r.int(0, 3) == 0 and u != s and v != t else w] for u, v, w in es]
        return {"alg": r.int(0, 3), "names": r.int(0, 4), "n": n, "noise": r.int(0, 127) * r.int(0, 1), "edges": es, "src": s, "tgt": t,
                "wt": gen_wt(r)}
    return gen


def gen_traps(r):
    """Short routes from s to t over an edge u -> v fill up first; long ways round to v and from u then need that flow sent back."""
    es, n = [], 2
    for _ in range(r.int(1, 3)):
        u, v = n, n + 1
        n += 2
        hi = r.choice([1, 2, 5, 40])
        es.append([u, v, r.int(1, 3 * hi)])

        def way(a, b, hops):
            nonlocal n
            for i in range(hops):
                c = b if i == hops - 1 else n
                n += i < hops - 1
                es.append([a, c, r.int(1, hi)])
                a = c
        for _ in range(r.int(1, 3)):
            way(0, u, 2)
            way(v, 1, 2)
        for _ in range(r.int(0, 2)):
            way(0, v, r.int(4, 6))
            way(u, 1, r.int(4, 6))
    for _ in range(r.int(0, 4)):
        a, b = r.int(0, n - 1), r.int(0, n - 1)
        if a != b and all(e[:2] != [a, b] for e in es):
            es.append([a, b, r.int(0, 6)])
    es = [e for i, e in enumerate(es) if all(e[:2] != f[:2] for f in es[:i])]
    return {"alg": r.int(0, 3), "names": r.int(0, 4), "n": n, "noise": 0, "edges": r.shuffled(es), "src": 0, "tgt": 1, "wt": gen_wt(r)}


def flow_value(names, edges, s, t):
    """Maximum flow by augmenting along any path, certified by a cut of the same capacity."""
    left = {u: {} for u in names}
    for (u, v), w in edges.items():
        if u != v:
            left[u][v] = left[u].get(v, 0) + w
            left[v].setdefault(u, 0)
    total = 0
    while True:
        pred, todo = {s: None}, [s]
        while todo and t not in pred:
            u = todo.pop()
            for v, c in left[u].items():
                if c > 0 and v not in pred:
                    pred[v] = u
                    todo.append(v)
        if t not in pred:
            break
        path = []
        v = t
        while v != s:
            path.append((pred[v], v))
            v = pred[v]
        c = min(left[u][v] for u, v in path)
        for u, v in path:
            left[u][v] -= c
            left[v][u] += c
        total += c
    cut = sum(w for (u, v), w in edges.items() if u in pred and v not in pred)
    if cut != total:
        raise AssertionError("the model's flow %r and cut %r differ" % (total, cut))
    return total


def run_flow(case, ctx):
    kind = ("list", "matrix")[case["alg"] % 2]
    alg = ("edmonds_karp", "dinic")[case["alg"] // 2 % 2]
    g, names, edges = build(case, kind, early=lambda g, names: max_flow(g, names[case["src"]], names[case["tgt"]], alg))
    n = len(names)
    if not (0 <= case["src"] < n and 0 <= case["tgt"] < n) or case["src"] == case["tgt"] or any(w is None or w < 0 for w in edges.values()):
        raise Invalid()
    s, t = names[case["src"]], names[case["tgt"]]
    if n > 7:
        want = flow_value(names, edges, s, t)
    else:
        rest = [v for v in names if v not in (s, t)]
        bit = {v: 1 << i for i, v in enumerate(rest)}
        bit[s], bit[t] = 0, 0
        want = INF
        for mask in range(1 << len(rest)):
            inside = lambda v: v == s or (v != t and mask & bit[v])
            want = min(want, sum(w for (u, v), w in edges.items() if inside(u) and not inside(v)))
    if want == INF:
        raise Invalid()
    before = snapshot(g, names)
    got = max_flow(g, s, t, alg)
    eq(got, want, "maximum flow from %r to %r", s, t)
    eq(snapshot(g, names), before, "the graph afterwards")
    ctx.label(alg, kind)
    if INF in edges.values():
        ctx.label("infinite capacities")
    ctx.nontrivial(want > 0 and len(edges) > 4)


prop("G10", Sub("flow", gen_flow(6), run_flow, quick=24000, shards=6, hyp=150),
     Sub("flow_long", gen_long(2), run_long_flow, quick=10, hyp=0, cpu=60),
     Sub("flow_big", gen_flow(40), run_flow, quick=1600, shards=2, hyp=0),
     Sub("flow_traps", gen_traps, run_flow, quick=6000, shards=4, hyp=100),
     rule="random networks (both directions between vertices, self-loops, edges into the source and out of the sink, zero, fractional, huge and infinite capacities) after additions and "
          "removals, lists and matrices, both algorithms, and networks in which flow must be sent back, against the minimum over all cuts or "
          "a flow certified by a cut; non-trivial = a positive flow in a network of at least five edges.")


# ------------------------------------------------------------------ G11 bridges

def gen_bridges(big):
    def gen(r):
        n = r.int(1, big)
        return {"alg": r.int(0, 1), "both": r.int(0, 2), "names": r.int(0, 4), "n": n, "noise": r.int(0, 127) * r.int(0, 1),
                "edges": gen_edges(r, n, lambda r: None, simple=True)}
    return gen


def components(names, pairs):
    parent = {v: v for v in names}
    for u, v in pairs:
        parent[find(parent, u)] = find(parent, v)
    return len({find(parent, v) for v in names})


def run_bridges(case, ctx):
    kind = ("list", "matrix")[case["alg"] % 2]
    g, names, edges = build(case, kind, both=case["both"] == 1, early=lambda g, names: find_bridges(g))
    und = sorted({(min(e), max(e)) for e in edges})
    c = components(names, und)
    want = [e for e in und if components(names, [f for f in und if f != e]) > c]
    before = snapshot(g, names)
    eq(find_bridges(g), want, "bridges")
    eq(snapshot(g, names), before, "the graph afterwards")
    ctx.label(kind, "both directions" if case["both"] == 1 else "one direction")
    ctx.nontrivial(want and len(want) < len(und))


def ex_bridges():
    """All undirected graphs on up to five vertices."""
    for n in range(6):
        pairs = list(itertools.combinations(range(n), 2))
        for mask in range(1 << len(pairs)):
            es = [[u, v, None] for k, (u, v) in enumerate(pairs) if mask >> k & 1]
            for alg in range(2):
                yield {"alg": alg, "both": mask % 2, "names": 0, "n": n, "noise": 0, "edges": es}


prop("G11", Sub("bridges", gen_bridges(9), run_bridges, quick=32000, shards=6, hyp=150),
     Sub("bridges_long", gen_long(2), run_long_bridges, quick=10, hyp=0, cpu=60),
     Sub("bridges_small", gen_bridges(4), run_bridges, quick=0, hyp=0, shards=2, exhaust=ex_bridges),
     Sub("bridges_big", gen_bridges(30), run_bridges, quick=1600, shards=2, hyp=0),
     rule="random undirected graphs, each edge added in both directions or in one, after additions and removals, lists and matrices, against counting the components "
          "without each edge; non-trivial = some edges are bridges and some are not.")


# ------------------------------------------------------------------ G12 nodes and edges

DATA = [None, 0, -7, 2 ** 40, 1.5, "text", "", [1, 2], (1,), True, False, 2 ** 63 - 1, 2 ** 63, -2 ** 70, "a\0b", "\ud800", "\u20ac"]


def gen_nodes(r):
    return {"be": r.int(0, 1), "cls": r.int(0, 1), "names": r.int(0, 4), "data": r.int(0, len(DATA) - 1), "init": r.int(0, 4),
            "ops": [[r.weighted((3, "add"), (3, "rem"), (2, "data"), (1, "edge")), r.int(0, 6), r.int(0, len(DATA) - 1)] for _ in range(r.size(0, 15))]}


def run_nodes(case, ctx):
    backend = be(case["be"])
    cpp = backend == CPP
    nm = namer(case["names"])
    data = DATA[case["data"] % len(DATA)]
    if case["cls"]:
        x = AdjacencyMatrixGraphNode("me", data, backend=backend)
    else:
        given = [AdjacencyListGraphNode(nm(i), "d%d" % i, backend=backend) for i in range(case["init"])]
        kept = list(given)
        x = AdjacencyListGraphNode("me", data, adjacency_list=given, backend=backend)
        adj = {n.name: n.data for n in given}

    def same(a, b):
        eqt(a, b, "data")

    def agree():
        eq(x.name, "me", "name")
        same(x.data, data)
        if not cpp or not (isinstance(data, float) or isinstance(data, str) and repr(data)[1:-1] != data):
            # C++ prints a float with six decimals, and escapes nothing
            eq(str(x), str(("me", data)), "string form")
        if not case["cls"]:
            eq(sorted(x.adjacent), sorted(adj), "adjacent")
            for k, v in adj.items():
                n = x.adjacent[k] if cpp else getattr(x, k)
                eq(n.name, k, "name of the adjacent node %r", k)
                same(n.data, v)
            eq(given, kept, "the caller's list")
    agree()
    changes = 0
    for op, i, j in case["ops"]:
        k, v = nm(i), DATA[j % len(DATA)]
        if op == "data":
            x.data = v
            data = v
        elif op == "edge":
            y = (AdjacencyMatrixGraphNode if case["cls"] else AdjacencyListGraphNode)(k, v, backend=backend)
            w = v if v is None or type(v) in (int, float, str) else 5
            if cpp and (type(w) is int and abs(w) >= 2 ** 63 or type(w) is str and w in ("a\0b", "\ud800")):
                try:                            # what the C++ edge can't hold
                    e = GraphEdge(x, y, w, backend=backend)
                except (OverflowError, ValueError):
                    ctx.label("value refused")
                    continue
                eqt(e.value, w, "value of an edge")
            e = GraphEdge(x, y, w, backend=backend)
            eqt(e.value, w, "value of an edge")
            e.value = 17
            eqt(e.value, 17, "value of an edge")
            if not cpp:
                check(e.source is x and e.target is y, "ends of an edge")
                eq(str(e), str(("me", k)), "string form of an edge")
            else:
                eq(str(e), "('me', '%s', 17)" % k, "string form of an edge")
        elif case["cls"]:
            continue
        elif op == "add":
            if k in adj and cpp:
                continue
            x.add_adjacent_node(k, v)
            adj[k] = v
            changes += 1
        elif op == "rem":
            if k in adj:
                x.remove_adjacent_node(k)
                del adj[k]
                changes += 1
            else:
                raises(lambda: x.remove_adjacent_node(k), ValueError)
        agree()
    ctx.label("C++" if cpp else "Python", "matrix" if case["cls"] else "list")
    ctx.nontrivial(changes > 1 or case["cls"] and len(case["ops"]) > 3)


prop("G12", Sub("nodes", gen_nodes, run_nodes, quick=48000, shards=6, hyp=150),
     rule="histories of adding and removing adjacent nodes and of setting data of seventeen kinds on graph nodes of both kinds and backends, and edges made of them; "
          "non-trivial = two changes of adjacency, or four operations on a matrix node.")
