import zlib, math
import itertools, random
from ..core import prop, Sub, big, huge, check, eq, raises
from ..util import eqt, datum
from pydatastructs import (SinglyLinkedList, DoublyLinkedList, SinglyCircularLinkedList,
                           DoublyCircularLinkedList, SkipList)

KINDS = {"s": (SinglyLinkedList, False, False), "d": (DoublyLinkedList, True, False),
         "sc": (SinglyCircularLinkedList, False, True), "dc": (DoublyCircularLinkedList, True, True)}


def gen_ll(kinds):
    def gen(r):
        return {"kind": r.int(0, len(kinds) - 1),
                "ops": [[r.weighted((3, "at"), (3, "neg"), (2, "app"), (2, "appl"), (2, "after"), (2, "before"),
                                    (4, "ext"), (2, "extneg"), (1, "popl"), (1, "popr"), (2, "search"),
                                    (1, "bad"), (1, "set")),
                         r.int(0, 12 * r.k), r.int(0, 9)] for _ in range(r.size(0, 24))]}
    return gen


def ex_ll(kinds):
    """Every sequence of four operations out of a small alphabet."""
    alpha = [["at", 0, 0], ["at", 1, 0], ["neg", 0, 0], ["neg", 1, 0], ["app", 0, 0], ["appl", 0, 0], ["after", 0, 0],
             ["after", 9, 0], ["before", 0, 0], ["before", 9, 0], ["ext", 0, 0], ["ext", 1, 0], ["extneg", 0, 0],
             ["popl", 0, 0], ["popr", 0, 0], ["bad", 1, 0]]

    def it():
        for k in range(len(kinds)):
            for n in range(1, 5):
                for seq in itertools.product(alpha, repeat=n):
                    yield {"kind": k, "ops": [[o, i, j] for j, (o, i, _) in enumerate(seq)]}
    return it


def run_ll(kinds):
    def run(case, ctx):
        cls, double, circ = KINDS[kinds[case["kind"] % len(kinds)]]
        l = cls()
        m = []                      # [(key, data)]
        ctx.label(cls.__name__)

        def agree():
            n = len(m)
            eq(len(l), n, "len")
            eq(l.size, n, "size")
            eq(l.is_empty, n == 0, "is_empty")
            eq(str(l), str([str(kd) for kd in m]), "str")
            if n == 0:
                check(l.head is None, "an empty list has a head")
                return
            nodes, x = [], l.head
            for i in range(n):
                check(x is not None, "the chain of next links ends after %d of %d nodes", i, n)
                nodes.append(x)
                x = x.next
            eq([(y.key, y.data) for y in nodes], m, "contents along next")
            check(x is (l.head if circ else None), "the last node's next is wrong")
            check(l.tail is nodes[-1], "tail is not the last node")
            if double:
                y = l.tail
                back = []
                for i in range(n):
                    check(y is not None, "the chain of prev links ends after %d of %d nodes", i, n)
                    back.append(y)
                    y = y.prev
                check(all(p is q for p, q in zip(back[::-1], nodes)), "the prev links do not mirror the next links")
                check(y is (l.tail if circ else None), "the first node's prev is wrong")
            for i in range(n) if n < 150 else (0, 1, 2, n // 3, n // 2, 2 * n // 3, n - 3, n - 2, n - 1):
                check(l[i] is nodes[i], "l[%d]", i)
                check(l[i - n] is nodes[i], "l[%d]", i - n)

        cnt = 100
        every = case.get("every", 1)
        for step, (op, i, k) in enumerate(case["ops"], 1):
            n = len(m)
            cnt += 1
            kd = (k, datum(cnt))
            if op == "at":
                j = i % (n + 1)
                l.insert_at(j, *kd)
                m.insert(j, kd)
            elif op == "neg":
                j = -1 - i % n if n else -1
                l.insert_at(j, *kd)
                m.insert(j, kd)
                ctx.nontrivial(n > 0)
            elif op == "app":
                l.append(*kd)
                m.append(kd)
            elif op == "appl":
                l.appendleft(*kd)
                m.insert(0, kd)
            elif op == "after" and n:
                j = min(i, n - 1)
                l.insert_after(l[j], *kd)
                m.insert(j + 1, kd)
            elif op == "before" and n and double:
                j = min(i, n - 1)
                l.insert_before(l[j], *kd)
                m.insert(j, kd)
            elif op in ("ext", "extneg", "popl", "popr"):
                if not n:
                    raises(l.popleft if op == "popl" else l.popright if op == "popr" else lambda: l.extract(i), ValueError)
                else:
                    j = {"ext": i % n, "extneg": -1 - i % n, "popl": 0, "popr": -1}[op]
                    node = l.popleft() if op == "popl" else l.popright() if op == "popr" else l.extract(j)
                    eq((node.key, node.data), m.pop(j), "extracted node")
                    ctx.nontrivial(n > 1)
                    ctx.label("extract")
            elif op == "search":
                node = l.search(k)
                want = next((x for x in m if x[0] == k), None)
                eq(None if node is None else (node.key, node.data), want, "search(%r)" % k)
            elif op == "set" and n:
                l[i % n].key = k
                m[i % n] = (k, m[i % n][1])
            elif op == "bad":
                for f in (lambda: l[n + i], lambda: l[-n - 1 - i], lambda: l.insert_at(n + 1 + i, 5),
                          (lambda: l.insert_at(-n - 1 - i - (n == 0), 5)),
                          *([lambda: l.extract(n + i), lambda: l.extract(-n - 1 - i)] if n else [])):
                    raises(f, IndexError)
                ctx.label("rejected index")
            if step % every == 0 or step == len(case["ops"]):
                agree()
    return run


def ll_prop(pid, kinds, what):
    prop(pid, Sub("history", gen_ll(kinds), run_ll(kinds), quick=16000, shards=4, hyp=200),
         Sub("history_big", big(gen_ll(kinds), 6), run_ll(kinds), quick=600, shards=2, hyp=0),
         Sub("history_huge", huge(gen_ll(kinds), 60, 40), run_ll(kinds), quick=32, shards=4, hyp=0, cpu=60),
         Sub("small", lambda r: {"kind": 0, "ops": []}, run_ll(kinds), quick=0, hyp=0, shards=4, exhaust=ex_ll(kinds)),
         rule="histories of insertions (by index, negative index, next to a node, at the ends), extractions, searches "
              "and out-of-range accesses on %s against a Python list, all links walked after every step; plus every "
              "history of up to 4 steps over a 16-operation alphabet; non-trivial = an extraction from, or a negative "
              "insertion into, a list with elements." % what)


ll_prop("L01", ["s", "d"], "singly and doubly linked lists")
ll_prop("L02", ["sc", "dc"], "singly and doubly circular linked lists")


# ------------------------------------------------------------------ L03 skip list

def gen_sl(r):
    hi = r.choice([3, 12, 60]) * r.k
    return {"seed": r.int(0, 1 << 30), "float": r.weighted((3, 0), (2, 1), (2, 2), (1, 3), (1, 4)),
            "ops": [[r.weighted((5, "ins"), (4, "ext"), (2, "exthit"), (1, "search"), (1, "drain")), r.int(0, hi)]
                    for _ in range(r.size(0, 40))]}


def run_sl(case, ctx):
    random.seed(case["seed"])
    s = SkipList()
    m = {}                     # key -> list of data
    # the ends of the levels hold infinite keys, which are keys like any other
    f = [lambda k: k, lambda k: k - 5.5, lambda k: {0: -math.inf, 3: math.inf, 7: math.inf}.get(k, k), lambda k: "%07d" % (k + 9),
         lambda k: (k // 3, str(k))][case["float"] % 5]
    held = {13}

    def agree():
        n = sum(map(len, m.values()))
        eq(s.size, n, "size")
        keys = sorted(k for k, v in m.items() for _ in v)
        # every level is a sorted sublist of the one below it
        walk, rows = s.head, []
        while walk is not None:
            row, x = [], walk.next
            while x.next is not None:
                row.append(x)
                x = x.next
            rows.append(row)
            walk = walk.down
        eq(len(rows), s.levels, "levels")
        eq([x.key for x in rows[-1]], keys, "the bottom level")
        for up, low in zip(rows, rows[1:]):
            ids = {id(x) for x in low}
            check(all(id(x.down) in ids and x.down.key == x.key for x in up), "an upper level is not above the lower one")
            check([x.key for x in up] == sorted(x.key for x in up), "an upper level is out of order")
        if s.levels > 2:
            ctx.label("3+ levels")
        if n:                  # a column for each key, equal ones too
            lines = str(s).split("\n")[:-1]
            eq(len(lines), s.levels, "rows printed")
            if len(set(keys)) == len(keys):
                eq(lines[-1].strip(), " ".join(str((k, m[k][0])) for k in keys), "bottom row printed")
            col = {id(x): j for j, x in enumerate(rows[-1])}
            for row, line in zip(rows, lines):
                cells = ["None"] * n
                for x in row:
                    b = x
                    while b.down is not None:
                        b = b.down
                    cells[col[id(b)]] = str(x)
                eq(line.strip(), " ".join(cells), "row printed")

    every = case.get("every", 1)
    for cnt, (op, i) in enumerate(case["ops"]):
        k = f(i)
        held.add(i)
        if op == "ins":
            s.insert(k, datum(cnt))
            m.setdefault(k, []).append(datum(cnt))
        elif op == "drain":
            for k in sorted(m, key=lambda k: zlib.crc32(repr((k, i)).encode()) % 11)[:i % 9]:
                while k in m:
                    node = s.extract(k)
                    m[k].remove(node.data)
                    if not m[k]:
                        del m[k]
            ctx.label("drain")
        elif op in ("ext", "exthit"):
            if op == "exthit" and m:
                k = sorted(m)[i % len(m)]
            if k in m:
                node = s.extract(k)
                eq(node.key, k, "extracted key")
                check(node.data in m[k], "extracted data %r of key %r is none of %r", node.data, k, m[k])
                m[k].remove(node.data)
                if not m[k]:
                    del m[k]
                ctx.nontrivial()
            else:
                raises(lambda: s.extract(k), KeyError)
        if cnt % every and cnt < len(case["ops"]) - 1:
            continue
        for q in set(range(-1, 14)) | {i - 1, i, i + 1} if cnt % 8 else range(-1, max(held) + 2):
            q = f(q)
            eqt(s.search(q), q in m, "search(%r)", q)
        agree()


prop("L03", Sub("skiplist", gen_sl, run_sl, quick=12000, shards=6, hyp=200),
     Sub("skiplist_big", big(gen_sl, 6), run_sl, quick=400, shards=2, hyp=0),
     Sub("skiplist_huge", huge(gen_sl, 50, 49), run_sl, quick=32, shards=4, hyp=0, cpu=60),
     rule="histories of insert/extract/search with duplicate keys and random tower heights (seeded per case) and keys of five kinds (infinite ones too) against "
          "a dict of lists, with the sorted-sublist structure of the levels checked after every step; non-trivial = a "
          "successful extraction.")
