import itertools
from ..core import prop, Sub, big, huge, check, eq, raises, Invalid, Violation
from ..util import eqt
from pydatastructs import Trie
from pydatastructs.strings import find
from pydatastructs.linear_data_structures import DynamicOneDimensionalArray

ALGS = ["kmp", "knuth_morris_pratt", "rabin_karp", "boyer_moore", "z_function"]
ALPHABETS = ["ab", "a", "abc", "a$", "ab$ \n", "abcdefghij", "\x00a\u0101\u0102\u00ff", "".join(chr(97 + 257 * i) for i in range(4)) + "ab`_",
             "\U0001f600\U0001f601a", "AaBb01", "\ud800\udc00x"]


# ------------------------------------------------------------------ P01 find

def word(r, al, n):
    return "".join(r.choice(al) for _ in range(n))


def gen_find(big):
    def gen(r):
        al = r.choice(ALPHABETS)
        shape = r.int(0, 6)
        if shape == 0:                      # anything in anything
            text, query = word(r, al, r.size(0, big)), word(r, al, r.size(0, 8))
        elif shape == 1:                    # a part of the text, perhaps all of it
            text = word(r, al, r.size(1, big))
            i = r.int(0, len(text) - 1)
            query = text[i:r.int(i + 1, len(text))]
        elif shape == 2:                    # periodic
            p = word(r, al, r.int(1, 4))
            text = (p * big)[:r.size(0, big)]
            if text and r.int(0, 1):
                i = r.int(0, len(text) - 1)
                text = text[:i] + r.choice(al) + text[i + 1:]
            query = (p * big)[r.int(0, 3):][:r.size(1, 12)]
        elif shape == 3:                    # near misses: prefixes of the query and the query
            query = word(r, al, r.size(1, 9))
            text = "".join(query[:r.int(0, len(query))] if r.int(0, 2) else query + word(r, al, r.int(0, 2)) for _ in range(r.size(0, big // 6)))
        elif shape == 4:                    # equal polynomial hashes: c d and (c + 257) (d - 1)
            c, d = r.choice("abcxyz"), r.choice("bcdyz")
            parts = [c + d, chr(ord(c) + 257) + chr(ord(d) - 1), word(r, "abc", 2)]
            text = "".join(r.choice(parts) for _ in range(r.size(0, big // 2)))
            query = "".join(r.choice(parts) for _ in range(r.int(1, 2)))
        elif shape == 5:                    # self-similar queries, and what fails late in them
            query = word(r, al, r.int(1, 2))
            while len(query) < 5 or len(query) < 14 and r.int(0, 3):
                query = (query + query[:r.int(1, len(query))] + word(r, al, r.int(0, 1)))[:20]
            text = ""
            while len(text) < big and r.int(0, 9):
                text += query[:r.int(len(query) // 2, len(query))] + (word(r, al, 1) if r.int(0, 2) == 0 else "")
        else:                               # queries longer than the text, or of its length
            text = word(r, al, r.size(0, 6))
            query = text + word(r, al, r.int(0, 3)) if r.int(0, 1) else word(r, al, r.int(0, 9))
        return {"alg": r.int(0, 4), "text": text, "query": query}
    return gen


def run_find(case, ctx):
    text, query, alg = case["text"], case["query"], ALGS[case["alg"] % 5]
    want = [i for i in range(len(text) - len(query) + 1) if text[i:i + len(query)] == query] if query else []
    p = find(text, query, alg)
    check(type(p) is DynamicOneDimensionalArray, "the result is a %s", type(p).__name__)
    cells = [p[i] for i in range(p.size)]
    n = len(want)
    eqt(cells[:n], want, "positions by %s of %r in %r", alg, query, text)
    check(all(x is None for x in cells[n:]), "positions by %s of %r in %r: %r", alg, query, text, cells)
    eq(str(p), str([str(i) for i in want]), "string form of the positions")
    p.append(-5)
    eqt(p[n], -5, "a position appended to the result")
    ctx.label(alg)
    ctx.label("found" if want else "not found", *(["overlapping"] if any(b - a < len(query) for a, b in zip(want, want[1:])) else []))
    ctx.nontrivial(len(query) > 1 and len(want) > 1)


def patterns(n, k):
    """All words of length n over k letters, up to renaming the letters."""
    ws = [""]
    for _ in range(n):
        ws = [w + chr(97 + c) for w in ws for c in range(min(k, len(set(w)) + 1))]
    return ws


def ex_similar():
    """A query after each of its prefixes, and those prefixes in a row."""
    for n in range(2, 9):
        for q in patterns(n, 3):
            for t in [q[:i] + q for i in range(1, n)] + ["".join(q[:i] for i in range(n, 0, -1)) + q]:
                for alg in (0, 2, 3, 4):
                    yield {"alg": alg, "text": t, "query": q}


def ex_find():
    for n in range(6):
        for t in itertools.product("ab", repeat=n):
            for m in range(4):
                for q in itertools.product("ab", repeat=m):
                    for alg in (0, 2, 3, 4):
                        yield {"alg": alg, "text": "".join(t), "query": "".join(q)}


prop("P01", Sub("find", gen_find(40), run_find, quick=90000, shards=6, hyp=200),
     Sub("find_big", gen_find(800), run_find, quick=2500, shards=2, hyp=0),
     Sub("find_huge", huge(gen_find(6000), 1), run_find, quick=60, shards=4, hyp=0, cpu=60),
     Sub("find_small", gen_find(5), run_find, quick=0, hyp=0, exhaust=ex_find),
     Sub("find_similar", gen_find(5), run_find, quick=0, hyp=0, shards=4, exhaust=ex_similar),
     rule="random texts and queries over eleven alphabets (parts of the text, periodic words, near misses, self-similar queries, words with equal hashes, queries as long as the text and longer), "
          "all words of length 5 with all queries of length 3 over two letters, all queries of up to 8 of three letters after each of their prefixes, by each of the four algorithms, against comparing at every position; "
          "non-trivial = a query of at least two characters that occurs at least twice.")


# ------------------------------------------------------------------ P02 tries

def gen_trie(r):
    al = r.choice(["ab", "a", "abc", "abcdefghijklmnop", "\u00e9\U0001f600 \n", "aA"])
    longest = 6 if r.k < 20 else 40
    words = [word(r, al, r.size(0, 6) if r.k < 20 else r.int(0, longest)) for _ in range(r.int(1, 10) if r.k < 20 else r.size(0, 10))]
    if r.k >= 20:
        words.append(word(r, al, 1) * r.int(1000, 1400) + word(r, al, 3))
    words += [w[:r.int(0, len(w))] for w in words if r.int(0, 1)]
    words += [w + r.choice(al) for w in words if r.int(0, 2) == 0]
    return {"words": words, "ops": [[r.weighted((5, "ins"), (4, "del"), (1, "get")), r.int(0, len(words) - 1)] for _ in range(r.size(1, 40))]}


def run_trie(case, ctx):
    words = case["words"]
    if not words:
        raise Invalid()
    t = Trie()
    held = set()
    every = case.get("every", 1)
    asked = sorted(set(words) | {w[:i] for w in words for i in range(len(w) + 1)})
    if every > 1:
        asked = asked[::1 + len(asked) // 300]
    deleted = 0

    def agree():
        for w in asked:
            eqt(t.is_inserted(w), w in held, "is_inserted(%r)", w)
            if w:
                eqt(t.is_present(w), any(x.startswith(w) for x in held), "is_present(%r)", w)
            got = t.strings_with_prefix(w)
            check(isinstance(got, list), "strings_with_prefix returns a %s", type(got).__name__)
            eq(sorted(got), sorted(x for x in held if x.startswith(w)), "strings with prefix %r", w)
            got[:] = ["spoiled"]                # it is the caller's
    agree()
    for step, (op, i) in enumerate(case["ops"], 1):
        w = words[i % len(words)]
        if op == "ins":
            eqt(t.insert(w), None, "insert")
            held.add(w)
        elif op == "del":
            eqt(t.delete(w), True if w in held else None, "delete(%r)", w)
            deleted += w in held
            if w in held:
                ctx.label("deleted a prefix of another" if any(x != w and x.startswith(w) for x in held) else "deleted a leaf")
            elif any(x.startswith(w) for x in held):
                ctx.label("deleting what is only a prefix")
            held.discard(w)
        elif op == "get":
            eq(t.strings_with_prefix(w + "\x07"), [], "strings with an absent prefix")
            eqt(t.is_present(w + "\x07"), False, "is_present of an absent string")
        if step % every == 0 or step == len(case["ops"]):
            agree()
    ctx.nontrivial(deleted > 0 and len(held) > 1)


def ex_trie():
    words = ["", "a", "ab", "aa", "b"]
    ops = [[o, i] for o in ("ins", "del") for i in range(len(words))]
    for n in (2, 3, 4):
        for seq in itertools.product(ops, repeat=n):
            yield {"words": words, "ops": [list(o) for o in seq]}


prop("P02", Sub("trie", gen_trie, run_trie, quick=24000, shards=6, hyp=150),
     Sub("trie_big", big(gen_trie, 3), run_trie, quick=240, shards=2, hyp=0),
     Sub("trie_huge", huge(gen_trie, 40, 400), run_trie, quick=24, shards=4, hyp=0, cpu=60),
     Sub("trie_small", gen_trie, run_trie, quick=0, hyp=0, exhaust=ex_trie),
     rule="histories of insert and delete of words over six alphabets, many of them prefixes of one another, the empty word included, against a set; is_inserted, is_present and "
          "strings_with_prefix of all their prefixes after every operation; all histories of up to four operations on five words; non-trivial = a word was deleted and two are left.")
