"""The C++ search trees (backend=Backend.CPP) against the same models and invariants as the Python ones."""
from ..core import prop, Sub, check, eq, raises, Invalid, Violation
from ..util import CPP, eqt
from .trees import *
from . import trees as T


def cpp_prop(pid, kinds, shape=None, extra=None, ops=("q",), rule="", big=150, **kw):
    run = run_tree(kinds, shape, cpp=True, query=True, extra=extra, **kw)
    prop(pid, Sub("cpp", gen_tree(kinds, extra=ops), run, quick=9000, shards=5, hyp=200),
         Sub("cpp_big", gen_tree(kinds, big, extra=ops), run, quick=1500, shards=2, hyp=0),
         deep(kinds, query=True, trav=extra is trav_extra, shape=shape, cpp=True),
         Sub("cpp_small", gen_tree(kinds), run, quick=0, hyp=0, exhaust=ex_tree(kinds)), rule=RULE + rule)


cpp_prop("C01", [BinarySearchTree])
cpp_prop("C02", [AVLTree], shape_avl)
cpp_prop("C03", [RedBlackTree], shape_rb)
cpp_prop("C04", [CartesianTree, Treap], shape_heap)
cpp_prop("C05", [SplayTree], shape_splay, splay_extra, ("q", "split", "join"))
cpp_prop("C06", TRAV, extra=trav_extra, ops=("trav", "trav", "trav"), big=100)
