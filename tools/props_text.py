# P(id, title, statement, over, text, why, files, mechanisms, level_note, technique)
HIST = "The tests run one hand-written history per method; the property quantifies over all histories and inputs."
INPUT = "The tests sort, search or compute on a handful of fixed inputs; the property quantifies over all inputs, ranges and options."

P("A01", "A one-dimensional array is exactly the fixed list of typed cells it was built as",
  "A OneDimensionalArray, of either backend, holds after construction from a size, an initial value or a list exactly the "
  "elements given, and after any sequence of reads, writes and fills exactly what a Python list of that fixed length would, "
  "in indexing, length, string form and, in Python, iteration, without changing the list it was built from. An index outside the array "
  "raises IndexError and a value that cannot be the element type raises, both leaving every cell as it was; None clears a cell, and a negative size is refused.",
  "histories inputs", "every element type, constructor form and sequence of set, get, fill, len and str, on the Python and C++ backends",
  HIST, LD + "arrays.py " + CA + "OneDimensionalArray.hpp",
  [("OneDimensionalArray", LD + "arrays.py"), ("OneDimensionalArray C++", CA + "OneDimensionalArray.hpp")],
  "Model-based random histories against a list model on both backends; no claim beyond the generated histories.",
  "stateful property-based testing against a list model, both backends")
P("A02", "A multi-dimensional array maps every index tuple to its own cell",
  "A MultiDimensionalArray of any shape with dimensions of at least 1 keeps an independent cell for every index tuple: after "
  "any sequence of fills, reads and writes each tuple reads back what was last written to it or filled. A tuple with a "
  "component outside its own dimension raises IndexError, a dimension below 1 raises ValueError, and neither changes any cell.",
  "histories inputs", "every shape of up to four dimensions and every sequence of sets, gets and fills",
  HIST, LD + "arrays.py", [("MultiDimensionalArray", LD + "arrays.py")],
  "Model-based random histories against a dictionary keyed by tuple, plus all tuples of small shapes.",
  "stateful property-based testing against a dictionary model")
P("A03", "A dynamic array grows, shrinks and deletes without losing an element",
  "Through any history of appends, deletes, fills, sorts, reads and writes to any index, a DynamicOneDimensionalArray of either backend holds the added "
  "and not deleted elements in their order; deleting an absent or out-of-range position changes nothing, and adding what cannot be the element type raises. Growing and compacting "
  "preserve the elements and their order, keep the share of filled cells at or above the load factor after each operation, and "
  "iteration in reverse, length and string form agree with the contents.",
  "histories inputs", "every history of append, delete, set and get with every load factor and initial contents, both backends",
  HIST, LD + "arrays.py " + CA + "DynamicOneDimensionalArray.hpp",
  [("DynamicOneDimensionalArray", LD + "arrays.py"), ("DynamicOneDimensionalArray C++", CA + "DynamicOneDimensionalArray.hpp")],
  "Model-based random histories on both backends.", "stateful property-based testing against a list model, both backends")
P("L01", "Singly and doubly linked lists behave as sequences with consistent links",
  "After any history of insertions at either end, at an index, before or after a node, and extractions at either end or at an index, "
  "a singly or doubly linked list contains exactly the sequence a Python list would, in length, indexing (negative too), search and "
  "string form. Head, tail and, in doubly linked lists, backward links agree with that sequence, and an index out of range raises "
  "IndexError and changes nothing.",
  "histories inputs", "every history of the list operations on singly and doubly linked lists",
  HIST, LD + "linked_lists.py", [("SinglyLinkedList, DoublyLinkedList", LD + "linked_lists.py")],
  "Model-based random histories with a full structural walk after each operation.", "stateful property-based testing against a list model")
P("L02", "Circular linked lists behave as sequences whose ends are joined",
  "After any history of insertions and extractions a singly or doubly circular linked list contains exactly the sequence a Python list "
  "would, and following next from the last element always arrives at the first (and, when doubly linked, previous from the first at the "
  "last), also when a single element is left. An index out of range raises IndexError and changes nothing.",
  "histories inputs", "every history of the list operations on circular lists",
  HIST, LD + "linked_lists.py", [("SinglyCircularLinkedList, DoublyCircularLinkedList", LD + "linked_lists.py")],
  "Model-based random histories with a full structural walk after each operation.", "stateful property-based testing against a list model")
P("L03", "A skip list is a sorted map with towers that are sublists of one another",
  "After any history of inserts, searches and extractions a skip list holds exactly the keys inserted and not extracted, searching finds "
  "a key with its data exactly when it is held, and extracting an absent key raises KeyError and changes nothing. Each level of towers is "
  "sorted and contained in the level below, whatever the random choices of tower heights, and the string form shows every level so.",
  "histories inputs", "every history of insert, search and extract and every outcome of the coin tosses",
  HIST, LD + "linked_lists.py", [("SkipList", LD + "linked_lists.py")],
  "Model-based random histories with seeded tower heights and a walk over all levels.", "stateful property-based testing against a sorted map")
P("S01", "Sequential sorts order exactly the requested range and touch nothing else",
  "Bubble, selection, insertion, quick, cocktail shaker, shell, intro, heap and brick sort leave the range from start to end of a static or "
  "dynamic array a permutation of what it held, ordered by the comparator (where one is accepted), with unset cells last, and every cell outside "
  "the range unchanged. This holds for every input including empty ranges, duplicates, presorted data and any pivot function or depth and "
  "insertion thresholds, a sorted dynamic array goes on accepting appends after its last element, and an exception raised by a comparator (which may answer with any true or false value) is passed on.",
  "inputs configurations", "every array, range, comparator, pivot function and threshold",
  INPUT, LD + "algorithms.py", [("the sorting functions", LD + "algorithms.py")],
  "Random arrays, all short arrays over three values and all small permutations.", "property-based testing with an ordered-permutation oracle")
P("S02", "Parallel sorts order exactly the requested range for any number of threads",
  "merge_sort_parallel and brick_sort_parallel terminate and leave the range from start to end an ordered permutation of what it held, unset "
  "cells last, for every comparator and number of threads, with every cell outside the range unchanged; an exception raised by the comparator is raised to the caller.",
  "inputs schedules configurations", "every array, range, comparator, number of threads and interleaving",
  INPUT, LD + "algorithms.py", [("merge_sort_parallel, brick_sort_parallel", LD + "algorithms.py")],
  "Random arrays, thread counts and schedules drawn line by line, reproducibly.",
  "property-based testing with an ordered-permutation oracle")
P("S03", "Distribution sorts (counting, bucket, radix) return every value in order",
  "counting_sort returns a new array with exactly the set values of its input in ascending order and leaves the input unchanged, also with "
  "negative values. bucket_sort (any integers, floats or fractions) and radix_sort (non-negative integers) order the range from start to end in place with unset "
  "cells last and nothing outside the range changed, whatever the spread of the values.",
  "inputs", "every integer array and range", INPUT, LD + "algorithms.py",
  [("counting_sort, bucket_sort, radix_sort", LD + "algorithms.py")],
  "Random arrays over value ranges from 1 to 100000, and all short arrays.", "property-based testing with an ordered-permutation oracle")
P("S04", "The C++ and LLVM sorts order ranges exactly as the Python ones promise",
  "With the C++ backend, quick, bubble, selection and insertion sort, and with the LLVM backend, bubble and selection sort, leave the range "
  "from start to end an ordered permutation of what it held, unset cells last, nothing outside it changed, for arrays of either backend. "
  "Comparators and pivot functions (C++) and machine element types (LLVM) do not change that, a value the machine type cannot hold ends the sort with an exception and leaves the array, a process that sorted so ends normally, and a comparison that fails ends the sort with an exception.",
  "inputs configurations", "every array of either backend, range, comparator, pivot function and machine type",
  INPUT, CG + "quick_sort.hpp " + CG + "quadratic_time_sort.hpp " + CG + "llvm_algorithms.py",
  [("C++ sorts", CG + "quadratic_time_sort.hpp"), ("generated machine code", CG + "llvm_algorithms.py")],
  "Random arrays, all short arrays over three values.", "property-based testing with an ordered-permutation oracle")
P("S05", "Searches find a value exactly when the range holds it",
  "linear_search returns the first index in the range from start to end holding the value, and binary_search and jump_search, on a range sorted "
  "by the comparator, an index in the range holding it; all return None exactly when the range does not hold it. This holds in both backends, "
  "for any element type, direction of order and range, and an exception raised by the comparator ends the search with an exception.",
  "inputs configurations", "every sorted array, range, value, direction and backend", INPUT, LD + "algorithms.py " + CG + "misc_algorithms.hpp",
  [("linear_search, binary_search, jump_search", LD + "algorithms.py"), ("C++ searches", CG + "misc_algorithms.hpp")],
  "Random arrays plus every sub-range and value of sorted arrays up to length 9.", "property-based testing against a linear scan")
P("S06", "lower_bound and upper_bound return the edges of the equal range",
  "On the range from start up to but excluding end, sorted by the comparator, lower_bound returns the index of the first element not ordered before "
  "the value and upper_bound of the first element ordered after it, or end when there is none, also for empty ranges.",
  "inputs", "every sorted array, range, value and strict comparator", INPUT, LD + "algorithms.py",
  [("lower_bound, upper_bound", LD + "algorithms.py")], "Random arrays plus every sorted array of up to five elements over four values.",
  "property-based testing against a linear scan")
P("S07", "is_ordered tells exactly whether a range is ordered",
  "is_ordered, in both backends, is True exactly when no set element in the range from start to end is strictly out of order with the next set "
  "element after it under the comparator; unset cells are skipped and equal neighbours are in order.",
  "inputs configurations", "every array, range, comparator and backend", INPUT, LD + "algorithms.py " + CG + "misc_algorithms.hpp",
  [("is_ordered", LD + "algorithms.py"), ("is_ordered C++", CG + "misc_algorithms.hpp")],
  "Random, sorted and nearly sorted arrays with unset cells, plus all short ones.", "property-based testing against a direct definition")
P("S08", "Longest common and increasing subsequences are subsequences of maximal length",
  "longest_common_subsequence returns a common subsequence of its two arguments and no common subsequence is longer. "
  "longest_increasing_subsequence returns a strictly increasing subsequence of its argument, of the same element type, and none is longer; both leave their arguments unchanged.",
  "inputs", "every pair of arrays, every array", INPUT, LD + "algorithms.py",
  [("longest_common_subsequence", LD + "algorithms.py"), ("longest_increasing_subsequence", LD + "algorithms.py")],
  "Random sequences over small alphabets and all short sequences, against independent quadratic recurrences.",
  "property-based testing against a reference recurrence")
P("S09", "next_permutation and prev_permutation step through lexicographic order",
  "next_permutation returns True and the lexicographically next arrangement of the elements from start to end under the comparator, or False and the "
  "first arrangement when there is none; prev_permutation is its mirror image. Both leave the input unchanged and keep the element type, also with "
  "repeated elements.",
  "inputs", "every array with repeated elements, range and direction", INPUT, LD + "algorithms.py",
  [("next_permutation, prev_permutation", LD + "algorithms.py")], "Random sequences and every sequence of up to five elements over three values.",
  "property-based testing against the definition")
P("S10", "The parallel matrix product equals the mathematical product for any shapes",
  "matrix_multiply_parallel of an n by k and a k by m matrix returns the n by m matrix of sums of products, for any number of threads and any indexable "
  "row representation, and raises ValueError when the inner dimensions differ.",
  "inputs schedules configurations", "every pair of matrices, number of threads and interleaving", INPUT, LD + "algorithms.py",
  [("matrix_multiply_parallel", LD + "algorithms.py")], "Random matrices of every shape up to 5x5 over integers, floats, fractions, complex numbers and truth values.", "property-based testing against the definition")
BT = "pydatastructs/trees/binary_trees.py"
P("T01", "A binary search tree is a map that keeps its keys in comparator order",
  "After any history of insertions (an inserted key replaces its data) and deletions, a BinarySearchTree holds exactly the keys inserted and not "
  "deleted with their last data: search finds exactly those, and walking from the root yields them in the order of the comparator, with consistent parent "
  "links and the root alone marked as one. delete returns True for a key it removed and None for an absent one, which leaves the tree as it was; an emptied tree can be filled again, and an operation whose comparison raises passes that exception on and changes nothing.",
  "histories inputs", "every history, key type and strict comparator, whatever the underlying array does when it grows and compacts",
  HIST, BT + " " + LD + "arrays.py", [("BinarySearchTree", BT), ("ArrayForTrees", LD + "arrays.py")],
  "Model-based random histories with a full walk after each operation, and all short insertion and deletion orders.",
  "stateful property-based testing against a dictionary, with a structural invariant after each step")
P("T02", "Order queries of search trees agree with the sorted keys",
  "On every binary search, AVL, red-black, splay tree and treap, after any history, lower_bound and upper_bound return the first key not before, respectively "
  "after, the given one (or None), and lowest_common_ancestor with either algorithm the key of the deepest node above both keys, or ValueError if one is absent. "
  "On order-statistic trees every node records its subtree's size, rank is a held key's 1-based position among the sorted keys (None if absent) and select "
  "its inverse, raising ValueError for a position there is not.",
  "histories inputs", "every history, tree kind, key type, comparator and pair of query keys",
  HIST, BT, [("lower_bound, upper_bound, select, rank, lowest_common_ancestor", BT)],
  "Model-based random histories with interleaved queries over all held and many absent keys.",
  "stateful property-based testing against a sorted list")
P("T03", "An AVL tree is a height-balanced search tree after every operation",
  "After any history of insertions and deletions an AVLTree is a correct binary search tree map of its keys (as BinarySearchTree promises), the heights of the two subtrees "
  "of every node differ by at most one, and the recorded heights, balance factors and, when order-statistic, subtree sizes are the true ones.",
  "histories inputs", "every history of insertions and deletions, key type and comparator", HIST, BT, [("AVLTree", BT)],
  "Model-based random histories with heights recomputed from the links after each operation, and all short insertion and deletion orders.",
  "stateful property-based testing with a structural invariant after each step")
P("T04", "A red-black tree keeps its colour rules after every operation",
  "After any history of insertions and deletions a RedBlackTree is a correct binary search tree map of its keys, its root is black, no red node has a red child, and every "
  "path from the root down to a missing child passes the same number of black nodes.",
  "histories inputs", "every history of insertions and deletions, key type and comparator", HIST, BT, [("RedBlackTree", BT)],
  "Model-based random histories with colours and black heights checked after each operation, and all short insertion and deletion orders.",
  "stateful property-based testing with a structural invariant after each step")
P("T05", "Cartesian trees and treaps are search trees by key and heaps by priority",
  "After any history of insertions and deletions a CartesianTree or Treap is a correct binary search tree map of its keys in which no node has a smaller priority than its parent, "
  "and a CartesianTree's node has the priority last given for its key.",
  "histories inputs", "every history of insertions and deletions, priorities (given or random), key type and comparator", HIST, BT,
  [("CartesianTree", BT), ("Treap", BT)], "Model-based random histories with order and heap property checked after each operation, and all short orders.",
  "stateful property-based testing with a structural invariant after each step")
P("T06", "A splay tree splays, splits and joins without losing a key",
  "After any history of insertions, deletions, splits and joins a SplayTree is a correct binary search tree map of its keys, with an inserted key at the root. split at a held key "
  "leaves the keys up to it and returns a splay tree of the others; join takes in all keys of a tree whose keys are all greater and raises ValueError otherwise.",
  "histories inputs", "every history of insertions, deletions, splits and joins, key type and comparator", HIST, BT, [("SplayTree", BT)],
  "Model-based random histories in which split-off trees are used on and joined again.",
  "stateful property-based testing against dictionaries, with a structural invariant after each step")
P("T07", "Traversals visit every node below their start exactly once in their order",
  "On any non-empty Python binary tree after any history, from its root or any node, pre-order, in-order, post-order, out-order (reverse in-order) and breadth-first traversals list "
  "exactly the nodes of that subtree in that order; in-order from the root lists the keys in comparator order. An unknown order or strategy raises NotImplementedError.",
  "histories inputs", "every tree shape reachable by histories of all six tree kinds, and every start node", HIST, BT, [("BinaryTreeTraversal", BT)],
  "Random histories of all tree kinds with traversals compared with recursion over the links.", "property-based testing against recursive definitions")
P("T08", "A binary indexed tree answers every prefix and range sum as of the last updates",
  "After any sequence of updates with values of any numeric types, in both backends, get_prefix_sum(i) is the sum of the current elements up to index i and get_sum(l, r) of those from l to r inclusive; the list it "
  "was built from is unchanged. An update out of range raises IndexError and changes nothing.",
  "histories inputs", "every initial array of numbers, sequence of updates and range, both backends", HIST, BT + " " + CT + "BinaryIndexedTree.hpp",
  [("BinaryIndexedTree", BT), ("BinaryIndexedTree C++", CT + "BinaryIndexedTree.hpp")],
  "Random histories, and every range of every length below 20.", "stateful property-based testing against sums over a list, both backends")
P("T09", "An interval segment tree returns exactly the segments that contain a point",
  "For every collection of closed segments (lists, tuples or sets; duplicates, shared ends and single points included) OneDimensionalSegmentTree.query returns one interval for each "
  "segment that contains the query point and no other, whether or not build was called, and leaves the caller's segments unchanged; from a given node it finds those stored there and below.",
  "inputs", "every non-empty collection of segments and query point", INPUT, "pydatastructs/trees/space_partitioning_trees.py",
  [("OneDimensionalSegmentTree", "pydatastructs/trees/space_partitioning_trees.py")],
  "Random collections queried at, between and outside all their ends, and all small collections.", "property-based testing against a scan")
CX = "pydatastructs/trees/_backend/cpp/"
CXT = ("The same operation on the C++ backend runs different, hand-written memory-managing code, which the tests visit with one fixed history each; the property quantifies over all histories.")
P("C01", "The C++ binary search tree is the same ordered map as the Python one",
  "After any history of insertions, deletions, searches and order queries, a BinarySearchTree with the C++ backend holds exactly the keys inserted and not deleted with their last data, "
  "in comparator order with consistent parent links, the root alone marked as one and (when order-statistic) subtree sizes, and answers as documented: delete True or None, search the node or None, lower_bound, "
  "upper_bound, lowest_common_ancestor, rank and select by the sorted keys, ValueError for a missing ancestor key or select position; an operation whose comparison raises passes that exception on and changes nothing.",
  "histories inputs", "every history, hashable key type and strict comparator, order-statistic or not, on the C++ backend",
  CXT, CX + "BinarySearchTree.hpp " + CA + "ArrayForTrees.hpp", [("BinarySearchTree C++", CX + "BinarySearchTree.hpp"), ("ArrayForTrees C++", CA + "ArrayForTrees.hpp")],
  "Model-based random histories with a full walk after each operation, and all short insertion and deletion orders.",
  "stateful property-based testing against a dictionary, with a structural invariant after each step")
P("C02", "The C++ AVL tree is a height-balanced ordered map after every operation",
  "After any history of insertions, deletions and order queries an AVLTree with the C++ backend is a correct search tree map of its keys with correct answers (as the binary search tree "
  "promises), the subtree heights of every node differ by at most one, and the recorded heights, balance factors and, when order-statistic, subtree sizes are the true ones.",
  "histories inputs", "every history, key type and comparator on the C++ backend", CXT, CX + "AVLTree.hpp " + CX + "SelfBalancingBinaryTree.hpp",
  [("AVLTree C++", CX + "AVLTree.hpp")], "Model-based random histories with heights recomputed from the links after each operation, and all short orders.",
  "stateful property-based testing with a structural invariant after each step")
P("C03", "The C++ red-black tree keeps its colour rules after every operation",
  "After any history of insertions, deletions and order queries a RedBlackTree with the C++ backend is a correct search tree map of its keys with correct answers, its root is black, no "
  "red node has a red child, and every path from the root down to a missing child passes the same number of black nodes.",
  "histories inputs", "every history, key type and comparator on the C++ backend", CXT, CX + "RedBlackTree.hpp " + CX + "SelfBalancingBinaryTree.hpp",
  [("RedBlackTree C++", CX + "RedBlackTree.hpp")], "Model-based random histories with colours and black heights checked after each operation, and all short orders.",
  "stateful property-based testing with a structural invariant after each step")
P("C04", "C++ Cartesian trees and treaps are search trees by key and heaps by priority",
  "After any history of insertions, deletions and order queries a CartesianTree or Treap with the C++ backend is a correct search tree map of its keys with correct answers, no node has a "
  "smaller priority than its parent, and a CartesianTree's node has the priority last given for its key.",
  "histories inputs", "every history, priorities (given or random), key type and comparator on the C++ backend", CXT,
  CX + "CartesianTree.hpp " + CX + "Treap.hpp", [("CartesianTree C++", CX + "CartesianTree.hpp"), ("Treap C++", CX + "Treap.hpp")],
  "Model-based random histories with order and heap property checked after each operation, and all short orders.",
  "stateful property-based testing with a structural invariant after each step")
P("C05", "The C++ splay tree splays, splits and joins without losing a key",
  "After any history of insertions, deletions, order queries, splits and joins a SplayTree with the C++ backend is a correct search tree map of its keys with an inserted key at the root. "
  "split at a held key leaves the keys up to it and returns a splay tree of the others; join takes in all keys of a tree whose keys are all greater and raises ValueError otherwise.",
  "histories inputs", "every history of insertions, deletions, splits and joins, key type and comparator on the C++ backend", CXT, CX + "SplayTree.hpp",
  [("SplayTree C++", CX + "SplayTree.hpp")], "Model-based random histories in which split-off trees are used on and joined again.",
  "stateful property-based testing against dictionaries, with a structural invariant after each step")
P("C06", "C++ traversals visit every node below their start exactly once in their order",
  "On any non-empty C++ binary tree of any of the six kinds after any history, from its root or any node, the C++ pre-order, in-order, post-order, out-order (reverse in-order) and "
  "breadth-first traversals list exactly the nodes of that subtree in that order, the tree staying usable after the traversal is gone. An unknown order or strategy raises NotImplementedError.",
  "histories inputs", "every tree shape reachable by histories of all six tree kinds, and every start node, on the C++ backend", CXT, CX + "BinaryTreeTraversal.hpp",
  [("BinaryTreeTraversal C++", CX + "BinaryTreeTraversal.hpp")],
  "Random histories of all tree kinds with traversals compared with recursion over the links.", "property-based testing against recursive definitions")
HP = "pydatastructs/trees/heaps.py"
MI = "pydatastructs/miscellaneous_data_structures/"
P("H01", "A d-ary heap always extracts the element first in heap order",
  "After any history of insertions and extractions (and whatever nodes it was built from) a binary, ternary or d-ary heap, min or max, holds exactly the elements inserted and not "
  "extracted, no element is before its parent, and extract returns an element that no other precedes. Extracting from an empty heap raises IndexError; string form and is_empty agree with the contents.",
  "histories inputs", "every history of insert and extract, arity, heap property, key type and initial collection", HIST, HP, [("DHeap, BinaryHeap, TernaryHeap", HP)],
  "Model-based random histories with the heap order and contents checked after each operation, and all short insertion orders.",
  "stateful property-based testing against a multiset, with a structural invariant after each step")
P("H02", "A binomial heap keeps its elements and its minimum through every operation",
  "After any history of insert, merge, delete_minimum, decrease_key and delete of a node, a BinomialHeap consists of heap-ordered binomial trees of strictly increasing orders holding exactly the "
  "elements put in and not deleted; find_minimum returns a root with the least key. decrease_key to a key that is not smaller raises ValueError, and an empty heap's minimum IndexError, changing nothing.",
  "histories inputs", "every history of the five operations and key type", HIST, HP + " " + MI + "binomial_trees.py",
  [("BinomialHeap", HP), ("BinomialTree", MI + "binomial_trees.py")],
  "Model-based random histories with every tree walked after each operation.", "stateful property-based testing against a multiset, with a structural invariant after each step")
P("M01", "Stacks are last in, first out",
  "After any history of push and pop, a Stack on an array of either backend or a linked list returns from pop and peek the elements in reverse order of insertion (initial items first, the caller's list unchanged), "
  "and its length and is_empty agree. pop of an empty stack raises IndexError, pushing onto an array what cannot be its element type raises and changes nothing, and an emptied stack can be used on.",
  "histories inputs", "every history, implementation, backend, element type and initial items", HIST, MI + "stack.py " + MI + "_backend/cpp/stack/ArrayStack.hpp",
  [("ArrayStack, LinkedListStack", MI + "stack.py")], "Model-based random histories on three implementations.", "stateful property-based testing against a list model")
P("M02", "Queues are first in, first out, and double-ended ones both ways",
  "After any history a Queue on an array or a linked list holds exactly the sequence a deque would: popleft takes the oldest, and in double-ended queues appendleft and pop work at the other ends; length, is_empty, front, rear and "
  "string form agree. Taking from an empty queue raises IndexError, the double-ended operations of a single-ended queue raise NotImplementedError, and the caller's items are unchanged.",
  "histories inputs", "every history, implementation, element type and initial items", HIST, MI + "queue.py", [("ArrayQueue, LinkedListQueue", MI + "queue.py")],
  "Model-based random histories, and all double-ended histories of up to seven operations.", "stateful property-based testing against a deque")
P("M03", "A priority queue pops the waiting element of best priority",
  "After any history of push and pop, a PriorityQueue on a linked list, binary heap or binomial heap pops, and shows by peek, a waiting element no other waiting element precedes in the comparator, each exactly as often as it was pushed. "
  "An empty queue's pop raises IndexError, and is_empty agrees with the contents.",
  "histories inputs", "every history, implementation, priority type and strict comparator", HIST, MI + "queue.py",
  [("LinkedListPriorityQueue, BinaryHeapPriorityQueue, BinomialHeapPriorityQueue", MI + "queue.py")], "Model-based random histories on the three implementations.",
  "stateful property-based testing against a dictionary of waiting elements")
P("M04", "A disjoint-set forest is the partition generated by its unions",
  "After any history of make_set, union and make_root, keys have the same root exactly if unions connect them, find_size is the size of their set, disjoint_sets lists the partition, and make_root(key) "
  "makes key the root of its set. Making an existing key again changes nothing, and an absent key raises KeyError in every other operation.",
  "histories inputs", "every history and key type", HIST, MI + "disjoint_set.py", [("DisjointSetForest", MI + "disjoint_set.py")],
  "Model-based random histories with the whole partition compared after each operation.", "stateful property-based testing against a partition model")
P("M05", "A multiset counts every element as often as it was added and not removed",
  "After any history of add and remove a Multiset's counts, membership and length are those of the elements added and not removed, and lower_bound and upper_bound return the least held element not less, "
  "respectively greater, than the given one (or None). Removing an element that is not there changes nothing.",
  "histories inputs", "every history and ordered element type", HIST, MI + "multiset.py", [("Multiset", MI + "multiset.py")],
  "Model-based random histories with all queries after each operation.", "stateful property-based testing against a Counter")
P("M06", "Static range queries equal folding the function over the range",
  "For every array and associative function (for the sparse table an idempotent one or not, as it folds disjoint blocks), RangeQueryStatic.query(i, j) with either data structure is the function folded over elements i to j, both inclusive. "
  "A range with i > j and an empty array raise ValueError, a range outside the array IndexError; the array is unchanged, and str of the sparse table lists the folds of its blocks.",
  "inputs", "every non-empty array of either backend and any element type, range and associative function", INPUT, MI + "algorithms.py " + MI + "sparse_table.py",
  [("RangeQueryStatic", MI + "algorithms.py"), ("SparseTable", MI + "sparse_table.py")], "Random arrays and functions, and every range of every length below 34.",
  "property-based testing against the definition")
P("M07", "Dynamic range queries equal folding the function over the current range",
  "After any sequence of updates, RangeQueryDynamic (and ArraySegmentTree) answers query(i, j) with the associative function folded over the current elements i to j, and update(i, v) sets element i in the queried array. "
  "A range with i > j and an empty array raise ValueError, a range outside the array, like an update outside it, IndexError; str of the segment tree lists its nodes with their folds.",
  "histories inputs", "every non-empty array of either backend and any element type, sequence of updates, range and associative function", HIST, MI + "algorithms.py " + MI + "segment_tree.py",
  [("RangeQueryDynamic", MI + "algorithms.py"), ("ArraySegmentTree", MI + "segment_tree.py")], "Random histories, and every range after updating every position for every length below 18.",
  "stateful property-based testing against folding over a list")
GA = "pydatastructs/graphs/algorithms.py"
GL = "pydatastructs/graphs/adjacency_list.py"
GM = "pydatastructs/graphs/adjacency_matrix.py"
GC = "pydatastructs/graphs/_backend/cpp/"
UM = "pydatastructs/utils/misc_util.py"
GIN = "every directed graph, with or without self-loops, made by any history of additions and removals"
P("G01", "An adjacency list holds exactly the vertices and edges put in and not removed",
  "After any history of add_vertex, remove_vertex, add_edge and remove_edge an adjacency-list graph of either backend agrees with a set of vertices and a map of directed edges in num_vertices, num_edges, "
  "vertices, neighbors, is_adjacent and get_edge of every pair; adding an edge again replaces its cost, and removing a vertex removes its edges in both directions with their costs. "
  "An edge to an absent vertex raises ValueError and changes nothing.",
  "histories inputs", "every history, vertex name and cost, both backends", HIST, GL + " " + GC + "AdjacencyList.hpp",
  [("AdjacencyList", GL), ("AdjacencyListGraph C++", GC + "AdjacencyList.hpp")],
  "Model-based random histories with every query compared after each operation, all short histories, and peculiar names; names that clash with attributes or share an edge key are known findings.",
  "stateful property-based testing against sets, both backends")
P("G02", "An adjacency matrix holds exactly the edges put in and not removed",
  "After any history of add_edge and remove_edge an adjacency-matrix graph of either backend agrees with a map of directed edges in num_vertices, num_edges, vertices, neighbors, is_adjacent and get_edge of every pair; "
  "adding an edge again replaces its cost. An edge to an absent vertex raises ValueError and changes nothing.",
  "histories inputs", "every history, vertex name and cost, both backends", HIST, GM + " " + GC + "AdjacencyMatrix.hpp",
  [("AdjacencyMatrix", GM), ("AdjacencyMatrixGraph C++", GC + "AdjacencyMatrix.hpp")],
  "Model-based random histories with every query compared after each operation, all short histories, and peculiar names; names that clash with attributes or share an edge key are known findings.",
  "stateful property-based testing against sets, both backends")
P("G03", "Breadth-first search discovers each reachable vertex once, nearest first",
  "For every graph and source, breadth_first_search (lists and matrices of both backends) and its parallel form call the operation once for every vertex reachable from the source, with an edge from a vertex discovered before, "
  "in order of distance, handing on the extra arguments, and end as soon as the operation refuses or raises. The graph is unchanged.",
  "inputs schedules configurations", GIN + ", source, operation that may refuse or raise, number of threads", INPUT, GA + " " + GC + "Algorithms.hpp",
  [("breadth_first_search, breadth_first_search_parallel", GA), ("breadth_first_search C++", GC + "Algorithms.hpp")],
  "Random graphs of up to 60 vertices and all small ones.", "property-based testing against distances computed independently")
P("G04", "Depth-first search discovers each reachable vertex once",
  "For every graph and source, depth_first_search calls the operation once for every vertex reachable from the source, with an edge from a vertex discovered before, hands on the extra arguments, and ends as soon as the operation refuses or raises. "
  "The graph is unchanged.",
  "inputs configurations", GIN + ", source, operation that may refuse or raise", INPUT, GA, [("depth_first_search", GA)],
  "Random graphs of up to 60 vertices and all small ones.", "property-based testing against reachability")
P("G05", "Minimum spanning trees span at the least total cost",
  "For every connected undirected graph, Kruskal and Prim, sequential and parallel, on lists and matrices and (Prim) in C++, return a graph of the same implementation whose edges are edges of the graph with their costs in both directions, "
  "connect all its vertices without a cycle, and cost in total as little as any spanning tree. The graph is unchanged, also by later changes of the tree.",
  "inputs schedules configurations", "every connected undirected graph with real costs, algorithm, implementation and number of threads", INPUT, GA + " " + GC + "Algorithms.hpp",
  [("minimum_spanning_tree, minimum_spanning_tree_parallel", GA), ("minimum_spanning_tree_prim C++", GC + "Algorithms.hpp")],
  "Random graphs of up to 25 vertices.", "property-based testing against the spanning-tree definition and an independent optimum")
P("G06", "Strongly connected components are the classes of mutual reachability",
  "For every directed graph, strongly_connected_components (Kosaraju and Tarjan, lists and matrices) returns a list of sets that contains every vertex once, two vertices being in the same set exactly if each can be reached from the other. "
  "The graph is unchanged.",
  "inputs configurations", GIN, INPUT, GA, [("strongly_connected_components", GA)], "Random graphs of up to 60 vertices and all graphs on up to 3.",
  "property-based testing against mutual reachability")
P("G07", "Shortest paths from a source are shortest and their predecessors lead back to it",
  "For every graph and source, shortest_paths gives each vertex its least path cost (infinity if it cannot be reached) and predecessors along which the source is reached at exactly that cost, by Dijkstra (Python, C++) for costs of at least 0 "
  "and by Bellman-Ford for any costs; with a target the cost is the target's. A negative cycle reachable from the source raises ValueError in Bellman-Ford, and the graph is unchanged.",
  "inputs configurations", GIN + " with a cost on every edge, source and target", INPUT, GA + " " + GC + "Algorithms.hpp",
  [("shortest_paths", GA), ("shortest_paths_dijkstra C++", GC + "Algorithms.hpp")], "Random graphs of up to 25 vertices.", "property-based testing against relaxing all edges to a fixed point")
P("G08", "All-pairs shortest paths agree with the shortest path of every pair",
  "For every graph without negative cycles, all_pair_shortest_paths by Floyd-Warshall (lists, matrices) and Johnson (lists) gives every pair of vertices its least path cost, a pair without a path being left out or infinite. "
  "Johnson raises ValueError for a negative cycle, and either way the graph's vertices, edges and costs are afterwards as they were.",
  "inputs configurations", GIN + " with a cost on every edge, negative ones included", INPUT, GA, [("all_pair_shortest_paths", GA)], "Random graphs of up to 15 vertices.",
  "property-based testing against relaxing all edges from every vertex")
P("G09", "Topological sorting puts every edge of an acyclic graph forward, refuses cycles",
  "For every directed acyclic graph, topological_sort and its parallel form with any number of threads return every vertex once, the source of each edge before its target. For a graph with a cycle they raise ValueError, and the graph is unchanged either way.",
  "inputs schedules", GIN + ", number of threads", INPUT, GA, [("topological_sort, topological_sort_parallel", GA)], "Random graphs of up to 40 vertices and all graphs on 3.",
  "property-based testing against the definition of a topological order")
P("G10", "The maximum flow equals the minimum cut",
  "For every network with capacities of at least 0 and every two vertices, max_flow by Edmonds-Karp and by Dinic on lists and matrices returns the least total capacity of the edges that lead out of a set of vertices with the source and without the sink. The graph is unchanged.",
  "inputs configurations", GIN + " with a capacity on every edge, source and sink", INPUT, GA, [("max_flow", GA)], "Random networks of up to 9 vertices.",
  "property-based testing against the minimum over all cuts")
P("G11", "Bridges are exactly the edges whose removal disconnects",
  "For every undirected graph, its edges added in one direction or in both, find_bridges returns in sorted order the pairs (u, v) with u <= v of the edges without which the graph has more components. The graph is unchanged.",
  "inputs", "every undirected graph without parallel edges, as list or matrix", INPUT, GA, [("find_bridges", GA)], "Random graphs of up to 30 vertices.",
  "property-based testing against counting components without each edge")
P("G12", "Graph nodes and edges hold the names, data, neighbours and values given to them",
  "After any history of adding and removing adjacent nodes and setting data, a graph node of either kind and backend reports its name, its data and exactly the adjacent nodes added and not removed, and its string form shows name and data; removing an absent one raises ValueError. "
  "An edge reports the value last set and its ends.",
  "histories inputs", "every history, data type and backend", HIST, UM + " pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp pydatastructs/utils/_backend/cpp/GraphEdge.hpp",
  [("AdjacencyListGraphNode, AdjacencyMatrixGraphNode, GraphEdge", UM), ("C++ nodes and edges", "pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp")],
  "Model-based random histories on both backends.", "stateful property-based testing against a dictionary")
ST = "pydatastructs/strings/"
P("P01", "String searching finds every occurrence and nothing else",
  "For every text and query, find by Knuth-Morris-Pratt, Rabin-Karp, Boyer-Moore and the Z function returns a dynamic array of exactly the positions in the text at which the query starts, in ascending order, overlapping occurrences included. "
  "An empty query or text has no occurrences.",
  "inputs configurations", "every text and query over any characters, each algorithm", INPUT, ST + "algorithms.py", [("find", ST + "algorithms.py")],
  "Random texts over eleven alphabets, hash collisions and separators included, and all short words over two letters.", "property-based testing against comparing at every position")
P("P02", "A trie holds exactly the strings inserted and not deleted",
  "After any history of insert and delete, is_inserted is true exactly for the strings held, is_present exactly for their prefixes, and strings_with_prefix lists each held string with the prefix once. "
  "delete returns True for a held string and otherwise None, changing nothing.",
  "histories inputs", "every history over any strings", HIST, ST + "trie.py " + UM, [("Trie", ST + "trie.py"), ("TrieNode", UM)],
  "Model-based random histories with all prefixes queried after each operation, and all short histories.", "stateful property-based testing against a set of strings")
TR = "pydatastructs/trees/"
P("U01", "Nodes hold exactly what they are given and share nothing with one another",
  "A tree, linked-list, skip-list, trie or set node reports the key, data and links it was given or last set to, starts unlinked otherwise and prints them, whatever is done to other nodes; "
  "children added to binomial, m-ary and trie nodes are exactly those added and not removed, in order, a binomial child's parent being its adopter. A MAryTree holds its root, uses the comparator given and prints its nodes with their children.",
  "histories inputs", "every kind of node and value, and every order of writes", HIST, UM + " pydatastructs/utils/_backend/cpp/TreeNode.hpp " + TR + "m_ary_trees.py",
  [("the node classes", UM), ("TreeNode C++", "pydatastructs/utils/_backend/cpp/TreeNode.hpp"), ("MAryTree", TR + "m_ary_trees.py")],
  "Random sets of nodes and writes.", "stateful property-based testing against dictionaries and lists")
P("U02", "An unsupported name, backend or operation is refused before anything changes",
  "An algorithm, implementation, order, strategy or data structure name that the function or class does not offer raises NotImplementedError, also when another function offers it, and a combination a backend lacks is never answered with None. "
  "An entry point with Python code only raises ValueError for any other backend, an operation an abstract class or a static graph lacks raises NotImplementedError, a constructor given data without a key, a segment that is no pair, elements that are no nodes or the like raises ValueError or TypeError, and the arguments stay as they were.",
  "inputs configurations", "every entry point that takes a name or a backend, every name",
  "The tests try a few unknown names; the property quantifies over all names at all entry points.",
  GA + " " + ST + "algorithms.py " + UM + " pydatastructs/graphs/graph.py pydatastructs/miscellaneous_data_structures/queue.py pydatastructs/miscellaneous_data_structures/algorithms.py " + TR + "binary_trees.py",
  [("the dispatch by name", GA), ("raise_if_backend_is_not_python", UM)], "The whole table of names and entry points, on random arguments.",
  "exhaustive and random testing of the dispatch table against the documented names")
P("U03", "No call to the C++ backend crashes; a call it refuses changes nothing",
  "Whatever arguments a constructor, method, attribute or algorithm of the C++ backend is called with, however many, and whatever the callables among them raise, it returns or raises an ordinary exception: the process doesn't crash or hang, and no error state is left behind (SystemError). "
  "An object whose method raised reports the same contents as before.",
  "histories inputs", "every object and algorithm of the C++ backend, every argument",
  "The tests call the C++ code with right arguments, or with one wrong one; the property quantifies over all arguments and the state they meet.",
  "pydatastructs/utils/_backend/cpp/nodes.cpp " + TR + "_backend/cpp/trees.cpp pydatastructs/graphs/_backend/cpp/graph.cpp pydatastructs/graphs/_backend/cpp/algorithms.cpp",
  [("C++ nodes", "pydatastructs/utils/_backend/cpp/nodes.cpp"), ("C++ trees", TR + "_backend/cpp/trees.cpp"),
   ("C++ graphs", "pydatastructs/graphs/_backend/cpp/graph.cpp"), ("C++ graph algorithms", "pydatastructs/graphs/_backend/cpp/Algorithms.hpp")],
  "Random calls with arguments from a pool of a hundred values, each object's contents compared before and after a refused call, under an allocator that checks block borders.",
  "stateful fuzzing with a crash, hang and unchanged-state oracle")
P("U04", "A call a Python structure refuses leaves it as it was",
  "When a method of a structure of the Python backend raises, whatever its arguments, the structure reports the same contents as before, and goes on as one of the same kind does that did not get the call. "
  "Elements are compared by a total order of their type (NaN is left out); types may be mixed, then a comparison raises.",
  "histories inputs", "every structure of the Python backend, every method, every argument",
  "The tests check that an error is raised, seldom what is left; the property quantifies over the arguments, the state and what follows.",
  TR + "heaps.py " + TR + "binary_trees.py pydatastructs/linear_data_structures/linked_lists.py pydatastructs/linear_data_structures/arrays.py "
  "pydatastructs/miscellaneous_data_structures/queue.py pydatastructs/miscellaneous_data_structures/multiset.py",
  [("heaps", TR + "heaps.py"), ("trees", TR + "binary_trees.py"), ("linked lists", "pydatastructs/linear_data_structures/linked_lists.py"),
   ("queues", "pydatastructs/miscellaneous_data_structures/queue.py")],
  "Random histories with arguments from a pool of a hundred values; contents compared before and after a refused call, and at the end with a twin that got the accepted calls only.",
  "stateful fuzzing with an unchanged-state and twin oracle")
