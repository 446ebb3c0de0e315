"""Which module holds which property: by the letter of its id."""
MODULES = {"A": "arrays", "L": "linked", "S": "sorting", "T": "trees", "C": "cpptrees", "H": "heaps",
           "M": "misc", "G": "graphs", "P": "strings",
           "U": "nodes"}


def module_of(pid):
    try:
        return MODULES[pid[0]]
    except KeyError:
        raise SystemExit("unknown property " + pid)
