"""Mutation testing of the checks themselves.

usage: mutate.py [-j JOBS] [--every N] [--offset K] [--only REGEX] OUT.jsonl FILE...
FILE is relative to pydatastructs/. Every mutant that the repository's own tests let pass is given to the checks of
the properties anchored in that file; the ones no check catches are printed as SURVIVED. Works on copies of /repo and
/verif bound into private mount namespaces, so neither is touched.
"""
import argparse, ast, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MAP = [
    ('linear_data_structures/arrays.py', [('Dynamic|ArrayForTrees', 'A03 C01 T01'), ('Multi', 'A02'), ('', 'A01 A03')]),
    ('linear_data_structures/linked_lists.py', [('Skip', 'L03'), ('Circular', 'L02'), ('', 'L01 L02')]),
    ('linear_data_structures/algorithms.py', [
        ('_parallel|brick_sort_par', 'S02'), ('counting|bucket|radix', 'S03'), ('matrix', 'S10'), ('search', 'S05'),
        ('bound', 'S06'), ('is_ordered', 'S07'), ('subsequence', 'S08'), ('permutation', 'S09'), ('', 'S01 S02 S03 S05 S07')]),
    ('llvm_algorithms.py', [('', 'S04')]),
    ('trees/binary_trees.py', [
        ('BinaryTreeTraversal', 'T07'), ('Indexed', 'T08'), ('AVL', 'T03'), ('RedBlack', 'T04'), ('Cartesian|Treap', 'T05'),
        ('Splay', 'T06'), ('bound|lca|ancestor|rank|select|path|size', 'T02 T01'), ('SelfBal', 'T03 T04 T05 T06'),
        ('', 'T01 T02 T03 T06')]),
    ('trees/heaps.py', [('Binomial', 'H02'), ('', 'H01')]),
    ('trees/m_ary', [('', 'U01')]),
    ('trees/space', [('', 'T09')]),
    ('misc_util.py', [('Binomial', 'H02'), ('GraphEdge|Adjacency', 'G12 G01 G02'), ('SkipNode', 'L03'), ('TrieNode', 'P02'),
                      ('_comp|_check_range|AnonDictionary', 'S01 S05'), ('Set|Disjoint', 'M04'), ('', 'U01 T01 T03 T05 G12 L01')]),
    ('binomial_trees.py', [('', 'H02')]),
    ('disjoint_set.py', [('', 'M04')]),
    ('multiset.py', [('', 'M05')]),
    ('stack.py', [('', 'M01')]),
    ('queue.py', [('Priority', 'M03'), ('', 'M02 M03')]),
    ('sparse_table.py', [('', 'M06')]),
    ('segment_tree.py', [('', 'M07')]),
    ('miscellaneous_data_structures/algorithms.py', [('Static', 'M06'), ('Dynamic', 'M07'), ('', 'M06 M07')]),
    ('graphs/adjacency_list.py', [('', 'G01')]),
    ('graphs/adjacency_matrix.py', [('', 'G02')]),
    ('graphs/graph.py', [('', 'G01 G02 G12')]),
    ('graphs/algorithms.py', [
        ('tarjan|_visit|_assign', 'G06'), ('flow|residual', 'G10'), ('breadth|bfs', 'G03'), ('depth|dfs', 'G04'), ('minimum_sp|kruskal|prim', 'G05'),
        ('strongly|kosaraju|tarjan', 'G06'), ('bellman|dijkstra|shortest_paths', 'G07 G08'), ('all_pair|floyd|johnson', 'G08'),
        ('topolog|kahn', 'G09'), ('flow|edmonds|dinic', 'G10'), ('bridge', 'G11'), ('', 'G03 G05 G09')]),
    ('strings/algorithms.py', [('', 'P01')]),
    ('strings/trie.py', [('', 'P02')]),
    ('AVLTree.hpp', [('', 'C02')]), ('RedBlackTree.hpp', [('', 'C03')]), ('CartesianTree.hpp', [('', 'C04')]),
    ('Treap.hpp', [('', 'C04')]), ('SplayTree.hpp', [('', 'C05')]), ('BinaryTreeTraversal.hpp', [('', 'C06')]),
    ('SelfBalancingBinaryTree.hpp', [('', 'C02 C03 C05')]), ('BinarySearchTree.hpp', [('', 'C01 C02')]),
    ('BinaryTree.hpp', [('', 'C01')]), ('BinaryIndexedTree.hpp', [('', 'T08')]), ('TreeNode.hpp', [('', 'C01 C04')]),
    ('ArrayForTrees.hpp', [('', 'A03 C01')]), ('DynamicOneDimensionalArray.hpp', [('', 'A03 C01')]),
    ('OneDimensionalArray.hpp', [('', 'A01 A03')]), ('Array.hpp', [('', 'A01')]),
    ('algorithms.hpp', [('', 'S04 S05')]), ('cpp/algorithms/', [('', 'S04')]),
    ('AdjacencyList.hpp', [('', 'G01')]), ('AdjacencyMatrix.hpp', [('', 'G02')]),
    ('AdjacencyListGraphNode.hpp', [('', 'G12 G01')]), ('AdjacencyMatrixGraphNode.hpp', [('', 'G12 G02')]),
    ('GraphEdge.hpp', [('', 'G12')]), ('Algorithms.hpp', [('bread', 'G03'), ('prim|minimum', 'G05'), ('short|dijk', 'G07'), ('', 'G03 G05 G07')]),
    ('graph', [('', 'G12 G01')]),
    ('Stack.hpp', [('', 'M01')]), ('stack', [('', 'M01')]), ('Trie', [('', 'P02')]), ('string', [('', 'P01')]),
]


def ids_for(path, qual):
    for frag, rules in MAP:
        if frag in path:
            for rx, ids in rules:
                if re.search(rx, qual, re.I):
                    return ids.split()
    return []


SKIP_CALLS = {'raise_if_backend_is_not_python', '_check_type', 'super', 'NotImplementedError', 'ValueError', 'TypeError',
              'IndexError', 'KeyError', 'OverflowError'}
CMP = {'Lt': ['<=', '>'], 'LtE': ['<', '>='], 'Gt': ['>=', '<'], 'GtE': ['>', '<='], 'Eq': ['!='], 'NotEq': ['=='],
       'Is': ['is not'], 'IsNot': ['is'], 'In': ['not in'], 'NotIn': ['in']}
BIN = {'Add': '-', 'Sub': '+', 'Mult': '+', 'FloorDiv': '*', 'Mod': '+', 'Div': '*'}
SWAP = {'left': 'right', 'right': 'left', 'head': 'tail', 'tail': 'head', 'next': 'prev', 'prev': 'next', 'append': 'appendleft',
        'popleft': 'pop', 'min': 'max', 'max': 'min', 'u': 'v', 'v': 'u', 'start': 'end', 'end': 'start', 'front': 'rear',
        'rear': 'front', 'key': 'data', 'source': 'target', 'i': 'j', 'j': 'i', 'children': 'parent'}


class Py:
    def __init__(self, src):
        self.src = src
        self.lines = src.split('\n')
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.b = src.encode()
        self.out = []
        self.qual = []

    def pos(self, line, col):
        return self.off[line - 1] + col

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def text(self, n):
        a, e = self.span(n)
        return self.b[a:e].decode()

    def emit(self, a, e, new, kind, line):
        self.out.append((a, e, new, kind, line, '.'.join(self.qual)))

    def between(self, l, r, old, new, kind, line):
        a = self.span(l)[1]
        e = self.span(r)[0]
        mid = self.b[a:e].decode()
        i = mid.find(old)
        if i < 0:
            return
        self.emit(a + len(mid[:i].encode()), a + len(mid[:i].encode()) + len(old), new, kind, line)

    def visit(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in ('methods', '__repr__', '_lazy'):
                return
            self.qual.append(n.name)
            for s in n.body:
                self.visit(s)
            self.qual.pop()
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)):
            return
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('__slots__', '__all__'):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and self.callee(n.value) in SKIP_CALLS:
            return
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            k = type(n.ops[0]).__name__
            old = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==', 'NotEq': '!=', 'Is': 'is', 'IsNot': 'is not',
                   'In': 'in', 'NotIn': 'not in'}[k]
            for new in CMP[k]:
                self.between(n.left, n.comparators[0], old, new, 'cmp', ln)
        elif isinstance(n, ast.BinOp) and type(n.op).__name__ in BIN:
            k = type(n.op).__name__
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                old = {'Add': '+', 'Sub': '-', 'Mult': '*', 'FloorDiv': '//', 'Mod': '%', 'Div': '/'}[k]
                self.between(n.left, n.right, old, BIN[k], 'arith', ln)
        elif isinstance(n, ast.AugAssign) and type(n.op).__name__ in ('Add', 'Sub'):
            old = '+=' if isinstance(n.op, ast.Add) else '-='
            self.between(n.target, n.value, old, '-=' if old == '+=' else '+=', 'aug', ln)
        elif isinstance(n, ast.BoolOp):
            old = 'and' if isinstance(n.op, ast.And) else 'or'
            for l, r in zip(n.values, n.values[1:]):
                a, e = self.span(l)[1], self.span(r)[0]
                i = re.search(r'\b%s\b' % old, self.b[a:e].decode())
                if i:
                    self.emit(a + i.start(), a + i.end(), 'or' if old == 'and' else 'and', 'bool', ln)
            for k, v in enumerate(n.values):
                a, e = self.span(v)
                self.emit(a, e, 'True' if old == 'and' else 'False', 'dropterm', ln)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, e = self.span(n)
            self.emit(a, e, '(' + self.text(n.operand) + ')', 'not', ln)
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                a, e = self.span(n)
                self.emit(a, e, str(not n.value), 'const', ln)
            elif isinstance(n.value, int):
                a, e = self.span(n)
                self.emit(a, e, str(n.value + 1), 'const', ln)
                if n.value:
                    self.emit(a, e, str(n.value - 1), 'const', ln)
        elif isinstance(n, (ast.Attribute,)) and n.attr in SWAP:
            e = self.span(n)[1]
            self.emit(e - len(n.attr), e, SWAP[n.attr], 'swap', ln)
        elif isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
            a, e = self.span(n)
            self.emit(a, e, SWAP[n.id], 'swapname', ln)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, e = self.span(n.test)
            self.emit(a, e, 'False', 'cond', ln)
            if not isinstance(n, ast.While):
                self.emit(a, e, 'True', 'cond', ln)
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords and self.callee(n) not in SKIP_CALLS:
            a0, e0 = self.span(n.args[0])
            a1, e1 = self.span(n.args[1])
            if not any(isinstance(x, ast.Starred) for x in n.args[:2]):
                self.emit(a0, e1, self.text(n.args[1]) + ', ' + self.text(n.args[0]), 'argswap', ln)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and self.qual:
            a, e = self.span(n)
            self.emit(a, e, 'pass', 'drop', ln)
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            a, e = self.span(n)
            self.emit(a, e, 'return None', 'ret', ln)
        if isinstance(n, ast.Break):
            a, e = self.span(n)
            self.emit(a, e, 'pass', 'break', ln)
        if isinstance(n, ast.Continue):
            a, e = self.span(n)
            self.emit(a, e, 'pass', 'continue', ln)
        for c in ast.iter_child_nodes(n):
            self.visit(c)

    def callee(self, c):
        f = c.func
        return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''


def py_mutants(src):
    p = Py(src)
    for n in ast.parse(src).body:
        p.visit(n)
    seen, out = set(), []
    for a, e, new, kind, line, qual in p.out:
        k = (a, e, new)
        if k not in seen and p.b[a:e].decode() != new:
            seen.add(k)
            out.append((a, e, new, kind, line, qual))
    return p.b, out


CRX = [(r'(?<![<>=!\-])<(?![<=])(?= )', ['<=', '>']), (r'<=', ['<', '>=']), (r'(?<= )>(?![>=])', ['>=', '<']), (r'>=', ['>', '<=']),
       (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']), (r'(?<= )\+(?= )', ['-']), (r'(?<= )-(?= )', ['+']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'->left\b', ['->right']), (r'->right\b', ['->left']),
       (r'\bPy_True\b', ['Py_False']), (r'\bPy_False\b', ['Py_True']), (r'(?<![\w.\[x])\d+(?![\w.])', ['+1']),
       (r'!(?=[_a-zA-Z(])', ['']), (r'\bbreak;', [';']), (r'\bcontinue;', [';']), (r'\+=', ['-=']), (r'-=', ['+=']), (r'\+\+', ['--'])]


def cpp_mutants(src):
    out, off, qual = [], 0, ''
    for no, line in enumerate(src.split('\n'), 1):
        m = re.match(r'^(?:static|inline|template|PyObject|void|bool|long|int)\b.*?(\w+)\s*\(', line)
        if m:
            qual = m.group(1)
        code = line.split('//')[0]
        if not (line.strip().startswith('#') or 'PyErr_' in line or 'PyType_Ready' in line or 'PyArg_Parse' in line
                or line.strip().startswith('{"') or '/*' in line or not line.startswith('    ') or 'Py_INCREF' in line
                or 'Py_DECREF' in line or '_Check(' in line):
            body = re.sub(r'"(?:[^"\\]|\\.)*"', lambda m: ' ' * len(m.group()), code)
            for rx, news in CRX:
                for m in re.finditer(rx, body):
                    for new in news:
                        t = str(int(m.group()) + 1) if new == '+1' else new
                        a = off + len(line[:m.start()].encode())
                        out.append((a, a + len(m.group().encode()), t, 'cpp', no, qual))
            s = code.strip()
            if s.endswith(';') and ('=' in s or s.endswith(');')) and not re.match(r'(return|for|if|while|static)\b', s) \
                    and not re.match(r'[\w:<>*]+\*? +\*?\w+( =|;|\()', s):
                a = off + len(code) - len(code.lstrip())
                out.append((a, a + len(s.encode()), ';', 'drop', no, qual))
        off += len(line.encode()) + 1
    return src.encode(), out


def sh(cmd, t):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -9, 'timeout'


def ns(d, cmd, t):
    return sh(['timeout', '-k', '5', str(t), 'unshare', '-Urm', 'bash', '-c',
               'mount --bind %s/repo /repo; mount --bind %s/verif /verif; cd /repo; %s' % (d, d, cmd)], t + 20)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-j', type=int, default=6)
    ap.add_argument('--every', type=int, default=1)
    ap.add_argument('--offset', type=int, default=0)
    ap.add_argument('--only', default='')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--ids', default='')
    ap.add_argument('out')
    ap.add_argument('files', nargs='+')
    a = ap.parse_args()
    repo = os.environ.get('MUT_REPO', '/repo')
    todo = []
    for f in a.files:
        raw = open(os.path.join(repo, 'pydatastructs', f), newline='').read()
        crlf = '\r\n' in raw
        src = raw.replace('\r\n', '\n')
        b, ms = (py_mutants if f.endswith('.py') else cpp_mutants)(src)
        for m in ms:
            if re.search(a.only, m[5]):
                todo.append((f, crlf, b, m))
    todo = todo[a.offset::a.every]
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d['file'], d['a'], d['e'], d['new']))
    todo = [t for t in todo if (t[0], t[3][0], t[3][1], t[3][2]) not in done]
    print(len(todo), 'mutants', flush=True)
    if a.list:
        return
    base = '/tmp/mw/%d' % os.getpid()
    pool = queue.Queue()
    for i in range(a.j):
        d = '%s/%d' % (base, i)
        os.makedirs(d)
        shutil.copytree(repo, d + '/repo', symlinks=True)
        shutil.copytree(HERE, d + '/verif', symlinks=True, ignore=shutil.ignore_patterns('seeded', '.git', '.build'))
        ns(d, '/opt/venv/bin/python /verif/run.py --setup', 200)
        pool.put(d)
    fh = open(a.out, 'a')
    count = {}

    def one(t):
        f, crlf, b, (s, e, new, kind, line, qual) = t
        d = pool.get()
        p = '%s/repo/pydatastructs/%s' % (d, f)
        orig = open(p, 'rb').read()
        try:
            mut = (b[:s] + new.encode() + b[e:]).decode()
            if f.endswith('.py'):
                try:
                    compile(mut, f, 'exec')
                except (SyntaxError, ValueError):
                    return
            open(p, 'w', newline='').write(mut.replace('\n', '\r\n') if crlf else mut)
            build = '' if f.endswith('.py') else 'bash -c ". /opt/vp/common.sh; build_extensions" >/dev/null 2>&1 || exit 77; '
            rc, o = ns(d, 'export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=/repo; ' + build +
                       '/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=60 --doctest-modules '
                       '--ignore-glob="*/tests/benchmarks" pydatastructs', 240)
            res = {'file': f, 'a': s, 'e': e, 'new': new, 'old': b[s:e].decode(), 'kind': kind, 'line': line, 'qual': qual}
            if rc != 0:
                res['res'] = 'build' if rc == 77 else 'tests'; res['o'] = o[-600:]
            else:
                res['res'] = 'SURVIVED'
                for pid in (a.ids.split() or ids_for(f, qual)):
                    rc, o = ns(d, 'cd /verif; VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python run.py %s --noshrink' % pid, 900)
                    if rc == 1 and 'VIOLATION property=' in o:
                        res['res'] = pid
                        break
                    if rc != 0:
                        res['note'] = '%s rc=%d %s' % (pid, rc, o[-200:])
            fh.write(json.dumps(res) + '\n')
            fh.flush()
            count[res['res']] = count.get(res['res'], 0) + 1
            if res['res'] == 'SURVIVED':
                print('SURVIVED %s:%d %s [%s] %r -> %r | %s %s' % (
                    f, line, qual, kind, b[s:e].decode()[:80], new, mut.split('\n')[line - 1].strip()[:110], res.get('note', '')), flush=True)
        finally:
            open(p, 'wb').write(orig)
            pool.put(d)

    try:
        with ThreadPoolExecutor(a.j) as ex:
            list(ex.map(one, todo))
    finally:
        subprocess.run(['rm', '-r', base])
    print(count)


main()
