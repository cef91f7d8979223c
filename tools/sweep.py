"""Mutation sweep, a development aid: which small changes pass the repository's tests and the checks?

sweep.py list OUT.json            -- all mutants of the library
sweep.py tests IN OUT [workers]   -- those that the repository's tests let pass
sweep.py checks IN OUT [workers]  -- for those, the check that catches each (None: survives)
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

REPO = '/repo'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {'association.py': 'C08 C09 C06 C01', 'cryptutil.py': 'C09', 'dh.py': 'C09 C10', 'extension.py': 'C24 C25 C26', 'fetchers.py': 'C30', 'kvform.py': 'C22 C08', 'message.py': 'C21 C12 C27 C28 C24',
       'oidutil.py': 'C21 C09 C27', 'urinorm.py': 'C19 C14', 'consumer/consumer.py': 'C01 C28 C27 C02 C03 C04 C10 C09 C23 C20', 'consumer/discover.py': 'C16 C03 C18 C02 C20 C17',
       'extensions/ax.py': 'C25 C23', 'extensions/pape.py': 'C26 C23', 'extensions/sreg.py': 'C24 C23', 'server/server.py': 'C12 C11 C13 C09 C10 C02 C28', 'server/trustroot.py': 'C14 C15 C11',
       'store/filestore.py': 'C06 C05 C07 C32', 'store/memstore.py': 'C05 C06 C04 C13', 'store/sqlstore.py': 'C05 C06 C31 C04 C32', 'store/nonce.py': 'C05 C04', 'yadis/accept.py': 'C29 C16 C32', 'yadis/discover.py': 'C16 C18 C15',
       'yadis/etxrd.py': 'C16 C17 C18', 'yadis/filters.py': 'C16 C17 C15', 'yadis/services.py': 'C16 C17 C15', 'yadis/manager.py': 'C20', 'yadis/parsehtml.py': 'C16 C18', 'yadis/xri.py': 'C17 C18 C19', 'yadis/xrires.py': 'C17 C18'}
CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '*'}
DROP = {'strip', 'lower', 'upper', 'rstrip', 'lstrip', 'copy', 'encode', 'decode'}


class Find(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.split('\n')
        self.off = [0]
        for line in self.lines:
            self.off.append(self.off[-1] + len(line.encode()) + 1)
        self.raw = src.encode()
        self.out = []

    def span(self, node):
        return self.off[node.lineno - 1] + node.col_offset, self.off[node.end_lineno - 1] + node.end_col_offset

    def seg(self, node):
        a, b = self.span(node)
        return self.raw[a:b].decode()

    def put(self, node, text, what):
        a, b = self.span(node)
        self.out.append((a, b, text, what, node.lineno))

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), ()):
                self.put(n, '(%s %s %s)' % (self.seg(n.left), op, self.seg(n.comparators[0])), 'compare')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        parts = [self.seg(v) for v in n.values]
        for i in range(len(parts)):
            self.put(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % p for j, p in enumerate(parts) if j != i) + ')', 'drop operand')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.put(n, '(%s)' % self.seg(n.operand), 'drop not')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not isinstance(n.left, ast.Constant):
            self.put(n, '(%s %s %s)' % (self.seg(n.left), BIN[type(n.op)], self.seg(n.right)), 'arithmetic')
        self.generic_visit(n)

    def visit_If(self, n):
        self.put(n.test, 'True', 'if True')
        self.put(n.test, 'False', 'if False')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n, '(%s)' % self.seg(n.body), 'if-expression')
        self.put(n, '(%s)' % self.seg(n.orelse), 'if-expression')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.put(n, str(not n.value), 'constant')
        elif isinstance(n.value, int):
            self.put(n, str(n.value + 1), 'constant')
            self.put(n, str(n.value - 1), 'constant')
        elif isinstance(n.value, str) and n.value and n.lineno == n.end_lineno and self.seg(n)[0] in '\'"':
            self.put(n, self.seg(n)[0] + 'XX' + self.seg(n)[1:], 'string')

    def visit_JoinedStr(self, n):
        pass

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in DROP and not n.keywords:
            self.put(n, self.seg(f.value), 'drop .%s()' % f.attr)
        if isinstance(f, ast.Name) and f.id in ('sorted', 'list', 'reversed', 'set') and len(n.args) == 1:
            self.put(n, self.seg(n.args[0]), 'drop %s()' % f.id)
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            s = [self.seg(a) for a in n.args]
            self.put(n.args[-1], s[-2], 'last argument repeats the one before')
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            self.put(n, self.seg(n.value), 'drop slice')
        self.generic_visit(n)

    def visit_ExceptHandler(self, n):
        if isinstance(n.type, ast.Tuple):
            for i in range(len(n.type.elts)):
                self.put(n.type, '(' + ''.join(self.seg(e) + ', ' for j, e in enumerate(n.type.elts) if j != i) + ')', 'narrow except')
        elif n.type is not None:
            self.put(n.type, '()', 'drop except')
        self.generic_visit(n)

    def stmt(self, n):
        self.put(n, 'pass', 'drop ' + type(n).__name__)
        self.generic_visit(n)

    visit_AugAssign = visit_Raise = visit_Continue = visit_Break = visit_Delete = visit_Assert = stmt

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        t = self.seg(n)
        if '_LOGGER' in t or 'warnings.warn' in t:
            return
        self.stmt(n)

    def visit_Assign(self, n):
        if not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.put(n.value, 'None', 'assign None')
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.put(n, 'return None', 'return None')
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        if n.name in ('__repr__', '__str__'):
            return
        for s in n.body:
            self.visit(s)
        for d in n.args.defaults:
            self.visit(d)


def listing():
    out = []
    for f in sorted(MAP):
        src = open(os.path.join(REPO, 'openid', f)).read()
        finder = Find(src)
        finder.visit(ast.parse(src))
        seen = set()
        for a, b, text, what, line in finder.out:
            old = finder.raw[a:b].decode()
            if old == text or (a, b, text) in seen:
                continue
            new = (finder.raw[:a] + text.encode() + finder.raw[b:]).decode()
            try:
                compile(new, f, 'exec')
            except (SyntaxError, ValueError):
                continue
            seen.add((a, b, text))
            out.append({'id': len(out), 'file': f, 'a': a, 'b': b, 'text': text, 'old': old, 'what': what, 'line': line})
    return out


def apply(m, root):
    p = os.path.join(root, 'openid', m['file'])
    raw = open(os.path.join(REPO, 'openid', m['file']), 'rb').read()
    assert raw[m['a']:m['b']].decode() == m['old']
    with open(p, 'wb') as f:
        f.write(raw[:m['a']] + m['text'].encode() + raw[m['b']:])


def restore(m, root):
    shutil.copy(os.path.join(REPO, 'openid', m['file']), os.path.join(root, 'openid', m['file']))


def pool(items, workers, work, outfile, base):
    roots = Queue()
    for i in range(workers):
        r = '%s/r%d' % (base, i)
        shutil.rmtree(r, ignore_errors=True)
        shutil.copytree(REPO, r, ignore=shutil.ignore_patterns('__pycache__', '.git'))
        roots.put(r)
    done = []

    def one(m):
        r = roots.get()
        try:
            apply(m, r)
            res = work(m, r)
        finally:
            restore(m, r)
            roots.put(r)
        if res is not None:
            done.append(res)
            if len(done) % 20 == 0:
                json.dump(done, open(outfile, 'w'), indent=0)
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, items))
    json.dump(done, open(outfile, 'w'), indent=0)


def tests(m, root):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=root)
    try:
        p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=30', '-o', 'python_functions=NO_TEST_FUNCTIONS', 'openid'],
                           cwd=root, env=env, capture_output=True, timeout=120)
    except subprocess.TimeoutExpired:
        return None
    return m if p.returncode == 0 and b'937 passed' in p.stdout else None


def checks(m, root):
    m = dict(m, caught=None, other=[])
    for c in MAP[m['file']].split():
        try:
            p = subprocess.run(['python3', HERE + '/run.py', c, '--no-evidence', '--shards', '3'], env=dict(os.environ, VERIF_REPO=root), cwd=root, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            m['other'].append([c, 'timeout'])
            continue
        if p.returncode == 1:
            m['caught'] = c
            m['why'] = p.stdout[:200]
            break
        if p.returncode != 0:
            m['other'].append([c, p.returncode])
    return m


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'list':
        res = listing()
        json.dump(res, open(sys.argv[2], 'w'), indent=0)
        print(len(res))
    else:
        items = json.load(open(sys.argv[2]))
        random.Random(1).shuffle(items)
        pool(items, int(sys.argv[4]) if len(sys.argv) > 4 else 4, tests if cmd == 'tests' else checks, sys.argv[3], os.environ.get('SWEEP', '/tmp/sweep'))
