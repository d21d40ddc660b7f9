#!/opt/venv/bin/python -Wignore
"""automut.py [-n N] [-s SEED] [-p PARALLEL] [-f REGEX] OUT: mutation score

Makes small changes of the syntax tree of rf and runs the checks which belong
to the function; writes results line by line to OUT (JSON)."""
import warnings
warnings.simplefilter('ignore')
import argparse, ast, json, os, random, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO = '/repo'
MAP = [  # first match
    (r'deconvolve.py:(deconvolve|__find_nearest)', 'C07 C05 C11 C12'),
    (r'deconvolve.py:deconv_waterlevel', 'C09 C12'),
    (r'deconvolve.py:(deconv_time|_acorrt|_xcorrt|_add_zeros)', 'C08 C12 C07'),
    (r'deconvolve.py:deconv_iterative', 'C10 C12'),
    (r'deconvolve.py:deconv_multitaper', 'C11 C12'),
    (r'deconvolve.py:', 'C09 C10 C11 C08 C12'),
    (r'harmonics.py:', 'C23'),
    (r'imaging.py:', 'C24'),
    (r'profile.py:', 'C21 C22'),
    (r'simple_model.py:SimpleModel.(ppoint|__ppoint)', 'C04'),
    (r'simple_model.py:', 'C03 C01 C02 C04'),
    (r'rfstream.py:.*(trim2|slice2|_reftime|_seconds)', 'C15'),
    (r'rfstream.py:(RFStream.rf|_rotate|RFStream._rot)', 'C05 C06 C07'),
    (r'rfstream.py:.*moveout', 'C01 C02'),
    (r'rfstream.py:.*ppoint', 'C04'),
    (r'rfstream.py:.*stack', 'C20'),
    (r'rfstream.py:.*(write|_to_|read|_from|__init__|method|type)', 'C13 C14 C26'),
    (r'rfstream.py:.*(rfstats|obj2stats)', 'C16 C17'),
    (r'rfstream.py:.*harmon', 'C23'),
    (r'rfstream.py:RFTrace.__str__', ''),
    (r'rfstream.py:.*__get_(event|unique)', 'C17'),
    (r'rfstream.py:.*deconvolve', 'C07'),
    (r'rfstream.py:.*profile', 'C22'),
    (r'rfstream.py:.*plot', 'C24'),
    (r'rfstream.py:', 'C13 C14 C16 C17 C15 C05'),
    (r'util.py:.*IterMulti', 'C18 C06'),
    (r'util.py:.*(iter_event|pbar|direct|Event)', 'C19'),
    (r'util.py:minimal', ''),
    (r'util.py:', 'C19 C18 C20'),
    (r'batch.py:(init_data|load_func)', 'C19 C25'),
    (r'batch.py:', 'C25 C26'),
    (r'__init__', ''),
]


class Finder(ast.NodeVisitor):
    def __init__(self):
        self.stack, self.out = [], []

    def add(self, node, new, kind):
        if self.stack and self.infunc:
            self.out.append((node, new, kind, '.'.join(self.stack)))

    @property
    def infunc(self):
        return self.depth > 0
    depth = 0

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        for d in n.args.defaults:
            self.depth += 1
            self.visit(d)
            self.depth -= 1
        self.depth += 1
        for s in n.body:
            self.visit(s)
        self.depth -= 1
        self.stack.pop()

    def visit_Compare(self, n):
        sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE,
              ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
              ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
              ast.IsNot: ast.Is}
        for i, o in enumerate(n.ops):
            m = ast.Compare(n.left, list(n.ops), n.comparators)
            m.ops[i] = sw[type(o)]()
            self.add(n, m, 'cmp')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
              ast.Div: ast.Mult, ast.FloorDiv: ast.Div}
        if type(n.op) in sw and not (isinstance(n.left, ast.Constant) and
                                     isinstance(n.left.value, str)):
            self.add(n, ast.BinOp(n.left, sw[type(n.op)](), n.right), 'bin')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, ast.Constant(not v), 'const')
        elif isinstance(v, (int, float)):
            self.add(n, ast.Constant(v + 1), 'const')
            if v not in (0, 1):
                self.add(n, ast.Constant(v * 1.02 if isinstance(v, float)
                                         else v - 1), 'const')
        elif isinstance(v, str) and 0 < len(v) < 20 and '\n' not in v:
            self.add(n, ast.Constant(v + 'x'), 'str')

    def visit_BoolOp(self, n):
        op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        self.add(n, ast.BoolOp(op, n.values), 'bool')
        for i in range(len(n.values)):
            v = n.values[:i] + n.values[i + 1:]
            self.add(n, ast.BoolOp(n.op, v) if len(v) > 1 else v[0], 'drop')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.add(n, n.operand, 'unary')
        self.generic_visit(n)

    def visit_If(self, n):
        for v in (True, False):
            self.add(n.test, ast.Constant(v), 'if')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, n.body, 'ifexp')
        self.add(n, n.orelse, 'ifexp')
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.add(n, ast.Pass(), 'del')

    def visit_Assert(self, n):
        pass

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.add(n, ast.Pass(), 'del')
        self.generic_visit(n)

    def visit_Assign(self, n):
        if len(n.targets) == 1 and not isinstance(n.targets[0], ast.Name):
            self.add(n, ast.Pass(), 'del')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, ast.Pass(), 'del')
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.add(n, ast.Break(), 'cont')

    def visit_Break(self, n):
        self.add(n, ast.Continue(), 'cont')

    def visit_Return(self, n):
        self.generic_visit(n)

    def visit_Call(self, n):
        for i, k in enumerate(n.keywords):
            self.add(n, ast.Call(n.func, n.args, n.keywords[:i] +
                                 n.keywords[i + 1:]), 'kw')
        if len(n.args) == 2:
            self.add(n, ast.Call(n.func, n.args[::-1], n.keywords), 'swap')
        self.generic_visit(n)


def mutants():
    for f in sorted(os.listdir(REPO + '/rf')):
        if not f.endswith('.py') or f == '__init__.py':
            continue
        src = open('%s/rf/%s' % (REPO, f), 'rb').read()
        fi = Finder()
        fi.visit(ast.parse(src))
        lines = [0]
        for ln in src.split(b'\n'):
            lines.append(lines[-1] + len(ln) + 1)
        for node, new, kind, fn in fi.out:
            a = lines[node.lineno - 1] + node.col_offset
            b = lines[node.end_lineno - 1] + node.end_col_offset
            try:
                t = ast.unparse(ast.fix_missing_locations(new))
            except Exception:
                continue
            if kind not in ('del', 'const', 'str', 'if', 'cont'):
                t = '(' + t + ')'
            t = t.encode()
            m = src[:a] + t + src[b:]
            try:
                compile(m, f, 'exec')
            except SyntaxError:
                continue
            yield dict(file='rf/' + f, line=node.lineno, fn=fn, kind=kind,
                       old=src[a:b].decode(), new=t.decode(), src=m)


def checks_of(m):
    k = '%s:%s' % (os.path.basename(m['file']), m['fn'])
    for pat, c in MAP:
        if re.match(pat, k):
            return c.split()
    return []


def work(m):
    d = tempfile.mkdtemp(prefix='amut')
    try:
        shutil.copytree(REPO, d + '/repo',
                        ignore=shutil.ignore_patterns('.git'))
        open(d + '/repo/' + m['file'], 'wb').write(m['src'])
        r = dict((k, m[k]) for k in ('file', 'line', 'fn', 'kind', 'old',
                                     'new'))
        r['result'] = 'survived'
        r['runs'] = []
        for c in checks_of(m):
            try:
                p = subprocess.run(
                    ['/opt/venv/bin/python', a.verif + '/run_check.py', c,
                     '--jobs', str(a.jobs)],
                    env=dict(os.environ, RF_REPO=d + '/repo',
                             RF_EVIDENCE=d + '/ev'), timeout=900,
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    text=True)
                rc, out = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                rc, out = -1, ''
            o = re.findall(r'^  .*\((.*?)\): ', out, re.M)[-1:]
            r['runs'].append([c, rc, o[0][:80] if o else ''])
            if rc == 1 and 'VIOLATION' in out:
                r['result'] = 'killed'
                break
        if r['result'] == 'survived' and a.tests:
            p = subprocess.run('timeout 300 /opt/venv/bin/python -m pytest -q -x '
                               'rf 2>&1 | tail -3', shell=True,
                               cwd=d + '/repo', stdout=subprocess.PIPE,
                               text=True)
            r['tests'] = p.stdout[-200:]
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


p = argparse.ArgumentParser()
p.add_argument('out')
p.add_argument('-n', type=int, default=100)
p.add_argument('-s', type=int, default=1)
p.add_argument('-p', type=int, default=3)
p.add_argument('-f', default='.')
p.add_argument('--jobs', type=int, default=4)
p.add_argument('--tests', action='store_true')
p.add_argument('--list', action='store_true')
p.add_argument('--verif', default='/verif')
a = p.parse_args()
ms = [m for m in mutants() if checks_of(m) and not (
    m['kind'] == 'str' and 'run_cli' in m['fn']) and re.search(a.f, '%s:%s' % (m['file'], m['fn']))]
print(len(ms), 'mutants')
if a.list:
    import collections
    for k, v in sorted(collections.Counter(
            (m['file'], m['fn'], ' '.join(checks_of(m))) for m in ms).items()):
        print(v, *k)
    raise SystemExit
random.Random(a.s).shuffle(ms)
ms = ms[:a.n]
with ThreadPoolExecutor(a.p) as ex, open(a.out, 'a') as f:
    for r in ex.map(work, ms):
        f.write(json.dumps(r) + '\n')
        f.flush()
