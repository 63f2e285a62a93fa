#!/usr/bin/env python3
"""
Mutation campaign: small changes to each function of /repo, those which pass the existing tests are given to the quick checks.
Results (one JSON line per mutant) are appended to OUT; survivors are to be judged by hand (equivalent, out of scope, or a blind spot).
usage: tools/mutate.py OUT.jsonl [--jobs N] [--sample P] [--list] [FILE-substring ...]
"""
import os, sys, ast, json, shutil, subprocess, random, hashlib, threading, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = 'pylib/uxml/'
FILES = {
    U + 'parser.py': 'p01 p02 p03 p04 p10',
    U + 'tree.py': 'p05 p06 p04 p10 p16 p11 p17',
    U + 'treeiter.py': 'p09 p10 p04',
    U + 'treeutil.py': 'p16 p17',
    U + 'writer.py': 'p07 p06 p19',
    U + 'xml.py': 'p08 p07 p09 p10 p04',
    U + 'xmliter.py': 'p08 p09 p10 p07',
    U + 'html5.py': 'p18 p10 p06 p19 p11',
    U + 'html5iter.py': 'p09 p18 p07 p10',
    U + 'uxpath/__init__.py': 'p14 p12 p11 p13 p10',
    U + 'uxpath/functions.py': 'p12 p14 p11 p13',
    U + 'uxpath/lexrules.py': 'p13 p11 p12',
    U + 'uxpath/parserules.py': 'p13 p11 p12',
    U + 'uxpath/xast.py': 'p11 p12 p13 p14 p10',
    'exec/microx': 'p19',
}
SKIP = {'__repr__'}


def mutants(src):
    """[(start offset, end offset, replacement, description)]"""
    tree = ast.parse(src)
    lines = src.splitlines(True)
    enc = [l.encode('utf-8') for l in lines]
    starts = [0]
    for l in lines: starts.append(starts[-1] + len(l))
    def off(line, col): return starts[line - 1] + len(enc[line - 1][:col].decode('utf-8'))
    def span(n): return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
    def seg(n): a, b = span(n); return src[a:b]
    out = []
    def add(n, repl, why):
        a, b = span(n)
        if src[a:b] != repl: out.append((a, b, repl, '%d: %s: %s -> %s' % (n.lineno, why, src[a:b][:70].replace('\n', ' '), repl[:70].replace('\n', ' '))))
    CMP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not', '=='], ast.IsNot: ['is']}
    BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.Mod: '+', ast.FloorDiv: '*'}
    def visit(n, doc=None):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.name in SKIP: return
            for d, k in zip(n.args.defaults[::-1], n.args.args[::-1]):
                pass
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP[type(n.ops[0])]: add(n, '%s %s %s' % (seg(n.left), o, seg(n.comparators[0])), 'compare')
        if isinstance(n, ast.BoolOp):
            op = ' and ' if isinstance(n.op, ast.Or) else ' or '
            add(n, '(' + op.join('(%s)' % seg(v) for v in n.values) + ')', 'boolop')
            for v in n.values: add(n, '(' + (' or ' if isinstance(n.op, ast.Or) else ' and ').join('(%s)' % seg(w) for w in n.values if w is not v) + ')', 'drop operand')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): add(n, '(' + seg(n.operand) + ')', 'not')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN: add(n, '%s %s %s' % (seg(n.left), BIN[type(n.op)], seg(n.right)), 'binop')
        if isinstance(n, ast.Constant) and not getattr(n, 'is_doc', False):
            v = n.value
            if v is True: add(n, 'False', 'const')
            elif v is False: add(n, 'True', 'const')
            elif isinstance(v, int): add(n, str(v + 1), 'const'); add(n, '(%d)' % (v - 1), 'const')
            elif isinstance(v, str) and not getattr(n, 'in_f', False):
                add(n, repr(v + 'X') if v else "'X'", 'const')
                if v: add(n, "''", 'const')
                if len(v) > 1: add(n, repr(v[:-1]), 'const'); add(n, repr(v[1:]), 'const')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if not isinstance(n.test, ast.Constant):
                if not isinstance(n, ast.While): add(n.test, 'True', 'cond')
                add(n.test, 'False', 'cond')
        if isinstance(n, ast.comprehension):
            for c in n.ifs: add(c, 'True', 'comp if')
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Continue, ast.Break)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(n, 'pass', 'statement')
            if isinstance(n, ast.Continue): add(n, 'break', 'statement')
            if isinstance(n, ast.Break): add(n, 'continue', 'statement')
        if isinstance(n, ast.Return) and n.value is not None: add(n, 'return None', 'return')
        if isinstance(n, ast.Return) and n.value is None: add(n, 'pass', 'return')
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Yield): pass
        if isinstance(n, ast.Call):
            if n.args:
                if len(n.args) + len(n.keywords) > 1:
                    a = [seg(x) for x in n.args[:-1]] + [('%s=%s' % (k.arg, seg(k.value)) if k.arg else '**' + seg(k.value)) for k in n.keywords]
                    add(n, '%s(%s)' % (seg(n.func), ', '.join(a)), 'drop arg')
                if len(n.args) == 2:
                    a = [seg(n.args[1]), seg(n.args[0])] + [('%s=%s' % (k.arg, seg(k.value)) if k.arg else '**' + seg(k.value)) for k in n.keywords]
                    add(n, '%s(%s)' % (seg(n.func), ', '.join(a)), 'swap args')
            for k in n.keywords:
                a = [seg(x) for x in n.args] + [('%s=%s' % (j.arg, seg(j.value)) if j.arg else '**' + seg(j.value)) for j in n.keywords if j is not k]
                add(n, '%s(%s)' % (seg(n.func), ', '.join(a)), 'drop kwarg')
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, (ast.Name,)) and n.func.id in ('list', 'str', 'iter', 'tuple', 'float', 'sorted', 'reversed', 'set', 'bool', 'to_string', 'to_number', 'to_boolean', 'strval'):
                add(n, '(' + seg(n.args[0]) + ')', 'drop call')
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for part in ('lower', 'upper'):
                if getattr(n.slice, part) is not None:
                    a, b = (seg(n.slice.lower) if n.slice.lower else ''), (seg(n.slice.upper) if n.slice.upper else '')
                    if part == 'lower': a = ''
                    else: b = ''
                    add(n, '%s[%s:%s]' % (seg(n.value), a, b), 'slice')
            if n.slice.lower is None and n.slice.upper is None and n.slice.step is None: add(n, seg(n.value), 'slice copy')
        if isinstance(n, ast.ExceptHandler) and n.type is not None: add(n.type, 'ZeroDivisionError', 'except')
        for i, c in enumerate(ast.iter_child_nodes(n)):
            visit(c)
    for n in ast.walk(tree):
        # Texts of messages are nobody's property
        if isinstance(n, ast.Raise) or isinstance(n, ast.keyword) and n.arg in ('help', 'description', 'metavar'):
            for c in ast.walk(n):
                if isinstance(c, ast.Constant) and isinstance(c.value, str): c.is_doc = True
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant): n.body[0].value.is_doc = True
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): n.value.is_doc = True
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('__all__', 'BE_KEYWORDS', 'usage', 'logger'):
            for c in ast.walk(n):
                if isinstance(c, ast.Constant): c.is_doc = True
        if isinstance(n, ast.JoinedStr):
            for c in ast.walk(n):
                if isinstance(c, ast.Constant): c.in_f = True
    visit(tree)
    seen, res = set(), []
    for m in out:
        new = src[:m[0]] + m[2] + src[m[1]:]
        if new in seen: continue
        seen.add(new)
        try: compile(new, 'x', 'exec')
        except (SyntaxError, ValueError): continue
        res.append((new, m[3]))
    return res


SCALE = '0.2'

def sh(cmd, **kw): return subprocess.run(cmd, capture_output=True, text=True, errors='replace', **kw)


class Worker(threading.Thread):
    def __init__(self, n, q, out, lock, ncpu):
        super().__init__(daemon=True)
        self.n, self.q, self.out, self.lock, self.ncpu = n, q, out, lock, ncpu
        self.repo = '/tmp/mut/w%d' % n

    def inside(self, cmd, timeout=600, env=None):
        try: return sh(['unshare', '-Urm', '--kill-child', '-pf', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (self.repo, cmd)], timeout=timeout, env=env)
        except subprocess.TimeoutExpired: return None

    def run(self):
        shutil.rmtree(self.repo, ignore_errors=True)
        os.makedirs('/tmp/mut', exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', self.repo], check=True)
        env = dict(os.environ, VERIF_EVIDENCE=self.repo + '-ev', VERIF_SCALE=SCALE)
        while True:
            try: path, new, why, key = self.q.get_nowait()
            except queue.Empty: break
            full = os.path.join(self.repo, path)
            old = open(full).read()
            open(full, 'w').write(new)
            res = {'key': key, 'file': path, 'why': why}
            try:
                t = self.inside('. /opt/vp/env.sh; rm -f pylib/uxml/uxpath/parsetab.py pylib/uxml/uxpath/parser.out; timeout 60 $PY -m pytest -x -q -p no:cacheprovider --timeout=50 test', timeout=120)
                last = (t.stdout.strip().splitlines() or ['?'])[-1] if t else 'timeout'
                res['tests'] = last.startswith('123 passed')
                if res['tests']:
                    res['by'] = None
                    for c in FILES[path].split():
                        r = self.inside('timeout 300 %s %s %s --seed 1 --workers %d' % (sys.executable, os.path.join(VERIF, 'run.py'), c, self.ncpu), timeout=400, env=env)
                        if r is None: res.setdefault('odd', []).append(c + ': timeout'); continue
                        if r.returncode == 1 and 'VIOLATION' in r.stdout: res['by'] = c; break
                        if r.returncode not in (0, 2) or 'Traceback' in r.stdout + r.stderr: res.setdefault('odd', []).append('%s: %d %s' % (c, r.returncode, (r.stdout + r.stderr)[-200:]))
            finally:
                open(full, 'w').write(old)
            with self.lock:
                open(self.out, 'a').write(json.dumps(res) + '\n')


def main():
    args = sys.argv[1:]
    jobs, sample, listing = 8, 1.0, '--list' in args
    if listing: args.remove('--list')
    if '--jobs' in args: i = args.index('--jobs'); jobs = int(args[i + 1]); del args[i:i + 2]
    if '--sample' in args: i = args.index('--sample'); sample = float(args[i + 1]); del args[i:i + 2]
    again = '--again' in args       # survivors once more, with everything
    if again:
        args.remove('--again')
        global SCALE
        SCALE = '1'
    out = args[0]
    done = {}
    if os.path.exists(out):
        for l in open(out): r = json.loads(l); done[r['key']] = r['tests'] and not r['by']
    def wanted(key):
        if again: return done.get(key)
        return key not in done and int(key, 16) % 1000 < sample * 1000
    work = []
    for path in FILES:
        if args[1:] and not any(a in path for a in args[1:]): continue
        src = open('/repo/' + path).read()
        ms = mutants(src)
        print(path, len(ms))
        for new, why in ms:
            key = hashlib.sha1((path + new).encode()).hexdigest()[:12]
            if wanted(key): work.append((path, new, why, key))
    if listing: return
    random.Random(5).shuffle(work)
    q = queue.Queue()
    for w in work: q.put(w)
    lock = threading.Lock()
    ws = [Worker(i, q, out, lock, max(1, 8 // jobs)) for i in range(jobs)]
    for w in ws: w.start()
    for w in ws: w.join()


if __name__ == '__main__': main()
