"""Mutation analysis of the checks (a development tool, not a check).

    /opt/venv/bin/python tools/mutate.py cover OUT.json
    /opt/venv/bin/python tools/mutate.py run COVER.json OUT.jsonl [FILE ...]

`cover` records which sub-check executes which line of qopt. `run` makes
small changes (one operator, constant, condition, statement, argument ...) in
scratch copies under /tmp and runs the sub-checks which execute the changed
line without shrinking. It writes one line per change; the survivors show
where the checks are blind.
"""
import ast
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QOPT_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
PIDS = sorted(f[:-3].upper() for f in os.listdir(HERE + '/checks')
              if f.startswith('c') and f.endswith('.py'))
SKIP = {'__init__.py', 'plotting.py', 'performance_statistics.py'}

for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ['VERIF_NOSHRINK'] = '1'
os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = '/nonexistent-hypothesis'
sys.dont_write_bytecode = True


def preload():
    sys.path.append(VT)
    for m in ('numpy', 'scipy.linalg', 'scipy.optimize', 'scipy.special',
              'pandas', 'matplotlib.pyplot', 'qutip', 'filter_functions',
              'simanneal', 'hypothesis', 'lmfit', 'scipy.signal'):
        try:
            importlib.import_module(m)
        except ImportError:
            pass


# ------------------------------------------------------------------ mutants
class Src:
    def __init__(self, path):
        self.text = open(path).read()
        self.lines = self.text.splitlines(keepends=True)
        self.off = [0]
        for ln in self.lines:
            self.off.append(self.off[-1] + len(ln))

    def pos(self, line, col):
        # col is in utf8 bytes
        ln = self.lines[line - 1]
        return self.off[line - 1] + len(
            ln.encode()[:col].decode(errors='ignore'))

    def span(self, n):
        return (self.pos(n.lineno, n.col_offset),
                self.pos(n.end_lineno, n.end_col_offset))

    def seg(self, n):
        a, b = self.span(n)
        return self.text[a:b]


BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'],
       ast.FloorDiv: ['/'], ast.Pow: ['*'], ast.Mod: ['*']}
TOK = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
       ast.FloorDiv: '//', ast.Pow: '**', ast.Mod: '%', ast.MatMult: '@'}
CMP = {ast.Lt: ('<', ['<=']), ast.LtE: ('<=', ['<']), ast.Gt: ('>', ['>=']),
       ast.GtE: ('>=', ['>']), ast.Eq: ('==', ['!=']),
       ast.NotEq: ('!=', ['==']), ast.Is: ('is', ['is not']),
       ast.IsNot: ('is not', ['is']), ast.In: ('in', ['not in']),
       ast.NotIn: ('not in', ['in'])}
DROP = {'copy', 'deepcopy', 'conj', 'conjugate', 'dag', 'transpose', 'real',
        'abs', 'array', 'atleast_2d', 'squeeze', 'flatten', 'sqrt', 'square',
        'expand_dims', 'flip', 'tr', 'imag', 'sum', 'sorted', 'max'}


def mutants(path):
    """yields (line, kind, start, end, replacement)"""
    s = Src(path)
    tree = ast.parse(s.text)
    out = []

    def add(node, kind, a, b, new):
        out.append((node.lineno, kind, a, b, new))

    def visit(node, parent, in_annot=False):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            decs = [s.seg(d) for d in node.decorator_list]
            if any('deprecat' in d for d in decs):
                return
            body = node.body
            if body and isinstance(body[0], ast.Expr) and isinstance(
                    body[0].value, ast.Constant):
                body = body[1:]
            if isinstance(node, ast.FunctionDef):
                for d in node.args.defaults + [
                        k for k in node.args.kw_defaults if k is not None]:
                    visit(d, node)
            for b in body:
                visit(b, node)
            return
        if isinstance(node, ast.Module):
            for b in node.body:
                if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
                    visit(b, node)
            return
        if isinstance(node, ast.AnnAssign):
            if node.value is not None:
                visit(node.value, node)
            return
        if isinstance(node, ast.Raise) or isinstance(node, ast.JoinedStr):
            if isinstance(node, ast.Raise):
                add(node, 'drop-raise', *s.span(node), 'pass')
            return
        if isinstance(node, ast.BinOp):
            a = s.span(node.left)[1]
            b = s.span(node.right)[0]
            mid = s.text[a:b]
            tok = TOK.get(type(node.op))
            if tok and mid.count(tok) >= 1 and not isinstance(
                    node.left, ast.Constant) or isinstance(
                    getattr(node.left, 'value', None), (int, float, complex)):
                for new in BIN.get(type(node.op), []):
                    add(node, 'op', a, b, mid.replace(tok, new, 1))
                if isinstance(node.op, (ast.MatMult, ast.Sub, ast.Div,
                                        ast.Mult)) and '(' not in mid \
                        and ')' not in mid:
                    add(node, 'swap-operands', *s.span(node),
                        '(%s)%s(%s)' % (s.seg(node.right), mid,
                                        s.seg(node.left)))
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            a = s.span(node.left)[1]
            b = s.span(node.comparators[0])[0]
            mid = s.text[a:b]
            tok, news = CMP[type(node.ops[0])]
            for new in news:
                add(node, 'cmp', a, b, mid.replace(tok, new, 1))
        if isinstance(node, ast.BoolOp):
            a = s.span(node.values[0])[1]
            b = s.span(node.values[1])[0]
            mid = s.text[a:b]
            if isinstance(node.op, ast.And):
                add(node, 'bool', a, b, mid.replace('and', 'or', 1))
            else:
                add(node, 'bool', a, b, mid.replace('or', 'and', 1))
        if isinstance(node, ast.UnaryOp):
            if isinstance(node.op, (ast.Not, ast.USub)):
                add(node, 'unary', *s.span(node), '(' + s.seg(
                    node.operand) + ')')
        if isinstance(node, ast.Constant):
            v = node.value
            if v is True or v is False:
                add(node, 'const', *s.span(node), str(not v))
            elif isinstance(v, int):
                add(node, 'const', *s.span(node), str(v + 1))
                if v:
                    add(node, 'const', *s.span(node), '(%d)' % (v - 1))
                else:
                    add(node, 'const', *s.span(node), '(-1)')
            elif isinstance(v, (float, complex)):
                add(node, 'const', *s.span(node), '(2 * %r + .1)' % v)
            return
        if isinstance(node, (ast.If, ast.IfExp, ast.While)):
            t = node.test
            if not isinstance(node, ast.While):
                add(t, 'cond', *s.span(t), 'True')
            add(t, 'cond', *s.span(t), 'False')
        if isinstance(node, ast.Expr):
            if isinstance(node.value, ast.Constant):
                return
            add(node, 'drop-stmt', *s.span(node), 'pass')
        if isinstance(node, ast.AugAssign):
            add(node, 'drop-stmt', *s.span(node), 'pass')
            a = s.span(node.target)[1]
            b = s.span(node.value)[0]
            mid = s.text[a:b]
            tok = TOK[type(node.op)] + '='
            add(node, 'aug', a, b, mid.replace(tok, '=', 1))
            if isinstance(node.op, (ast.Add, ast.Sub)):
                new = '-=' if isinstance(node.op, ast.Add) else '+='
                add(node, 'aug', a, b, mid.replace(tok, new, 1))
        if isinstance(node, ast.Assign) and isinstance(
                node.targets[0], (ast.Attribute, ast.Subscript)):
            add(node, 'drop-stmt', *s.span(node), 'pass')
        if isinstance(node, ast.Assign) and isinstance(
                node.targets[0], ast.Name) and isinstance(parent, ast.If):
            add(node, 'drop-stmt', *s.span(node), 'pass')
        if isinstance(node, (ast.Break, ast.Continue)):
            add(node, 'loop', *s.span(node),
                'continue' if isinstance(node, ast.Break) else 'break')
        if isinstance(node, ast.For):
            it = node.iter
            add(it, 'loop-skip-first', *s.span(it),
                'list(%s)[1:]' % s.seg(it))
            add(it, 'loop-skip-last', *s.span(it),
                'list(%s)[:-1]' % s.seg(it))
            add(it, 'loop-reversed', *s.span(it),
                'list(%s)[::-1]' % s.seg(it))
        if isinstance(node, ast.Call):
            f = node.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(
                f, 'id', '')
            if name in DROP:
                if node.args and not (isinstance(f, ast.Attribute)
                                      and not isinstance(f.value, ast.Name)):
                    add(node, 'drop-call', *s.span(node),
                        '(' + s.seg(node.args[0]) + ')')
                elif isinstance(f, ast.Attribute) and not node.args:
                    add(node, 'drop-call', *s.span(node), s.seg(f.value))
            for i, k in enumerate(node.keywords):
                if k.arg is None:
                    continue
                a, b = s.span(k)
                # remove a following or a preceding comma
                j = b
                while j < len(s.text) and s.text[j] in ' \n':
                    j += 1
                if s.text[j] == ',':
                    add(k, 'drop-kw', a, j + 1, '')
                else:
                    j = a
                    while s.text[j - 1] in ' \n':
                        j -= 1
                    if s.text[j - 1] == ',':
                        add(k, 'drop-kw', j - 1, b, '')
                    else:
                        add(k, 'drop-kw', a, b, '')
            if len(node.args) >= 2 and not any(
                    isinstance(x, ast.Starred) for x in node.args[:2]):
                a = s.span(node.args[0])[0]
                b = s.span(node.args[1])[1]
                add(node, 'swap-args', a, b, '%s, %s' % (
                    s.seg(node.args[1]), s.seg(node.args[0])))
        if isinstance(node, ast.Attribute) and node.attr in ('real', 'imag',
                                                             'T'):
            add(node, 'drop-attr', *s.span(node), s.seg(node.value))
        if isinstance(node, ast.Subscript) and isinstance(
                node.slice, ast.Tuple) and len(node.slice.elts) == 2:
            e = node.slice.elts
            a = s.span(e[0])[0]
            b = s.span(e[1])[1]
            add(node, 'swap-index', a, b, '%s, %s' % (s.seg(e[1]),
                                                      s.seg(e[0])))
        if isinstance(node, ast.Return) and node.value is not None:
            pass
        for child in ast.iter_child_nodes(node):
            if isinstance(child, ast.arguments):
                continue
            visit(child, node)

    visit(tree, None)
    res = []
    for line, kind, a, b, new in out:
        res.append((line, kind, a, b, new))
    return s.text, res


# ------------------------------------------------------------------- running
def child_setup(repo):
    os.environ['QOPT_REPO'] = repo
    sys.path.insert(0, HERE)
    from vlib import core
    return core


def load(core, pid):
    core.SUBCHECKS.clear()
    importlib.import_module('checks.' + pid.lower())
    return dict(core.SUBCHECKS)


def fork_run(fn, timeout, *args):
    """Run fn(*args) in a fork; returns its JSON result or None"""
    fd, path = tempfile.mkstemp(dir='/tmp/mut')
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            signal.alarm(int(timeout))
            try:
                res = fn(*args)
            except BaseException as e:
                res = {'died': repr(e)[:500]}
            os.write(fd, json.dumps(res).encode())
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    with open(path) as f:
        data = f.read()
    os.close(fd)
    os.remove(path)
    try:
        return json.loads(data)
    except ValueError:
        return {'died': 'timeout or crash'}


def cover_one(pid):
    core = child_setup(REPO)
    pkg = os.path.realpath(REPO + '/qopt') + '/'
    mon = sys.monitoring
    mon.use_tool_id(3, 'cov')
    cur = set()

    def on_line(code, line):
        f = code.co_filename
        if f.startswith(pkg):
            cur.add((f[len(pkg):], line))
            return mon.DISABLE
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, on_line)
    scs = load(core, pid)
    res = {}
    for name, sc in scs.items():
        mon.set_events(3, mon.events.LINE)
        mon.restart_events()
        cur.clear()
        t = time.time()
        n = max(15, int(sc.quick * core.QUICK_FACTOR * .15))
        r = core.run_shard(name, 7, n, 60, 1)
        res[pid + ':' + name] = dict(
            lines=sorted(cur), t=(time.time() - t) / n,
            total=sc.quick * core.QUICK_FACTOR)
        if r['violation'] or r['error']:
            res[pid + ':' + name]['bad'] = str(r)[:300]
    path = '/tmp/mut/cover-%s.json' % pid
    json.dump(res, open(path, 'w'))
    return path


def cover(out):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(7) as ex:
        paths = list(ex.map(lambda p: fork_run(cover_one, 900, p), PIDS))
    res = {}
    for p, path in zip(PIDS, paths):
        if not isinstance(path, str):
            print(p, path)
            continue
        res.update(json.load(open(path)))
    json.dump(res, open(out, 'w'))


def run_mutant(repo, plan):
    """plan: list of (pid, sub, n)"""
    core = child_setup(repo)
    loaded = {}
    for pid, sub, n, seed in plan:
        if pid not in loaded:
            try:
                loaded[pid] = load(core, pid)
            except Exception as e:
                return {'killed': pid, 'by': 'import', 'msg': repr(e)[:200]}
        core.SUBCHECKS.clear()
        core.SUBCHECKS.update(loaded[pid])
        r = core.run_shard(sub, seed, n, 40, 1)
        if r['violation'] or r['error']:
            v = r['violation']
            return {'killed': pid, 'by': sub, 'msg': (
                v['message'] if v else r['error'])[-300:] if not v else
                v['message'][:300]}
    return {'killed': None}


def run(cover_path, out, files, limit=None, cpu=40.):
    cov = json.load(open(cover_path))
    by_line = {}
    for key, d in cov.items():
        for f, ln in d['lines']:
            by_line.setdefault((f, ln), []).append(key)
    done = set()
    if os.path.exists(out):
        for ln in open(out):
            done.add(json.loads(ln)['id'])
    jobs = []
    for f in sorted(os.listdir(REPO + '/qopt')):
        if not f.endswith('.py') or f in SKIP or (files and f not in files):
            continue
        text, ms = mutants(REPO + '/qopt/' + f)
        for line, kind, a, b, new in ms:
            i = hashlib.sha1(repr((f, text[max(0, a - 80):b + 80], a - b,
                                   kind, new)).encode()).hexdigest()[:10]
            if i in done:
                continue
            done.add(i)
            jobs.append(dict(id=i, file=f, line=line, kind=kind, a=a, b=b,
                             new=new, old=text[a:b]))
    random.Random(1).shuffle(jobs)
    if limit:
        jobs = jobs[:limit]
    print(len(jobs), 'mutants')
    base = tempfile.mkdtemp(prefix='mut', dir='/tmp/mut')
    fo = open(out, 'a')

    def work(j):
        t = time.time()
        keys = by_line.get((j['file'], j['line']))
        if not keys:
            # a continued statement: the nearest executed line above
            for d in range(1, 6):
                keys = by_line.get((j['file'], j['line'] - d))
                if keys:
                    break
        if not keys:
            j['result'] = 'uncovered'
            return j
        repo = os.path.join(base, j['id'])
        shutil.copytree(REPO + '/qopt', repo + '/qopt', ignore=shutil.
                        ignore_patterns('__pycache__'))
        p = repo + '/qopt/' + j['file']
        text = open(p).read()
        text = text[:j['a']] + j['new'] + text[j['b']:]
        try:
            compile(text, p, 'exec')
        except SyntaxError:
            j['result'] = 'syntax'
            shutil.rmtree(repo, ignore_errors=True)
            return j
        open(p, 'w').write(text)
        keys = sorted(keys, key=lambda k: (len(cov[k]['lines'])
                                           * cov[k]['t']))
        plan = []
        for frac in (.05, 1.):
            share = cpu * frac / len(keys)
            for k in keys:
                n = int(min(cov[k]['total'], max(
                    6, share / max(cov[k]['t'], 1e-4))))
                pid, sub = k.split(':', 1)
                plan.append((pid, sub, n, 101 if frac < 1 else 202))
        r = fork_run(run_mutant, cpu * 4 + 60, repo, plan)
        shutil.rmtree(repo, ignore_errors=True)
        j['result'] = ('survived' if r.get('killed', 1) is None else
                       r.get('killed') or r.get('died'))
        j['by'] = r.get('by')
        j['msg'] = r.get('msg')
        j['nkeys'] = len(keys)
        j['t'] = round(time.time() - t, 1)
        return j

    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '7'))) as ex:
        for j in ex.map(work, jobs):
            fo.write(json.dumps(j) + '\n')
            fo.flush()
    shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    os.makedirs('/tmp/mut', exist_ok=True)
    preload()
    if sys.argv[1] == 'cover':
        cover(sys.argv[2])
    elif sys.argv[1] == 'count':
        for f in sorted(os.listdir(REPO + '/qopt')):
            if f.endswith('.py') and f not in SKIP:
                print(f, len(mutants(REPO + '/qopt/' + f)[1]))
    else:
        run(sys.argv[2], sys.argv[3], sys.argv[4:])
