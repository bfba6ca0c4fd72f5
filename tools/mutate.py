"""Systematic small changes of the source, to measure which the checks notice.

usage: python3-vt tools/mutate.py gen OUT.json [FILE...]       all changes that pass the tests
       python3-vt tools/mutate.py run IN.json OUT.json [N [MAX]]   checks that notice them

Not part of any check: a development tool. Works on copies under /tmp.
"""
import ast
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys

REPO = os.environ.get('MUTATE_REPO', '/repo')
PY = '/opt/venv/bin/python'
SWAP = {ast.Eq: ['!='], ast.NotEq: ['=='], ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='],
        ast.GtE: ['>', '<'], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}


def segs(src):
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    return lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    raw = src.encode()
    at = segs(src)
    out = []

    def text(n):
        a, b = at(n)
        return raw[a:b].decode()

    def add(fn, a, b, new, kind):
        out.append(dict(file=path, fn=fn, start=a, end=b, new=new, old=raw[a:b].decode(), kind=kind,
                        line=raw[:a].count(b'\n') + 1))

    def walk(node, fn, skip=False):
        for ch in ast.iter_child_nodes(node):
            name = fn
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                name = (fn + '.' if fn else '') + ch.name
                if isinstance(ch, ast.FunctionDef):
                    for st in ch.body:
                        stmt(st, name)
                        walk(st, name)
                    for d in list(ch.args.defaults) + [x for x in ch.args.kw_defaults if x]:
                        expr(d, name)
                    continue
            if isinstance(ch, ast.expr) and fn:
                expr(ch, fn)
            if isinstance(ch, ast.stmt) and fn:
                stmt(ch, fn)
            walk(ch, name)

    seen = set()

    def stmt(n, fn):
        if id(n) in seen:
            return
        seen.add(id(n))
        a, b = at(n) if hasattr(n, 'lineno') else (0, 0)
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return
            add(fn, a, b, 'pass', 'drop statement')
        elif isinstance(n, ast.AugAssign):
            add(fn, a, b, 'pass', 'drop statement')
        elif isinstance(n, ast.Raise):
            add(fn, a, b, 'pass', 'drop raise')
        elif isinstance(n, ast.Continue):
            add(fn, a, b, 'break', 'continue')
        elif isinstance(n, ast.Break):
            add(fn, a, b, 'continue', 'break')
        elif isinstance(n, (ast.If, ast.While)):
            t = text(n.test)
            x, y = at(n.test)
            if isinstance(n, ast.If):
                add(fn, x, y, f'(not ({t}))', 'negate')
                add(fn, x, y, 'False', 'never')
        elif isinstance(n, ast.Return) and n.value is not None and not (
                isinstance(n.value, ast.Constant) and n.value.value is None):
            pass
        elif isinstance(n, ast.Assign):
            pass
        elif isinstance(n, ast.Delete):
            add(fn, a, b, 'pass', 'drop statement')

    def expr(n, fn):
        if id(n) in seen:
            return
        seen.add(id(n))
        a, b = at(n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in SWAP.get(type(n.ops[0]), ()):
                add(fn, a, b, f'({text(n.left)} {op} {text(n.comparators[0])})', 'compare')
        elif isinstance(n, ast.BoolOp):
            op = ' and ' if isinstance(n.op, ast.Or) else ' or '
            add(fn, a, b, '(' + op.join(f'({text(v)})' for v in n.values) + ')', 'and/or')
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                keep = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(fn, a, b, '(' + keep.join(f'({text(v)})' for v in rest) + ')', 'drop operand')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(fn, a, b, f'({text(n.operand)})', 'drop not')
        elif isinstance(n, ast.IfExp):
            add(fn, a, b, f'({text(n.body)})', 'if-else')
            add(fn, a, b, f'({text(n.orelse)})', 'if-else')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(fn, a, b, str(not v), 'constant')
            elif type(v) is int:
                add(fn, a, b, str(v + 1), 'constant')
                if v:
                    add(fn, a, b, str(v - 1), 'constant')
            elif type(v) is str and 0 < len(v) <= 2:
                add(fn, a, b, "''", 'constant')
        elif isinstance(n, ast.BinOp):
            sw = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.FloorDiv: '*', ast.Mod: '//', ast.Pow: '*'}.get(type(n.op))
            if sw:
                add(fn, a, b, f'({text(n.left)} {sw} {text(n.right)})', 'arithmetic')
        elif isinstance(n, ast.Call):
            for kw in n.keywords:
                if kw.arg in ('element', 'type', 'path', None):
                    continue
                x, y = at(kw)
                # up to the next comma
                e = y
                while e < len(raw) and raw[e:e + 1] in b' \n':
                    e += 1
                if raw[e:e + 1] == b',':
                    add(fn, x, e + 1, '', 'drop keyword')
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in (
                    'list', 'dict', 'tuple', 'sorted', 'reversed', 'str', 'set', 'int', 'copy'):
                add(fn, a, b, f'({text(n.args[0])})', 'drop copy')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            if n.slice.lower is not None and n.slice.upper is None:
                add(fn, a, b, f'({text(n.value)})', 'drop slice')

    walk(ast.parse(src), '')
    # annotations and messages are not behaviour
    good, have = [], set()
    for m in out:
        key = m['start'], m['end'], m['new']
        if key in have:
            continue
        have.add(key)
        body = (raw[:m['start']] + m['new'].encode() + raw[m['end']:]).decode()
        try:
            if ast.dump(ast.parse(body)) == ast.dump(ast.parse(src)):
                continue
        except SyntaxError:
            continue
        good.append(m)
    return good


def copy_of(i):
    d = f'/tmp/w/mut/copy{i}'
    if not os.path.isdir(d):
        shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    return d


def apply(d, m):
    raw = open(os.path.join(REPO, m['file']), 'rb').read()
    with open(os.path.join(d, m['file']), 'wb') as f:
        f.write(raw[:m['start']] + m['new'].encode() + raw[m['end']:])


def restore(d, m):
    shutil.copyfile(os.path.join(REPO, m['file']), os.path.join(d, m['file']))


def tests(d):
    env = dict(os.environ, TZ='UTC', PYTHONPATH=d, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    try:
        r = subprocess.run([PY, '-m', 'pytest', 'test', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=20'],
                           cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=90)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def check(d, prop, jobs):
    env = dict(os.environ, SYMX_REPO=d)
    try:
        r = subprocess.run(['python3-vt', '-m', 'symx.runner', prop, '--jobs', str(jobs), '--budget', '60'], cwd=os.environ.get('VERIF_COPY', '/verif'),
                           env=env, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return 'timeout'
    if r.returncode == 1 and 'VIOLATION property=' in r.stdout:
        return 'caught'
    return 'quiet' if r.returncode == 0 else f'rc{r.returncode}'


def main():
    what = sys.argv[1]
    import queue
    free = queue.Queue()
    if what == 'gen':
        files = sys.argv[3:] or sorted(os.path.relpath(p, REPO) for p in glob.glob(REPO + '/marsh/**/*.py', recursive=True))
        todo = [m for f in files for m in mutants(f)]
        print(len(todo), 'changes')
        for i in range(8):
            free.put(copy_of(i))
        kept = []

        def one(m):
            d = free.get()
            try:
                apply(d, m)
                ok = tests(d)
                restore(d, m)
                return m, ok
            finally:
                free.put(d)
        with cf.ThreadPoolExecutor(8) as ex:
            for k, (m, ok) in enumerate(ex.map(one, todo)):
                if ok:
                    kept.append(m)
                if k % 100 == 0:
                    print(k, len(kept), flush=True)
                    json.dump(kept, open(sys.argv[2], 'w'), indent=0)
        json.dump(kept, open(sys.argv[2], 'w'), indent=0)
        print('kept', len(kept))
        return
    todo = json.load(open(sys.argv[3 - 1]))
    out = sys.argv[3]
    n = int(sys.argv[4]) if len(sys.argv) > 4 else 4
    most = int(sys.argv[5]) if len(sys.argv) > 5 else 10
    cover = json.load(open('/tmp/w/mut/cover.json'))
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import props
    anchors = {p['id']: str(p) for p in props.CLAIMED}
    for i in range(n):
        free.put(copy_of(i))
    done = json.load(open(out)) if os.path.exists(out) else []
    have = {(m['file'], m['start'], m['end'], m['new']) for m in done}

    def one(m):
        mod = m['file'][:-3].replace('/', '.')
        if mod.endswith('.__init__'):
            mod = mod[:-9]
        key = mod + ':' + m['fn']
        cand = [p for p, (fns, size) in sorted(cover.items(), key=lambda kv: (m['file'] not in anchors[kv[0]], kv[1][1])) if key in fns]
        d = free.get()
        res = {}
        try:
            apply(d, m)
            for p in cand[:most]:
                res[p] = check(d, p, max(1, 8 // n))
                if res[p] == 'caught':
                    break
            restore(d, m)
        finally:
            free.put(d)
        return dict(m, checks=res, entered=len(cand))
    todo = [m for m in todo if (m['file'], m['start'], m['end'], m['new']) not in have]
    with cf.ThreadPoolExecutor(n) as ex:
        for k, r in enumerate(ex.map(one, todo)):
            done.append(r)
            if k % 10 == 0:
                json.dump(done, open(out, 'w'), indent=0)
                print(k, len(todo), sum('caught' in r['checks'].values() for r in done), flush=True)
    json.dump(done, open(out, 'w'), indent=0)


if __name__ == '__main__':
    main()
