"""Systematic small changes of the code under test, to look for blind spots.

  python3 tools/mutate.py gen OUT.jsonl            list mutants
  python3 tools/mutate.py tests IN.jsonl OUT.jsonl  keep those passing the tests
  python3 tools/mutate.py checks IN.jsonl OUT.jsonl [SCALE]
                                   run the checks of the changed module on each

Everything happens in copies bind-mounted over /repo in mount namespaces.
"""
import ast
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = '/repo/src/zope/index/'
CHECKS = {
    'field/index.py': 'C01 C02 C18 C19 C20 C21 C22 C23 C24',
    'field/sorting.py': 'C02 C22 C23 C24 C20',
    'keyword/index.py': 'C03 C04 C05 C18 C19 C20 C21 C22 C23 C24',
    'topic/index.py': 'C06 C19 C20 C21 C22 C23 C24',
    'topic/filter.py': 'C06 C19 C20 C21 C22 C23 C24',
    'nbest.py': 'C27 C02',
    'text/setops.py': 'C28 C12 C07 C22 C24',
    'text/widcode.py': 'C25 C08',
    'text/ricecode.py': 'C26',
    'text/htmlsplitter.py': 'C17 C07',
    'text/stopdict.py': 'C17',
    'text/lexicon.py': 'C16 C17 C09 C30 C20 C21 C23 C07 C08',
    'text/parsetree.py': 'C15 C07 C12 C22 C31 C23',
    'text/queryparser.py': 'C15 C07 C12 C22 C31 C23',
    'text/textindex.py': 'C12 C31 C07 C30 C20 C22 C24 C18 C13',
    'text/baseindex.py': 'C07 C08 C09 C10 C11 C12 C13 C18 C19 C20 C21 C22 '
                         'C23 C24 C29 C30 C31 C32 C33 C34',
    'text/okapiindex.py': 'C10 C12 C13 C14 C18 C19 C20 C21 C22 C23 C24 C29 '
                          'C31 C32 C33 C34',
    'text/cosineindex.py': 'C11 C12 C13 C18 C19 C20 C22 C23 C24 C29 C31 C32 C33 C34',
    'text/okascore.c': 'C14 C10',
}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'],
       ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'],
       ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'],
       ast.FloorDiv: ['*'], ast.Mod: ['*'], ast.LShift: ['>>'],
       ast.RShift: ['<<'], ast.BitAnd: ['|'], ast.BitOr: ['&'],
       ast.Pow: ['*']}


def offsets(src):
    out, n = [0], 0
    for line in src.split('\n'):
        n += len(line.encode()) + 1
        out.append(n)
    return out


def mutants(fn):
    src = open(ROOT + fn).read()
    data = src.encode()
    off = offsets(src)
    tree = ast.parse(src)

    def pos(node):
        return (off[node.lineno - 1] + node.col_offset,
                off[node.end_lineno - 1] + node.end_col_offset)

    def seg(node):
        a, b = pos(node)
        return data[a:b].decode()

    for parent in ast.walk(tree):
        for child in ast.iter_child_nodes(parent):
            child.parent = parent

    def rep(node, text, what):
        a, b = pos(node)
        old = data[a:b].decode()
        if old != text:
            return {'file': fn, 'a': a, 'b': b, 'new': text,
                    'line': node.lineno, 'what': what,
                    'old': old}

    def between(x, y, ops, what):
        """Replace the operator between two nodes."""
        a, b = pos(x)[1], pos(y)[0]
        text = data[a:b].decode()
        for new in ops:
            yield {'file': fn, 'a': a, 'b': b, 'line': x.lineno,
                   'new': ' %s ' % new if not text.strip().endswith('(')
                   else None, 'what': what, 'old': text}

    docs = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            b = node.body
            if b and isinstance(b[0], ast.Expr) and isinstance(
                    b[0].value, ast.Constant):
                docs.add(b[0])
    for node in ast.walk(tree):
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            yield from between(node.left, node.comparators[0],
                               CMP.get(type(node.ops[0]), []), 'cmp')
        elif isinstance(node, ast.BinOp):
            yield from between(node.left, node.right,
                               BIN.get(type(node.op), []), 'bin')
        elif isinstance(node, ast.BoolOp):
            new = 'or' if isinstance(node.op, ast.And) else 'and'
            for x, y in zip(node.values, node.values[1:]):
                yield from between(x, y, [new], 'bool')
                yield rep(node, seg(x), 'bool-left')
                yield rep(node, seg(y), 'bool-right')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield rep(node, seg(node.operand), 'not')
        elif isinstance(node, ast.Constant):
            v = node.value
            if v is True or v is False:
                yield rep(node, repr(not v), 'bool')
            elif isinstance(v, (int, float)):
                for w in (v + 1, v - 1, v * 2 + 3):
                    yield rep(node, repr(w), 'const')
        elif isinstance(node, (ast.If, ast.IfExp, ast.While)):
            t = seg(node.test)
            yield rep(node.test, 'not (%s)' % t, 'negate')
            if not isinstance(node, ast.While):
                yield rep(node.test, 'True', 'if-true')
            yield rep(node.test, 'False', 'if-false')
        elif isinstance(node, ast.Return) and node.value is not None:
            yield rep(node.value, 'None', 'return-none')
        elif isinstance(node, ast.Break):
            yield rep(node, 'continue', 'break')
            yield rep(node, 'pass', 'break')
        elif isinstance(node, ast.Continue):
            yield rep(node, 'break', 'continue')
            yield rep(node, 'pass', 'continue')
        elif isinstance(node, ast.AugAssign):
            a, b = pos(node.target)[1], pos(node.value)[0]
            op = data[a:b].decode().strip()
            new = {'+=': '-=', '-=': '+=', '|=': '&=', '&=': '|='}.get(op)
            for n in filter(None, [new, '=']):
                yield {'file': fn, 'a': a, 'b': b, 'new': ' %s ' % n,
                       'line': node.lineno, 'what': 'aug', 'old': op}
        elif isinstance(node, ast.Call):
            for i, arg in enumerate(node.args):
                if len(node.args) == 1 and not node.keywords:
                    # f(x) -> x
                    yield rep(node, '(%s)' % seg(arg), 'unwrap')
            for kw in node.keywords:
                if kw.arg and node.args:
                    a = pos(node.args[-1])[1]
            if len(node.args) == 2:
                x, y = node.args
                a, b = pos(x)[0], pos(y)[1]
                yield {'file': fn, 'a': a, 'b': b, 'line': node.lineno,
                       'new': '%s, %s' % (seg(y), seg(x)), 'what': 'swap',
                       'old': data[a:b].decode()}
        elif isinstance(node, ast.Subscript) and isinstance(
                node.slice, ast.Slice):
            yield rep(node, seg(node.value), 'slice')
        elif isinstance(node, ast.ExceptHandler) and node.type is not None:
            yield rep(node.type, 'ZeroDivisionError', 'except')
            yield rep(node.type, 'Exception', 'except')
        elif isinstance(node, (ast.ListComp, ast.GeneratorExp,
                               ast.SetComp, ast.DictComp)):
            for g in node.generators:
                for t in g.ifs:
                    yield rep(t, 'True', 'comp-if')
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign,
                             ast.Delete, ast.Raise, ast.Return)) and (
                node not in docs) and isinstance(
                getattr(node, 'parent', None),
                (ast.FunctionDef, ast.If, ast.For, ast.While, ast.Try,
                 ast.With, ast.ExceptHandler)):
            yield rep(node, 'pass', 'delete')


def gen(out):
    n, seen = 0, set()
    with open(out, 'w') as f:
        for fn in CHECKS:
            if not fn.endswith('.py'):
                continue
            data = open(ROOT + fn, 'rb').read()
            for m in mutants(fn):
                if not m or m['new'] is None:
                    continue
                new = data[:m['a']] + m['new'].encode() + data[m['b']:]
                if new in seen:
                    continue
                seen.add(new)
                try:
                    compile(new, fn, 'exec')
                except SyntaxError:
                    continue
                m['id'] = n
                n += 1
                f.write(json.dumps(m) + '\n')
    print(n, 'mutants')


TEST = r'''
mount --bind "$W" /repo || exit 99
cd /repo; . /opt/vp/env.sh
timeout 100 "$PY" -m pytest -q -x -p no:cacheprovider --timeout=10 \
  -o python_files='test_*.py tests.py' -k 'not test_suite' src >/dev/null 2>&1
rc=$?
[ $rc = 0 ] || exit 1
D=$(mktemp -d)
timeout 60 "$PY" -m zope.testrunner --test-path=src -m 'zope.index.field.tests|test_textindexwrapper' -t README >$D/zt 2>&1 || { rm -r "$D"; exit 1; }
timeout -k 5 90 "$PY" -m sphinx -q -b doctest -D intersphinx_timeout=2 -d "$D/d" docs "$D/doctest" >$D/log 2>&1
if grep -q '^\*\*\*Test Failed' "$D/doctest/output.txt"; then rm -r "$D"; exit 1; fi
rm -r "$D"
exit 0
'''
CHECK = r'''
mount --bind "$W" /repo || exit 99
cd "$V"
for p in $C; do
  VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 600 /opt/venv/bin/python -B run.py $p --shards 2 --scale $SCALE > "$V/out" 2>&1
  rc=$?
  if [ $rc = 1 ]; then echo "caught by $p: $(grep -A1 '^sub-check' $V/out | tail -1 | cut -c1-150)"; exit 0; fi
  if [ $rc != 0 ]; then echo "error $rc in $p: $(tail -1 $V/out | cut -c1-200)"; fi
done
echo MISSED
'''


def apply(m, w):
    fn = os.path.join(w, 'src/zope/index', m['file'])
    data = open(ROOT + m['file'], 'rb').read()
    with open(fn, 'wb') as f:
        f.write(data[:m['a']] + m['new'].encode() + data[m['b']:])
    return fn, data


def pool(src, out, n, job):
    todo = [json.loads(line) for line in open(src)]
    done = set()
    if os.path.exists(out):
        done = {json.loads(line)['id'] for line in open(out)}
    q = queue.Queue()
    tmp = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    for k in range(n):
        d = os.path.join(tmp, str(k))
        subprocess.check_call(['cp', '-a', '/repo', d])
        v = os.path.join(tmp, 'v%d' % k)
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns(
            '.git', 'seeded', 'replays', 'evidence', '__pycache__'))
        q.put((d, v))

    def run(m):
        if m['id'] in done:
            return
        w, v = q.get()
        fn, data = apply(m, w)
        try:
            m['result'] = job(m, w, v)
        finally:
            with open(fn, 'wb') as f:
                f.write(data)
            q.put((w, v))
        with open(out, 'a') as f:
            f.write(json.dumps(m) + '\n')
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(run, todo))
    shutil.rmtree(tmp)


def tests(m, w, v):
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', TEST],
                          env=dict(os.environ, W=w)).returncode


def checks(scale):
    def run(m, w, v):
        p = subprocess.run(
            ['unshare', '-Urm', 'bash', '-c', CHECK],
            env=dict(os.environ, W=w, V=v, C=CHECKS[m['file']],
                     SCALE=scale), capture_output=True, text=True)
        return p.stdout + p.stderr
    return run


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'gen':
        gen(sys.argv[2])
    elif cmd == 'tests':
        pool(sys.argv[2], sys.argv[3], 8, tests)
    else:
        pool(sys.argv[2], sys.argv[3], 4, checks(
            sys.argv[4] if len(sys.argv) > 4 else '0.3'))
