"""A process that runs the code under test without any C extension (BTrees and
persistent in Python as well, as with PURE_PYTHON or on PyPy)."""
import ast
import base64
import os
import pickle
import subprocess
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Pure:
    """The client."""

    def __init__(self):
        env = dict(os.environ, PURE_PYTHON='1')
        self.p = subprocess.Popen(
            [sys.executable, '-B', '-W', 'ignore', '-m', 'vf.pure'],
            cwd=HERE, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            text=True)

    def ask(self, *request):
        """(outcome, data): 'ok' and a pickle, or 'wrong' and a text."""
        from vf.boot import HarnessError
        self.p.stdin.write(repr(request) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise HarnessError('the pure-Python process ended')
        what, data = line.split()
        data = base64.b64decode(data)
        return what, data if what == 'ok' else data.decode()


def go_on(kind, ix, ops):
    """Run operations, with looks at the index in between."""
    for n, op in enumerate(ops):
        kind.run(ix, op)
        if n == 0 or n == len(ops) // 2:
            kind.verify(ix, 'after %r' % (op,))
    kind.verify(ix, 'at the end')


def main():
    from vf import boot
    try:
        okapi = boot.setup()
    except boot.HarnessError:
        raise
    except Exception:
        # the package cannot be imported like this
        out = base64.b64encode(traceback.format_exc().encode()).decode()
        for line in sys.stdin:
            print('wrong', out, flush=True)
        return
    import BTrees.IFBTree
    assert okapi.score is None
    assert BTrees.IFBTree.IFBTree is BTrees.IFBTree.IFBTreePy
    from vf import kinds
    from vf.core import Violation
    for line in sys.stdin:
        cfg, before, data, ops, protocol = ast.literal_eval(line)
        try:
            kind = kinds.kind(cfg)
            if data is None:
                ix = kind.make()
            else:
                for op in before:
                    for step in kind.expand(op):
                        kind.mstep(step)
                ix = kind.prepare(pickle.loads(data))
                kind.verify(ix, 'stored by the other configuration')
            go_on(kind, ix, ops)
            out = 'ok', pickle.dumps(ix, protocol)
        except Violation as e:
            out = 'wrong', str(e).encode()
        except Exception:
            out = 'wrong', traceback.format_exc().encode()
        print(out[0], base64.b64encode(out[1]).decode() or '=', flush=True)


if __name__ == '__main__':
    main()
