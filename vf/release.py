"""The process that stores indexes with the released code (see release/)."""
import ast
import base64
import os
import pickle
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RELEASE = os.path.join(HERE, 'release')


class Release:
    """The client: ask the released code for a stored object."""

    def __init__(self):
        env = dict(os.environ, VERIF_REPO=RELEASE, PURE_PYTHON='1')
        self.p = subprocess.Popen(
            [sys.executable, '-B', '-W', 'ignore', '-m', 'vf.release'],
            cwd=HERE, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            text=True)

    def stored(self, *request):
        from vf.boot import HarnessError
        self.p.stdin.write(repr(request) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise HarnessError('the process with the released code ended')
        return base64.b64decode(line)


def main():
    from vf import boot
    if boot.VT not in sys.path:
        sys.path.append(boot.VT)
    import zope
    zope.__path__ = [os.path.join(RELEASE, 'src', 'zope')] + [
        x for x in zope.__path__ if x != '/repo/src/zope']
    import zope.index.text.okapiindex
    assert zope.index.__file__.startswith(RELEASE), zope.index.__file__
    assert zope.index.text.okapiindex.score is None
    from vf import kinds
    for line in sys.stdin:
        what, *args = ast.literal_eval(line)
        if what == 'index':
            cfg, ops, protocol = args
            kind = kinds.kind(cfg)
            out = kind.make()
            for op in ops:
                kind.run(out, op)
        elif what == 'rice':
            m, values, protocol = args
            from zope.index.text import ricecode
            out = ricecode.encode(m, list(values))
        elif what == 'wids':
            values, protocol = args
            from zope.index.text import widcode
            out = widcode.encode(list(values))
        elif what == 'deltas':
            values, protocol = args
            from zope.index.text import ricecode
            out = ricecode.encode_deltas(list(values))
        else:
            raise ValueError(what)
        print(base64.b64encode(pickle.dumps(out, protocol)).decode(),
              flush=True)


if __name__ == '__main__':
    main()
