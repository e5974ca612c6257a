"""C36 The compiled and the pure-Python configuration are interchangeable."""
import pickle

from hypothesis import strategies as st

from vf import gen, kinds, pure
from vf.core import Prop, Sub, expect

RULE = (
    'An index of any kind lives in turn in two processes, one with the C '
    'extensions of this package, BTrees and persistent, the other without any '
    '(PURE_PYTHON): each runs a generated history on it, looks at it, pickles '
    'it and hands it to the other. Oracle: in both, the model of the contents '
    'after the whole history so far. Non-trivial: both change the index, '
    'which has at least two documents when handed over.')

_pure = []


def other():
    if not _pure:
        _pure.append(pure.Pure())
    return _pure[0]


def cases():
    def one(cfg):
        K = kinds.KINDS[cfg[0]]
        leg = gen.seqs(K.ops(), 1, 24, 8).map(tuple)
        return st.tuples(st.just(cfg), st.booleans(),
                         st.lists(leg, min_size=1, max_size=3),
                         st.integers(0, 5))
    return kinds.configs().flatmap(one)


def check(case, ctx):
    cfg, first, legs, protocol = case
    kind = kinds.kind(cfg)
    data = None
    before = []
    handed = 0
    for n, ops in enumerate(legs):
        handed += n and len(kind.docs) > 1
        if (n % 2 == 0) == first:
            what, out = other().ask(cfg, tuple(before), data, tuple(ops),
                                    protocol)
            expect(what == 'ok', 'pure Python: %s', out)
            for op in ops:
                for step in kind.expand(op):
                    kind.mstep(step)
            data = out
        else:
            if data is None:
                ix = kind.make()
            else:
                ix = kind.prepare(pickle.loads(data))
                kind.verify(ix, 'stored by pure Python')
            pure.go_on(kind, ix, ops)
            data = pickle.dumps(ix, protocol)
        before += ops
    ix = kind.prepare(pickle.loads(data))
    kind.verify(ix, 'loaded at the end')
    ctx.nontrivial(handed)
    ctx.label(kind.name)
    ctx.label('%d legs' % len(legs))


PROP = Prop('C36', RULE, [Sub('turns', cases, check, 3000, rule=RULE)],
            assumptions=['the Python classes of BTrees and persistent pickle '
                         'like the C ones'])
