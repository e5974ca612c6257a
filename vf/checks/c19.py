"""C19 Unindexing removes every trace of a document."""
import pickle
import pickletools

from hypothesis import strategies as st

from vf import gen, kinds
from vf.core import Prop, Sub, expect
from vf.gen import weighted
from vf.kinds import same

RULE = (
    'Histories on every index kind in which one document (a unique large id) '
    'is indexed and reindexed among others, then unindexed, then more '
    'operations on the others follow. Oracle: after the removal the index '
    'answers as the model of the others, and the integer does not occur '
    'anywhere in the pickled state of the whole index (scanned opcode by '
    'opcode, after checking that it does before); unindexing ids that are '
    'not indexed changes no answer. Non-trivial: the document was in the '
    'pickle before, and shared a keyword, value or word with another.')

SENTINEL = {32: 1234567891, 33: 1234567891, 64: 2**40 + 1234567891}
REF = 8


def cases():
    def one(nf):
        name, f = nf
        K = kinds.KINDS[name]
        ids = st.sampled_from([[1, 2, 3, 4, 5, 6, 7, 8],
                               [-3, 0, 7, 100, 65536, 9, 10, 11]])
        idmap = ids.map(lambda i: (i + [SENTINEL[f]], 1000, 1))
        cfg = st.tuples(st.just(name), st.just(f), idmap, K.extras())
        op = weighted((5, K.ops(bulk=False)),
                      (2, st.tuples(st.just('i'), st.just(REF),
                                    K.contents())),
                      (1, st.tuples(st.just('bi'), st.just(gen.BULK),
                                    st.integers(1, 15), K.contents(),
                                    st.integers(0, 1))))
        return st.tuples(cfg, gen.seqs(op, 1, 20, 8), K.contents(),
                         gen.seqs(K.ops(bulk=False), 0, 10, 4),
                         st.lists(st.integers(10**6, 10**9), max_size=3))
    return st.tuples(st.sampled_from(sorted(kinds.KINDS)),
                     gen.families).flatmap(one)


def occurs(ix, number):
    data = pickle.dumps(ix, 2)
    return any(arg == number and type(arg) is int
               for _, arg, _ in pickletools.genops(data))


def check(case, ctx):
    cfg, ops, content, later, unknown = case
    kind = kinds.kind(cfg)
    ix = kind.make()
    gone = SENTINEL[kind.f]
    for op in ops + [('i', REF, content)]:
        kind.run(ix, op)
    was = occurs(ix, gone)
    # unknown ids first
    before = kind.observe(ix)
    for d in unknown:
        ix.unindex_doc(d)
    d = same(kind.observe(ix), before)
    expect(not d, 'unindexing the unknown ids %r changes: %s', unknown, d)
    kind.run(ix, ('u', REF))
    kind.verify(ix, 'after the removal of %d' % gone)
    expect(not occurs(ix, gone), 'the removed id %d still occurs in the '
           'state', gone)
    before = kind.observe(ix)
    kind.run(ix, ('u', REF))
    d = same(kind.observe(ix), before)
    expect(not d, 'unindexing %d again changes: %s', gone, d)
    for op in later:
        if len(op) > 1 and op[0] in 'iu' and kind.did(op[1]) == gone:
            continue
        kind.run(ix, op)
    kind.verify(ix, 'later, after the removal of %d' % gone)
    expect(not occurs(ix, gone), 'the removed id %d occurs in the state '
           'again', gone)
    ctx.label(kind.name)
    ctx.label('was in the state', was)
    ctx.nontrivial(was and len(kind.docs) > 1)


PROP = Prop('C19', RULE, [Sub('trace', cases, check, 4000, rule=RULE)],
            assumptions=['the removed id is larger than the others, so that '
                         'it cannot be a separator key inside a tree node'])
