"""C33 How postings are stored never changes text answers."""
from hypothesis import strategies as st

from vf import gen, kinds
from vf.checks._zodb import Database
from vf.core import Prop, Sub, expect
from vf.gen import weighted
from vf.kinds import same

RULE = (
    'A text index of either ranking method, stored in a database, whose '
    'DICT_CUTOFF is changed and whose objects are '
    'committed and evicted at generated points of a history with few or '
    'hundreds of documents, next to an index in memory that is never tuned, '
    'and a reference model; all word, phrase, pattern and query results, '
    'scores and statistics of the three are compared along the way. '
    'Non-trivial: some word has more documents than some cutoff in force '
    'before, and fewer than another.')

cutoffs = st.one_of(st.integers(0, 14), st.integers(0, 4), st.sampled_from(
    [-1, 30, 64, 100, 10 ** 9]))


def strategy():
    def one(cfg):
        K = kinds.KINDS[cfg[0]]
        op = weighted(
            (16, K.ops()),
            (2, st.tuples(st.just('bi'), gen.refs, gen.bulk_sizes,
                          K.contents(), st.integers(0, 1))),
            (4, st.tuples(st.just('cut'), cutoffs)),
            (3, st.just(('commit',))), (1, st.just(('look',))))
        return st.tuples(st.just(cfg), gen.seqs(op, 3, 50, 18))
    return kinds.configs(['okapi', 'cosine']).flatmap(one)


def check(case, ctx):
    cfg, ops = case
    kind = kinds.kind(cfg)
    plain = kind.make()
    cuts, sizes = {10}, set()
    with Database() as db:
        conn, tm = db.open()
        conn.root()['ix'] = kind.make()
        tm.commit()

        def look(where):
            want = kind.expected()
            for name, ix in (('tuned', conn.root()['ix']), ('untuned', plain)):
                d = same(kind.observe(ix), want)
                expect(not d, '%s index, %s: %s', name, where, d)

        for op in ops:
            ix = conn.root()['ix']
            if op[0] == 'cut':
                kind.base(ix).DICT_CUTOFF = op[1]
                cuts.add(op[1])
            elif op[0] == 'commit':
                tm.commit()
                conn.cacheMinimize()
            elif op[0] == 'look':
                look('meanwhile')
            else:
                for step in kind.expand(op):
                    kind.step(ix, step)
                    kind.step(plain, step)
                    kind.mstep(step)
                counts = {}
                for ws in kind.docs.values():
                    for w in set(ws):
                        counts[w] = counts.get(w, 0) + 1
                sizes.update(counts.values())
        look('at the end')
        tm.commit()
        conn.cacheMinimize()
        look('reloaded')
    ctx.nontrivial(any(min(cuts) < n < max(cuts) for n in sizes))
    ctx.label(kind.name)
    ctx.label('over 10 documents', max(sizes or [0]) > 10)


PROP = Prop('C33', RULE, [Sub('cutoffs', strategy, check, 3000, rule=RULE)])
