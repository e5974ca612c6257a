"""C05 Keyword storage tuning never changes answers."""
from hypothesis import strategies as st

from vf import gen
from vf.core import Prop, Sub, expect
from vf.gen import weighted
from vf.kinds import CIKeyword, Keyword, common_ops, same

RULE = (
    'A keyword index whose tree_threshold is changed (instance or class level) '
    'and which is optimize()d at generated points of a history, next to one '
    'that is never tuned and a dict model; all answers and statistics of the '
    'three are compared along the way. Non-trivial: a tuning step happens '
    'while some keyword has at least two documents, and documents change '
    'afterwards.')

thresholds = st.one_of(st.integers(0, 12), st.sampled_from(
    [-1, 0, 1, 30, 63, 64, 65, 128, 10**9]), st.integers(20, 200))


def ops():
    return weighted(*(common_ops(Keyword.contents()) + [
        (2, st.tuples(st.just('bi'), gen.refs, gen.bulk_sizes,
                      Keyword.contents(), st.integers(0, 1))),
        (3, st.tuples(st.just('thr'), thresholds)),
        (3, st.just(('opt',))),
        (1, st.just(('check',)))]))


def strategy():
    return gen.families.flatmap(lambda f: st.tuples(
        st.booleans(), st.just(f), gen.idmaps(f),
        st.tuples(st.sampled_from(['str', 'int', 'tuple']),
                  st.one_of(st.none(), thresholds)),
        gen.seqs(ops(), 2, 50, 16)))


def check(case, ctx):
    from zope.index.keyword import CaseInsensitiveKeywordIndex, KeywordIndex
    ci, f, idmap, extra, ops_ = case
    if ci:
        extra = ('str', extra[1])
    K = CIKeyword if ci else Keyword
    kind = K((K.__name__, f, idmap, extra))
    tuned = kind.make()
    plain = (CaseInsensitiveKeywordIndex if ci else KeywordIndex)(*gen.fams(f))
    pending = useful = False

    def compare():
        want = kind.expected()
        for name, ix in (('tuned', tuned), ('untuned', plain)):
            d = same(kind.observe(ix), want)
            expect(not d, '%s index: %s', name, d)

    for op in ops_:
        if op[0] in ('opt', 'thr'):
            for step in kind.expand(op):
                kind.step(tuned, step)
            counts = {}
            for kws in kind.docs.values():
                for w in kws:
                    counts[w] = counts.get(w, 0) + 1
            if counts and max(counts.values()) > 1:
                pending = True
            ctx.label(op[0])
            if op[0] == 'opt':
                compare()
        elif op[0] == 'check':
            compare()
        else:
            for step in kind.expand(op):
                kind.step(tuned, step)
                kind.step(plain, step)
                kind.mstep(step)
            if pending and op[0] != 'c':
                useful = True
    compare()
    tuned.optimize()
    compare()
    ctx.label('>64 documents', len(kind.docs) > 64)
    ctx.nontrivial(useful)


PROP = Prop('C05', RULE, [Sub('tuning', strategy, check, 4000, rule=RULE)],
            assumptions=['tree_threshold is an integer'])
