"""C10 and C11: scores of single words against the formula."""
from hypothesis import strategies as st

from vf import gen, query
from vf.checks import _text
from vf.core import expect
from vf.gen import weighted
from vf.obs import close, diff, scores


def ops():
    # also long documents that repeat words many times
    long = st.tuples(
        st.just('L'), st.integers(0, 9),
        st.lists(st.tuples(query.words, st.one_of(
            st.integers(1, 6), st.integers(1, 60), st.sampled_from(
                [100, 255, 256, 1000, 4000]))), min_size=1, max_size=4)
        .map(tuple))
    return weighted((18, query.ops()), (3, long), (2, st.just(('look',))))


def cases(rank):
    return gen.families.flatmap(lambda f: st.tuples(
        st.just(rank), st.just(f), _text.pipelines, gen.idmaps(f),
        gen.seqs(ops(), 1, 45, 13)))


def check(case, ctx):
    rank, f, pipeline, idmap, ops_ = case
    b = _text.Both(rank, f, pipeline, idmap)
    for op in ops_:
        if op[0] == 'look':
            compare(b, ctx, 12)
        elif op[0] == 'L':
            ws = []
            for w, n in op[2]:
                ws += [w] * n
            b.step(('i', gen.did(idmap, op[1]), (' ', tuple(ws), 'str')))
            ctx.label('long document', len(ws) > 50)
        else:
            b.run(op)
    compare(b, ctx, 1000)
    ctx.label('pipeline ' + pipeline)
    ctx.label('reindexed or removed', b.again)


EXTREME = (
    'Collections of generated shape: up to 150 documents of a common length, '
    'and a few that repeat a word up to 2000 times. Same oracle.')


def extreme(rank):
    return st.tuples(st.just(rank), gen.families, query.shapes())


def check_extreme(case, ctx):
    rank, f, shape = case
    b = _text.Both(rank, f, 'plain', None)
    b.again = True
    for d, ws in query.shaped(shape):
        b.step(('i', d, (' ', tuple(ws), 'list')))
    compare(b, ctx, 12)


def compare(b, ctx, most):
    ix, model = b.ix.index, b.model
    vocab = sorted(model.vocabulary())
    for w in vocab[:most]:
        got = scores(ix.search([w]))
        want = model.word(w)
        expect(set(got) == set(want), 'word %r: %s', w, diff(got, want))
        for d in want:
            expect(close(got[d], want[d]), 'word %r, document %r: score %r, '
                   'the formula gives %r', w, d, got[d], want[d])
        if 0 < len(want) < len(model.docs) and b.again:
            ctx.nontrivial()
        ctx.label('>10 documents with the word', len(want) > 10)
    for w in ('nosuchword', 'apple', 'Pear'):
        if w not in vocab and b.pipeline == 'plain':
            got = scores(ix.search(w))
            expect(not got, 'word %r, in no document: %r', w, got)
    expect(not scores(ix.search('nosuchword')), 'unknown word found')
