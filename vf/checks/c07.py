"""C07 Boolean text queries match exactly the right documents."""
from hypothesis import strategies as st

from vf import query
from vf.checks import _large, _text
from vf.core import Known, Prop, Sub, expect, fail
from vf.obs import diff, idlist, raises

RULE = (
    'Histories on text indexes of both ranking methods, both families and '
    'six pipelines, then query strings printed from generated syntax trees '
    '(words, phrases quoted or joined by punctuation, prefix patterns, AND, '
    'OR, NOT, hyphens, parentheses, stop words, any letter case). Oracle: '
    'the boolean meaning of the tree over the reference word lists; queries '
    'without a positive word must raise ParseError. Non-trivial: an answer '
    'is neither empty nor everything for a query of at least two parts, '
    'after a reindexing or removal.')


def strategy():
    return query.narrow(st.tuples(
        _text.histories(), st.booleans(),
        st.lists(query.queries(slices=True), min_size=2, max_size=7)))


def check(case, ctx):
    from zope.index.text.parsetree import ParseError
    (rank, f, pipeline, idmap, ops), default, queries = case
    default = default and pipeline == 'default' and rank == 'okapi' and f != 64
    b = _text.Both(rank, f, pipeline, idmap, default)
    for i, op in enumerate(ops):
        b.run(op)
        if i % 7 == 6:
            ask(b, queries[i % len(queries)], ctx, ParseError)
    for q in queries:
        ask(b, q, ctx, ParseError)
    # every word, in both cases
    for w in sorted(b.model.vocabulary())[:8]:
        want = set(b.model.word(w))
        got = idlist(b.ix.apply('"%s"' % w), repr(w))
        expect(set(got) == want, 'query %r: %s', w, diff(got, want))
    ctx.label(rank)
    ctx.label('pipeline ' + pipeline)
    ctx.label('>10 documents', len(b.model.docs) > 10)


def ask(b, q, ctx, ParseError):
    q = query.concrete(q, b.model.docs)
    s = query.text(q)
    ev = query.Evaluation(b.model, b.pipeline)
    try:
        want = set(ev.run(q))
    except query.Rejected:
        r = raises(ParseError, b.ix.apply, s)
        expect(not r, 'query %r %s instead of raising ParseError', s, r)
        ctx.label('rejected')
        return
    try:
        got = b.ix.apply(s)
    except ParseError as e:
        fail('query %r raises ParseError: %s', s, e)
    got = idlist(got, 'query %r' % s)
    expect(set(got) == want, 'query %r: %s', s, diff(got, want))
    if want and len(want) < len(b.model.docs):
        ctx.nontrivial(b.again and query.size(q) > 1)
        for lab in ev.labels:
            ctx.label(lab)


def dotted_i():
    """'\\u0130'.lower() ends in a combining character, which is not a word
    character: the normalized word is split when normalized again."""
    from zope.index.text.textindex import TextIndex
    ix = TextIndex()
    ix.index_doc(1, '\u0130stanbul')
    if list(ix.apply('\u0130stanbul')) != [1]:
        return 'U+0130'
    return ''


PROP = Prop('C07', RULE, [
    Sub('boolean', strategy, check, 6000, rule=RULE),
    Sub('large', lambda: _large.collections(),
        _large.check_matches, 1000, rule=_large.RULE + ' Oracle: the reference model; non-trivial: a query of more than 8 words, or a pattern, finds some but not all documents.')],
            known=[Known(
                'dotted-capital-I',
                "a word containing U+0130 (its lower case has a combining "
                "character) is never found: TextIndex indexing and querying "
                "'\\u0130stanbul'", dotted_i)],
            assumptions=[
                'words whose lower case is not a fixed point of the pipeline '
                '(U+0130) are excluded: known finding',
                'patterns inside phrases are excluded: their meaning is '
                'undocumented'])
