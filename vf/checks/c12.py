"""C12 Query scores combine word scores as the query says."""
from hypothesis import strategies as st

from vf import query
from vf.checks import _large, _text
from vf.core import Prop, Sub, expect, fail
from vf.gen import weighted
from vf.obs import close, diff, raises, scores
from vf.textmodel import combine, normalize

RULE = (
    'Histories on text indexes of both ranking methods, then generated '
    'queries of any shape. Oracle: per-document sums of formula scores over '
    'the matched parts of the tree (repeated words repeatedly, excluded parts '
    'not at all), both from the executed parse tree and, divided by the '
    'query weight of the positive words, from TextIndex.apply. Non-trivial: '
    'a document whose score sums at least two words.')


def strategy():
    return query.narrow(st.tuples(
        _text.histories(avg=9),
        st.lists(query.queries(slices=True), min_size=2, max_size=6)))


def check(case, ctx):
    from zope.index.text.queryparser import QueryParser
    (rank, f, pipeline, idmap, ops), queries = case
    b = _text.Both(rank, f, pipeline, idmap)
    for op in ops:
        b.run(op)
    for q in queries:
        q = query.concrete(q, b.model.docs)
        s = query.text(q)
        ev = query.Evaluation(b.model, pipeline)
        try:
            want = ev.run(q)
        except query.Rejected:
            ctx.label('rejected')
            continue
        tree = QueryParser(b.ix.lexicon).parseQuery(s)
        compare('executing %r' % s, scores(tree.executeQuery(b.ix.index)),
                want)
        terms = query.positive_words(q, pipeline)
        weight = b.ix.index.query_weight(terms)
        formula = b.model.query_weight(terms)
        if not close(weight, formula):
            fail('query_weight(%r) is %r, expected %r', terms, weight,
                 formula)
        if not weight:
            # only words that are not indexed (e.g. patterns)
            weight = 1.0
            ctx.label('no query weight', bool(want))
        compare('apply(%r)' % s, scores(b.ix.apply(s)),
                {d: x / weight for d, x in want.items()})
        if want and len(terms) > 1 and any(
                len(b.model.docs[d]) > 1 and x > 1.01 * max(
                    [b.model.word(w).get(d, 0) for w in terms] or [0])
                for d, x in want.items()):
            ctx.nontrivial()
        if want:
            ctx.label('repeated word', len(set(terms)) < len(terms))
            for lab in ev.labels:
                ctx.label(lab)
    ctx.label(rank)


def compare(what, got, want):
    expect(set(got) == set(want), '%s: %s', what, diff(got, want))
    for d in want:
        expect(close(got[d], want[d]), '%s: document %r scores %r, expected '
               '%r', what, d, got[d], want[d])


# -- trees made by hand ------------------------------------------------------

TREES = (
    'Histories on text indexes, then parse trees built node by node, as '
    'programs do that do not use the parser: any nesting of AND, OR and NOT '
    'nodes with words (also several in one node, stop words and unknown '
    'ones), phrases and patterns. Oracle: sums of formula scores; parts of '
    'stop words only are left out of AND, OR and NOT; a NOT that is not '
    'directly in an AND raises QueryError. Non-trivial: a document whose '
    'score comes from two parts.')


def trees():
    atom = st.tuples(st.just('ATOM'), weighted(
        (8, query.words), (2, st.sampled_from(['the', 'Of', '...', ''])),
        (1, st.just('nosuchword')), (1, st.sampled_from([
            'apple pear', 'the apple', 'plum nosuchword', 'apple apple']))))
    phrase = st.tuples(st.just('PHRASE'), weighted(
        (5, st.lists(query.words, min_size=1, max_size=3)),
        (1, st.sampled_from([['the'], ['the', 'apple'], ['apple', 'the'],
                             ['apple', 'nosuchword']]))).map(tuple))
    glob = st.tuples(st.just('GLOB'), st.sampled_from(
        ['app*', 'p*', 'appl?', 'a*', 'x?', 'nosuch*', 'p?ar', 'apple']))
    leaf = weighted((6, atom), (3, phrase), (1, glob))

    def extend(sub):
        def node(name, k):
            part = weighted((k, sub), (1, st.tuples(st.just('NOT'), sub)))
            return st.tuples(
                st.just(name),
                weighted((12, st.lists(part, min_size=1, max_size=4)),
                         (1, st.just([]))).map(tuple))
        return weighted((3, node('AND', 6)), (3, node('OR', 60)))
    one = extend(leaf)
    two = extend(weighted((2, leaf), (1, one)))
    three = extend(weighted((2, leaf), (1, two)))
    return st.tuples(_text.histories(avg=9), st.lists(
        weighted((1, leaf), (3, one), (4, two), (2, three),
                 (1, one)),
        min_size=2, max_size=6))


def build(t):
    from zope.index.text import parsetree
    if t[0] in ('AND', 'OR'):
        value = [build(x) for x in t[1]]
    elif t[0] == 'NOT':
        value = build(t[1])
    else:
        value = list(t[1]) if t[0] == 'PHRASE' else t[1]
    return getattr(parsetree, t[0].capitalize() + 'Node')(value)


class Invalid(Exception):
    """A NOT where none can be."""


def meaning(t, b):
    """{document: score}, or None for parts of stop words only."""
    if t[0] == 'ATOM':
        ws = normalize(t[1], b.pipeline)
        return b.model.words(ws, False) if ws else None
    if t[0] == 'PHRASE':
        return b.model.phrase(normalize(list(t[1]), b.pipeline))
    if t[0] == 'GLOB':
        return b.model.glob(t[1])
    if t[0] == 'NOT':
        raise Invalid
    parts, nots = [], []
    for x in t[1]:
        if x[0] == 'NOT' and t[0] == 'AND':
            nots.append(meaning(x[1], b))
        else:
            parts.append(meaning(x, b))
    hits = combine([m for m in parts if m is not None], t[0] == 'AND')
    for n in nots:
        for d in n or ():
            hits.pop(d, None)
    return hits


def positive(t):
    if t[0] in ('AND', 'OR'):
        return [w for x in t[1] for w in positive(x)]
    if t[0] == 'NOT':
        return []
    return [list(t[1]) if t[0] == 'PHRASE' else t[1]]


def leaves(t):
    return sum(map(leaves, t[1])) if t[0] in ('AND', 'OR') else 1


def check_trees(case, ctx):
    from zope.index.text.parsetree import QueryError
    (rank, f, pipeline, idmap, ops), trees = case
    b = _text.Both(rank, f, pipeline, idmap)
    for op in ops:
        b.run(op)
    for t in trees:
        tree = build(t)
        terms = list(tree.terms())
        expect(terms == positive(t), 'the terms of %r are %r', t, terms)
        try:
            want = meaning(t, b)
        except Invalid:
            r = raises(QueryError, tree.executeQuery, b.ix.index)
            expect(not r, 'tree %r %s instead of raising QueryError', t, r)
            ctx.label('invalid NOT')
            continue
        got = tree.executeQuery(b.ix.index)
        if want is None:
            expect(got is None, 'tree %r gives %r', t, got)
            ctx.label('nothing but stop words')
            continue
        compare('tree %r' % (t,), scores(got), want)
        ctx.nontrivial(want and leaves(t) > 1)
        words = [w for t in terms for w in normalize(t, pipeline)]
        weight, formula = (b.ix.index.query_weight(terms),
                           b.model.query_weight(words))
        expect(close(weight, formula), 'query_weight(%r) is %r, expected %r',
               terms, weight, formula)
    ctx.label(rank)


PROP = Prop('C12', RULE, [
    Sub('scores', strategy, check, 5000, rule=RULE),
    Sub('large', lambda: _large.collections(),
        _large.check_scores, 1000, rule=_large.RULE + ' Oracle: the reference model; non-trivial: a query of more than 8 words, or a pattern, finds several documents.'),
    Sub('trees', trees, check_trees, 3000, rule=TREES)],
            assumptions=['scores are compared with a relative tolerance of '
                         '1e-5 (they are stored as 32-bit floats)'])
