"""C31 The query weight bounds document scores."""
from hypothesis import strategies as st

from vf import gen, query
from vf.checks import _large, _text
from vf.core import Prop, Sub, expect
from vf.obs import scores

RULE = (
    'Histories on text indexes of both ranking methods, then generated '
    'queries without patterns, many repeating words. Oracle: the score of '
    'every returned document is above 0 and at most the query weight of the '
    'positive terms (up to rounding); the normalized score is in (0, 1]. '
    'Non-trivial: a query with two or more positive indexed words that '
    'matches.')

same_word = st.tuples(
    st.just('rep'), query.words, st.integers(1, 5),
    st.sampled_from([' ', ' AND ', ' OR ', '" "', '-']))


def strategy():
    return query.narrow(st.tuples(
        _text.histories(avg=9),
        st.lists(st.one_of(query.queries(globs=False), same_word),
                 min_size=2, max_size=8)))


EXTREME = (
    'Collections of generated shape: up to 150 documents of a common '
    'generated length, and a few that repeat a word up to 2000 times; every '
    'word, and words in AND, OR and phrases. Same oracle. Non-trivial: '
    'documents differ in length by a factor above 5.')


def extreme():
    return st.tuples(_text.ranks, gen.families, query.shapes())


def check_extreme(case, ctx):
    from zope.index.text.queryparser import QueryParser
    rank, f, shape = case
    ix = _text.make(rank, f, 'plain')
    docs = query.shaped(shape)
    for d, ws in docs:
        ix.index_doc(d, list(ws))
    lengths = sorted(len(ws) for d, ws in docs)
    vocab = sorted({w for d, ws in docs for w in ws})[:12]
    ctx.nontrivial(len(vocab) > 1 and lengths[-1] > 5 * lengths[0])
    for s in vocab + ['%s OR %s' % (vocab[0], vocab[-1]), ' '.join(vocab),
                      ' OR '.join(vocab[:3])]:
        weight = ix.index.query_weight(
            QueryParser(ix.lexicon).parseQuery(s).terms())
        bound(ix, s, QueryParser(ix.lexicon).parseQuery(s), weight)
    ctx.label(rank)


def bound(ix, s, tree, weight):
    raw = scores(tree.executeQuery(ix.index))
    for d, x in raw.items():
        expect(x > 0, 'query %r: document %r scores %r', s, d, x)
        expect(x <= weight * (1 + 1e-5), 'query %r: document %r scores '
               '%r, above the query weight %r', s, d, x, weight)
    for d, x in scores(ix.apply(s)).items():
        expect(0 < x <= 1 + 1e-5, 'query %r: normalized score %r of '
               'document %r is not in (0, 1]', s, x, d)
    return raw


def check(case, ctx):
    from zope.index.text.parsetree import ParseError
    from zope.index.text.queryparser import QueryParser
    (rank, f, pipeline, idmap, ops), queries = case
    b = _text.Both(rank, f, pipeline, idmap)
    for op in ops:
        b.run(op)
    vocab = b.model.vocabulary()
    qs = [query.text(q) if q[0] != 'rep' else q[3].join([q[1]] * q[2])
          for q in queries]
    # queries made of whole documents
    for words in list(b.model.docs.values())[:4]:
        ws = [w for w in words if w not in ('and', 'or', 'not')]
        if ws:
            qs.append(' OR '.join(ws))
            qs.append('"%s"' % ' '.join(ws))
    for s in qs:
        try:
            tree = QueryParser(b.ix.lexicon).parseQuery(s)
        except ParseError:
            continue
        raw = bound(b.ix, s, tree, b.ix.index.query_weight(tree.terms()))
        words = [w for t in tree.terms() for w in
                 (t if isinstance(t, list) else [t])]
        n = sum(w in vocab for w in words)
        ctx.nontrivial(bool(raw) and n > 1)
        ctx.label('repeated word', bool(raw) and len(set(words)) < len(words))
    ctx.label(rank)


PROP = Prop('C31', RULE, [
    Sub('bound', strategy, check, 5000, rule=RULE),
    Sub('extreme', extreme, check_extreme, 2000, rule=EXTREME),
    Sub('large', lambda: _large.collections(['or', 'and', 'atoms', 'not', 'pairs', 'phrase']),
        _large.check_bound, 600, rule=_large.RULE + ' Oracle: scores are above 0 and at most the query weight; non-trivial: a query of more than 8 words finds documents.')],
            assumptions=['wildcard-free queries only, as documented',
                         'rounding to 32-bit floats up to 1e-5'])
