"""C13 A text index depends only on its current documents."""
from hypothesis import strategies as st

from vf import gen, query
from vf.checks import _large, _text
from vf.core import Prop, Sub, expect
from vf.obs import close, diff, scores

RULE = (
    'A text index with a generated history of operations and searches is '
    'compared, without any model, '
    'with a new index into which only the surviving documents are put, in a '
    'generated order: scores of every word, phrases, patterns and queries, '
    'per-document word lists, has_doc and statistics. Non-trivial: the '
    'history reindexes, removes or clears, and documents survive.')


def cases():
    looks = st.tuples(st.just('look'), query.queries())
    return query.narrow(st.tuples(
        _text.histories(avg=18, hi=60, more=[(4, looks)]),
        st.integers(0, 10**6),
        st.lists(query.queries(), max_size=4), st.booleans()))


def check(case, ctx):
    from zope.index.text.parsetree import ParseError
    (rank, f, pipeline, idmap, ops), order, queries, share = case
    one = _text.make(rank, f, pipeline)
    docs, again, looked = {}, False, False
    for op in ops:
        if op[0] == 'look':
            looked = looked or bool(docs)
            for w in list(one.lexicon.words())[:40]:
                scores(one.index.search([w]))
            s = query.text(op[1])
            try:
                one.apply(s)
            except ParseError:
                pass
            continue
        for step in query.expand(idmap, op):
            if step[0] == 'i':
                again = again or step[1] in docs
                one.index_doc(step[1], query.render(step[2]))
                docs[step[1]] = query.render(step[2])
            elif step[0] == 'u':
                again = again or step[1] in docs
                one.unindex_doc(step[1])
                docs.pop(step[1], None)
            else:
                again = again or bool(docs)
                one.clear()
                docs.clear()
    two = _text.make(rank, f, pipeline)
    if share:
        from zope.index.text.textindex import TextIndex
        lex = one.lexicon
        two = TextIndex(lex, _text.ranking(rank)(lex, *gen.fams(f)))
    left = sorted(docs)
    while left:
        # a permutation from a number
        order, k = divmod(order * 7 + 3, len(left))
        d = left.pop(k)
        two.index_doc(d, docs[d])
    ctx.nontrivial(again and len(docs) > 1)
    ctx.label(rank)
    ctx.label('shared lexicon', share)
    ctx.label('searched before', looked)

    def eq(what, fn):
        a, b = fn(one), fn(two)
        if isinstance(a, dict):
            expect(set(a) == set(b), '%s: old index %s', what, diff(a, b))
            for d in a:
                expect(close(a[d], b[d]), '%s: document %r scores %r, in a '
                       'new index %r', what, d, a[d], b[d])
        else:
            expect(a == b, '%s: %r, in a new index %r', what, a, b)

    eq('documentCount', lambda x: x.documentCount())
    eq('wordCount', lambda x: x.wordCount())
    words = sorted(set(one.lexicon.words()))
    for w in words:
        eq('word %r' % w, lambda x: scores(x.index.search([w])))
        eq('weight of %r' % w, lambda x: x.index.query_weight([w]) == 0)
        ctx.label('>10 documents with a word',
                  len(one.index.search([w]) or ()) > 10)
    for d in left + sorted(docs) + [gen.did(idmap, r) for r in range(4)]:
        eq('has_doc(%r)' % d, lambda x: x.index.has_doc(d))
        if d in docs:
            eq('words of %r' % d, lambda x: [
                x.lexicon.get_word(w) for w in x.index.get_words(d)])
    for d in sorted(docs)[:6]:
        ws = [one.lexicon.get_word(w) for w in one.index.get_words(d)][1:4]
        if ws:
            eq('phrase %r' % ws, lambda x: scores(x.index.search_phrase(ws)))
    for pat in ('a*', 'p*r', 'app?', 'x?'):
        eq('pattern ' + pat, lambda x: scores(x.index.search_glob(pat)))
    for q in queries:
        s = query.text(q)

        def run(x):
            try:
                return scores(x.apply(s))
            except ParseError:
                return 'rejected'
        eq('query %r' % s, run)


PROP = Prop('C13', RULE, [
    Sub('rebuild', cases, check, 4000, rule=RULE),
    Sub('large', lambda: _large.collections(),
        _large.check_rebuild, 500, rule=_large.RULE + ' Oracle: a new index of the remaining documents; non-trivial: documents changed.')],
            assumptions=['relative tolerance 1e-5 (32-bit float storage)'])
