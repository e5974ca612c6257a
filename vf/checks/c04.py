"""C04 Keyword normalization applies alike to documents and queries."""
from hypothesis import strategies as st

from vf import gen
from vf.checks.c03 import answer, wrap
from vf.core import Prop, Sub, expect
from vf.gen import refs, weighted
from vf.obs import diff, idlist

RULE = (
    'Histories and queries on keyword indexes whose normalize() drops, merges, '
    'splits, repeats or lower-cases keywords (and returns a list, tuple, set '
    'or iterator), compared with a dict holding the normalized keyword sets '
    'and queried with the normalized query. Non-trivial: normalization '
    'changed some document and some query, and an answer is neither empty nor '
    'everything.')


def _drop(seq):
    return [w for w in seq if w[:1] not in ('x', 'X')]


NORMALIZERS = {
    'drop': _drop,
    'droptuple': lambda seq: tuple(_drop(seq)),
    'dropall': lambda seq: [],
    'first': lambda seq: [w[:1] for w in seq],
    'split': lambda seq: [p for w in seq for p in w.split()],
    'chars': lambda seq: {c for w in seq for c in w},
    'lowerdrop': lambda seq: iter([w.lower() for w in seq if len(w) > 1]),
    'double': lambda seq: [w for w in seq for _ in (0, 1)],
    'both': lambda seq: [v for w in seq for v in (w, w.upper())],
    'reverse': lambda seq: [w[::-1] for w in seq][::-1],
}

words = st.one_of(
    st.sampled_from(['a', 'A', 'b', 'B', 'ab', 'aB', 'AB', 'x', 'X', 'xa',
                     'XA', 'b a', 'a x', '', ' ', '\xe9', '\xc9', 'ss',
                     '\xdf', 'SS', '\u03c3', '\u03a3', '\u0130', 'i']),
    st.text(alphabet='aAbBxX ', max_size=4), st.text(max_size=3))
contents = st.tuples(st.sampled_from(['list', 'tuple', 'set', 'iter', 'OOSet',
                                      'dictkeys']),
                     st.lists(words, max_size=5).map(tuple))
queries = st.tuples(st.sampled_from(['list', 'tuple', 'set', 'iter', 'str',
                                     'dict', 'dictstr']),
                    st.lists(words, max_size=3).map(tuple),
                    st.sampled_from(['and', 'or']))


def ops():
    return weighted(
        (10, st.tuples(st.just('i'), refs, contents)),
        (3, st.tuples(st.just('u'), refs)),
        (1, st.tuples(st.just('bi'), refs, gen.bulk_sizes, contents)),
        (1, st.tuples(st.just('q'), queries)),
        (1, st.just(('c',))))


def strategy():
    return gen.families.flatmap(lambda f: st.tuples(
        st.sampled_from(['ci', 'ci', 'ci'] + sorted(NORMALIZERS)),
        st.just(f), gen.idmaps(f), gen.seqs(ops(), 1, 40, 12),
        st.lists(queries, min_size=3, max_size=8)))


def check(case, ctx):
    from zope.index.keyword import CaseInsensitiveKeywordIndex, KeywordIndex
    how, f, idmap, ops_, final = case
    if how == 'ci':
        ix = CaseInsensitiveKeywordIndex(*gen.fams(f))

        def norm(seq):
            return [w.lower() for w in seq]
    else:
        norm = NORMALIZERS[how]

        class Normalizing(KeywordIndex):
            def normalize(self, seq):
                return norm(seq)
        ix = Normalizing(*gen.fams(f))
    model = {}
    flags = set()

    def index(d, c):
        ix.index_doc(d, wrap(f, *c))
        kws = set(norm(list(c[1]))) if c[1] else set()
        if kws != set(c[1]):
            flags.add('doc')
            if not kws:
                ctx.label('all keywords normalized away')
        if kws:
            model[d] = kws
        else:
            model.pop(d, None)

    def query(form, ws, op):
        ws = list(ws)
        if form in ('str', 'dictstr'):
            ws = ws[:1] or ['a']
            if form == 'str':
                got = ix.search(ws[0], op)
            else:
                got = ix.apply({'query': ws[0], 'operator': op})
        elif form == 'dict':
            got = ix.apply({'query': ws, 'operator': op})
        else:
            got = ix.search(wrap(f, form, ws), op)
        nws = list(norm(list(ws)))
        if set(nws) != set(ws):
            flags.add('query')
        want = answer(model, nws, op)
        what = '%s query %r (%s)' % (op, ws, form)
        got = idlist(got, what)
        expect(set(got) == want, '%s: %s', what, diff(got, want))
        if want and len(want) < len(model):
            flags.add('narrow')

    for o in ops_:
        if o[0] == 'i':
            index(gen.did(idmap, o[1]), o[2])
        elif o[0] == 'u':
            ix.unindex_doc(gen.did(idmap, o[1]))
            model.pop(gen.did(idmap, o[1]), None)
        elif o[0] == 'bi':
            for k in range(o[2]):
                index(gen.did(idmap, max(o[1], gen.BULK) + k), o[3])
        elif o[0] == 'c':
            ix.clear()
            model.clear()
        else:
            query(*o[1])
    for q in final:
        query(*q)
    for w in sorted(set().union(*model.values()))[:8] if model else ():
        for v in (w, w.upper(), w.lower(), w.swapcase()):
            if how != 'ci' or v.lower() == w.lower():
                query('list', (v,), 'or')
    for r in range(9):
        d = gen.did(idmap, r)
        expect(bool(ix.has_doc(d)) == (d in model), 'has_doc(%r) is %r',
               d, ix.has_doc(d))
    expect(ix.documentCount() == len(model), 'documentCount() is %r, not %d',
           ix.documentCount(), len(model))
    n = len(set().union(*model.values())) if model else 0
    expect(ix.wordCount() == n, 'wordCount() is %r, not %d', ix.wordCount(),
           n)
    # everything can be removed again
    for d in list(model):
        ix.unindex_doc(d)
    expect(ix.documentCount() == 0 and ix.wordCount() == 0,
           'after removing all documents: %r documents, %r words',
           ix.documentCount(), ix.wordCount())
    ctx.label(how)
    ctx.nontrivial({'doc', 'query', 'narrow'} <= flags)


PROP = Prop('C04', RULE, [Sub('history', strategy, check, 7000, rule=RULE)],
            assumptions=['normalizers are functions of the sequence alone'])
