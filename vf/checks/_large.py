"""Large text collections: many documents, words, or words per document, and
queries of many parts.  Contents are computed from a few drawn numbers."""
from hypothesis import strategies as st

from vf import gen, query
from vf.checks import _text
from vf.core import expect
from vf.gen import noise, weighted
from vf.obs import close, diff, scores
from vf.textmodel import TextModel, combine

RULE = (
    'Up to 3000 documents of up to 4000 words of a vocabulary of up to 8000 '
    '(magnitudes equally likely; at most 15000 words in all), some reindexed '
    'and some removed, and queries of up to 400 words: OR, AND, sequences, '
    'exclusions, ORs of ANDs, phrases, prefix patterns.')
MOST = 15000


def asks(forms):
    return st.tuples(st.sampled_from(forms), st.integers(0, 3), gen.seeds,
                     gen.logint(1, 400))


FORMS = ['or', 'and', 'atoms', 'not', 'pairs', 'phrase', 'glob']


def collections(forms=FORMS, ranks=_text.ranks, lo=1, hi=6):
    return gen.families.flatmap(lambda f: st.tuples(
        ranks, st.just(f), gen.largeids(f), weighted(
            (2, st.tuples(gen.logint(1, 3000), gen.logint(1, 4000))),
            (2, st.tuples(gen.logint(300, 3000), gen.logint(1, 30))),
            (2, st.tuples(gen.logint(1, 12), gen.logint(300, 4000)))),
        weighted((1, st.integers(0, 1)),
                                      (2, st.integers(1, 3))),
        gen.logint(1, 8000), gen.seeds, st.integers(0, 5),
        st.integers(0, 5), st.lists(asks(forms), min_size=lo, max_size=hi)))


class Large:

    def __init__(self, case):
        (rank, f, (base, stride), (n, length), vary, vocab, seed, again,
         gone, self.queries) = case
        self.ix = _text.make(rank, f, 'plain')
        self.rank, self.f = rank, f
        self.model = TextModel(rank)
        self.n, self.length = n, length
        self.vary, self.vocab, self.seed = vary, vocab, seed
        self.n = n = min(n, max(2, MOST // length))
        self.changed = set()
        self.word = (lambda i: 'w%d' % i)
        for k in range(n):
            self.index(base + k * stride, seed, k)
        for k in range(0, n, again * 3 or n + 1):
            self.index(base + k * stride, seed + k % 2, k)
            self.changed.add(base + k * stride)
        for k in range(1, n, gone + 1 if gone else n + 1):
            d = base + k * stride
            self.ix.unindex_doc(d)
            self.model.unindex(d)
            self.changed.add(d)

    def index(self, d, salt, k):
        words = self.words(salt, k)
        if d in self.model.docs:
            # a version of the present document
            old = self.model.docs[d]
            if salt % 2 and len(old) > 1:
                words = old[:k % len(old)] + words[:3] + old[k % len(old):]
        self.ix.index_doc(d, ' '.join(words))
        self.model.index(d, words)

    def words(self, salt, k):
        n = self.length
        if self.vary:
            n = 1 + noise(salt, k) % n
        if self.vary == 2:
            n = 1 + noise(salt, k, 1) % n
        vocab = self.vocab
        return [self.word(noise(salt, k, j) % (1 + noise(salt, j, k) % vocab))
                for j in range(n)]

    def parts(self, how, salt, size):
        """The words of a query."""
        docs = sorted(self.model.docs)
        if how and docs:
            words = self.model.docs[docs[salt % len(docs)]]
            start = noise(salt, 1) % len(words)
            words = words[start:start + size] or words[:size]
            words = list(words)
            if how == 2:
                words[noise(salt, 2) % len(words)] = self.word(
                    noise(salt, 3) % (self.vocab + 1))
            if how == 3 and len(words) > 1:
                i = noise(salt, 4) % (len(words) - 1)
                words[i:i + 2] = words[i:i + 2][::-1]
            return words
        return [self.word(noise(salt, j) % (self.vocab + 1))
                for j in range(size)]

    def ask(self, q):
        """(query string, positive words, {document: score})"""
        form, how, salt, size = q
        m = self.model
        words = self.parts(how, salt, size)
        if form == 'or':
            return ' OR '.join(words), words, m.words(words, False)
        if form == 'and':
            return ' AND '.join(words), words, m.words(words, True)
        if form == 'atoms':
            return ' '.join(words), words, m.words(words, True)
        if form == 'not':
            one, rest = words[:1], words[1:]
            hits = m.words(one, True)
            for w in rest:
                for d in m.stats[0].get(w, ()):
                    hits.pop(d, None)
            return ' NOT '.join(words), one, hits
        if form == 'pairs':
            pairs = [words[i:i + 2] for i in range(0, len(words), 2)]
            return (' OR '.join('(%s)' % ' AND '.join(p) for p in pairs),
                    words,
                    combine([m.words(p, True) for p in pairs], False))
        if form == 'phrase':
            if len(words) == 1:
                return words[0], words, m.word(words[0])
            return '"%s"' % ' '.join(words), words, m.phrase(words)
        pattern = words[0][:1 + salt % len(words[0])] + '*'
        return pattern, [pattern[:-1]], m.glob(pattern)


def same_scores(what, got, want, rel=1e-4):
    expect(set(got) == set(want), '%s: %s', what, diff(got, want))
    for d in want:
        expect(close(got[d], want[d], rel), '%s: document %r scores %r, '
               'expected %r', what, d, got[d], want[d])


def short(s):
    return s if len(s) < 100 else '%s...%s (%d characters)' % (
        s[:40], s[-40:], len(s))


# -- what the checks do with them --------------------------------------------

def check_matches(case, ctx):
    """C07, C08: which documents are found."""
    L = Large(case)
    for q in L.queries:
        s, words, want = L.ask(q)
        got = scores(L.ix.apply(s))
        expect(set(got) == set(want), 'query %s: %s', short(s),
               diff(got, want))
        ctx.label(q[0] + ' finds', bool(want))
        ctx.nontrivial(bool(want) and len(want) < len(L.model.docs)
                       and (len(words) > 8 or q[0] == 'glob'))
    sizes(L, ctx)


def check_scores(case, ctx):
    """C12: and how they score."""
    L = Large(case)
    for q in L.queries:
        s, words, want = L.ask(q)
        weight = L.ix.index.query_weight(words)
        formula = L.model.query_weight(words)
        expect(close(weight, formula, 1e-4), 'query_weight of %d words %s is '
               '%r, expected %r', len(words), short(s), weight, formula)
        got = scores(L.ix.apply(s))
        same_scores('query ' + short(s), got,
                    {d: x / (formula or 1.0) for d, x in want.items()})
        ctx.nontrivial(len(want) > 1 and (len(words) > 8 or q[0] == 'glob'))
    sizes(L, ctx)


def check_bound(case, ctx):
    """C31"""
    from zope.index.text.queryparser import QueryParser
    L = Large(case)
    for q in L.queries:
        s, words, want = L.ask(q)
        tree = QueryParser(L.ix.lexicon).parseQuery(s)
        weight = L.ix.index.query_weight(tree.terms())
        for d, x in scores(tree.executeQuery(L.ix.index)).items():
            expect(0 < x <= weight * (1 + 1e-4), 'query %s: document %r '
                   'scores %r, the query weight is %r', short(s), d, x,
                   weight)
        for d, x in scores(L.ix.apply(s)).items():
            expect(0 < x <= 1 + 1e-4, 'query %s: normalized score %r of '
                   'document %r', short(s), x, d)
        ctx.nontrivial(bool(want) and len(words) > 8)
    sizes(L, ctx)


def check_words(case, ctx):
    """C10, C11: scores of single words."""
    L = Large(case)
    vocab = sorted(L.model.vocabulary(), key=lambda w: (
        -len(L.model.stats[0][w]), w))
    for w in vocab[:15] + vocab[15::max(1, len(vocab) // 25)]:
        same_scores('word %s' % w, scores(L.ix.index.search(w)),
                    L.model.word(w), 1e-5)
    ctx.nontrivial(len(vocab) > 1 and len(L.model.docs) > 1)
    sizes(L, ctx)


def check_rebuild(case, ctx):
    """C13: the same as in a new index; C18: statistics."""
    L = Large(case)
    other = _text.make(L.rank, L.f, 'plain')
    for d in sorted(L.model.docs, reverse=True):
        other.index_doc(d, ' '.join(L.model.docs[d]))
    one, two = L.ix, other
    expect(one.documentCount() == two.documentCount(),
           'documentCount() is %r, in a new index %r', one.documentCount(),
           two.documentCount())
    expect(one.wordCount() == two.wordCount(),
           'wordCount() is %r, in a new index %r', one.wordCount(),
           two.wordCount())
    vocab = sorted(L.model.vocabulary())
    for w in vocab[::max(1, len(vocab) // 60)]:
        same_scores('word %s, compared with a new index' % w,
                    scores(one.index.search(w)), scores(two.index.search(w)),
                    1e-5)
    for d in sorted(L.changed)[:50]:
        expect(one.index.has_doc(d) == two.index.has_doc(d),
               'has_doc(%r) is %r, in a new index %r', d,
               one.index.has_doc(d), two.index.has_doc(d))
        if d in L.model.docs:
            got = [one.lexicon.get_word(w) for w in one.index.get_words(d)]
            expect(got == L.model.docs[d], 'the words of %r are %r..., '
                   'expected %r...', d, got[:9], L.model.docs[d][:9])
    for q in L.queries:
        s, words, want = L.ask(q)
        same_scores('query %s, compared with a new index' % short(s),
                    scores(one.apply(s)), scores(two.apply(s)))
    ctx.nontrivial(bool(L.changed) and len(L.model.docs) > 1)
    sizes(L, ctx)


def check_counts(case, ctx):
    """C18, C19: statistics, and nothing is left in the end."""
    L = Large(case)
    ix, model = L.ix, L.model
    for step in range(2):
        for what, got, want in (
                ('documentCount', ix.documentCount(), len(model.docs)),
                ('wordCount', ix.wordCount(), len(model.stats[0]))):
            expect(got == want, '%s() is %r instead of %d', what, got, want)
        ctx.nontrivial(bool(L.changed) and len(model.docs) > 1)
        docs = sorted(model.docs)
        for d in docs[::2] if not step else docs:
            ix.unindex_doc(d)
            model.unindex(d)
    expect(ix.documentCount() == 0 and ix.wordCount() == 0,
           'with all documents removed: %r documents, %r words',
           ix.documentCount(), ix.wordCount())
    sizes(L, ctx)


def sizes(L, ctx):
    ctx.label('>500 documents', L.n > 500)
    ctx.label('>500 words in a document',
              max(map(len, L.model.docs.values()), default=0) > 500)
    ctx.label('>500 different words', len(L.model.stats[0]) > 500)
