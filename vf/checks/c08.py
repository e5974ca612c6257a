"""C08 Phrase search finds exactly the documents containing the phrase."""
from hypothesis import strategies as st

from vf import gen, query
from vf.checks import _large, _text
from vf.core import Prop, Sub, expect
from vf.gen import weighted
from vf.obs import diff, idlist
from vf.textmodel import contains, normalize

RULE = (
    'Oracle: a document matches a phrase exactly if the phrase is a '
    'contiguous sublist of its word list, in a reference word-list model '
    'after the same history. (wids) documents are lists of '
    'arbitrary word ids up to 28 bits, chosen so that encodings begin, '
    'continue and end alike, indexed through a lexicon that just passes ids '
    'on; phrases are slices of documents, perturbed slices and free lists. '
    '(vocabulary) a real lexicon of 20000 words whose ids cross the encoding '
    'lengths, queried with quoted phrases through TextIndex. (text) texts '
    'and phrases through splitting and stop words. Non-trivial: a '
    'phrase of two or more words for which some document containing all its '
    'words does not match, or that matches some but not all documents.')


# -- arbitrary word ids ------------------------------------------------------

def wid(digits):
    n = 0
    for d in digits:
        n = n * 128 + d
    return n


_first = st.sampled_from([1, 1, 2, 127, 64])
_next = st.sampled_from([0, 1, 127, 1, 2])
wids = weighted(
    (6, st.tuples(_first, st.lists(_next, max_size=3))
     .map(lambda t: wid([t[0]] + t[1]))),
    (1, st.sampled_from([1, 127, 128, 129, 16383, 16384, 16385, 2097151,
                         2097152, 2**28 - 1, 2**27, 255, 256])),
    (1, st.integers(1, 2**28 - 1)))


def _phrases():
    ref, pos, n = st.integers(0, 9), st.integers(0, 12), st.integers(1, 5)
    k = st.integers(0, 7)
    return weighted(
        (4, st.tuples(st.just('slice'), ref, pos, n)),
        (3, st.tuples(st.just('change'), ref, pos, n, st.integers(0, 4), k)),
        (1, st.tuples(st.just('drop'), ref, pos, n, st.integers(0, 4))),
        (1, st.tuples(st.just('swap'), ref, pos, n)),
        (2, st.tuples(st.just('free'), st.lists(k, min_size=1, max_size=4))))


def wid_cases():
    doc = gen.seqs(st.integers(0, 7), 0, 25, 9).map(tuple)
    op = weighted((10, st.tuples(st.just('i'), gen.small_ids, doc)),
                  (2, st.tuples(st.just('u'), gen.small_ids)),
                  (1, st.tuples(st.just('b'), doc, st.integers(8, 14))),
                  (1, st.just(('c',))))
    return st.tuples(_text.ranks, gen.families,
                     st.lists(wids, min_size=3, max_size=8, unique=True),
                     gen.seqs(op, 1, 25, 7),
                     gen.seqs(_phrases(), 3, 14, 8))


class Passing:
    """A lexicon that takes word ids for text."""

    def sourceToWordIds(self, text):
        return list(text)

    termToWordIds = sourceToWordIds


def resolve(p, docs, alphabet):
    """The word list of a phrase."""
    def word(k):
        if k == 7:
            return 0 if isinstance(alphabet[0], int) else 'nosuchword'
        return alphabet[k % len(alphabet)]
    if p[0] == 'free':
        return [word(k) for k in p[1]]
    full = [d for d in docs if d]
    if not full:
        return [alphabet[0]]
    words = full[p[1] % len(full)]
    start = p[2] % len(words)
    out = list(words[start:start + p[3]])
    if p[0] == 'change':
        out[p[4] % len(out)] = word(p[5])
    elif p[0] == 'drop' and len(out) > 1:
        del out[p[4] % len(out)]
    elif p[0] == 'swap':
        out.reverse()
    return out


def decide(got, model, phrase, ctx):
    want = {d for d, words in model.items() if contains(words, phrase)}
    got = idlist(got, 'phrase %r' % (phrase,))
    expect(set(got) == want, 'phrase %r: %s', phrase, diff(got, want))
    if len(phrase) > 1:
        every = {d for d, words in model.items() if set(phrase) <= set(words)}
        ctx.nontrivial(every != want or 0 < len(want) < len(model))
        ctx.label('words without phrase', every != want)
        ctx.label('phrase found', bool(want))


def wid_check(case, ctx):
    rank, f, alphabet, ops, phrases = case
    ix = _text.ranking(rank)(Passing(), *gen.fams(f))
    model = {}
    for op in ops:
        if op[0] == 'c':
            ix.clear()
            model.clear()
        elif op[0] == 'u':
            ix.unindex_doc(op[1])
            model.pop(op[1], None)
        elif op[0] == 'i':
            words = [alphabet[k % len(alphabet)] for k in op[2]]
            ix.index_doc(op[1], words)
            model[op[1]] = words
        else:
            # many documents sharing words
            for n in range(op[2]):
                k = n % (len(op[1]) + 1)
                words = [alphabet[j % len(alphabet)]
                         for j in op[1][k:] + op[1][:k]]
                ix.index_doc(100 + n, words)
                model[100 + n] = words
    docs = list(model.values())
    for p in phrases:
        phrase = resolve(p, docs, alphabet)
        decide(ix.search_phrase(phrase), model, phrase, ctx)
    for d, words in model.items():
        expect(ix.get_words(d) == words, 'get_words(%r) is %r, not %r', d,
               ix.get_words(d), words)


# -- a large vocabulary ------------------------------------------------------

_lexicon = []
NWORDS = 20000


def lexicon():
    from zope.index.text.lexicon import Lexicon
    from vf.textmodel import make_pipeline
    if not _lexicon:
        lex = Lexicon(*make_pipeline('default'))
        lex.sourceToWordIds(' '.join('w%d' % i for i in range(NWORDS)))
        _lexicon.append(lex)
    return _lexicon[0]


def big_cases():
    # ids are given in order: word i has an id near i
    i = weighted((2, st.sampled_from([0, 1, 2, 126, 127, 128, 129, 130, 255,
                                      256, 16382, 16383, 16384, 16385,
                                      16383 + 128, NWORDS - 1])),
                 (3, st.sampled_from([0, 1, 2, 3, 4]).flatmap(
                     lambda a: st.sampled_from([128, 16384]).flatmap(
                         lambda m: st.integers(0, 3).map(
                             lambda b: min(a * 128 + b if m == 128 else
                                           16384 + a * 128 + b,
                                           NWORDS - 1))))),
                 (1, st.integers(0, NWORDS - 1)))
    doc = gen.seqs(st.integers(0, 7), 0, 20, 8).map(tuple)
    op = weighted((10, st.tuples(st.just('i'), gen.small_ids, doc)),
                  (2, st.tuples(st.just('u'), gen.small_ids)))
    return st.tuples(_text.ranks, gen.families,
                     st.lists(i, min_size=3, max_size=8, unique=True),
                     gen.seqs(op, 1, 14, 6), gen.seqs(_phrases(), 2, 10, 6))


def big_check(case, ctx):
    from zope.index.text.textindex import TextIndex
    rank, f, alphabet, ops, phrases = case
    lex = lexicon()
    alphabet = ['w%d' % i for i in alphabet]
    ix = TextIndex(lex, _text.ranking(rank)(lex, *gen.fams(f)))
    model = {}
    for op in ops:
        if op[0] == 'u':
            ix.unindex_doc(op[1])
            model.pop(op[1], None)
        else:
            words = [alphabet[k % len(alphabet)] for k in op[2]]
            ix.index_doc(op[1], ' '.join(words))
            model[op[1]] = words
    docs = list(model.values())
    for p in phrases:
        phrase = resolve(p, docs, alphabet)
        decide(ix.apply('"%s"' % ' '.join(phrase)), model, phrase, ctx)


# -- texts -------------------------------------------------------------------

def text_cases():
    return st.tuples(_text.histories(avg=8),
                     st.lists(weighted((3, _phrases()), (2, st.tuples(
                         st.just('text'), query.documents))),
                         min_size=2, max_size=9))


def text_check(case, ctx):
    (rank, f, pipeline, idmap, ops), phrases = case
    b = _text.Both(rank, f, pipeline, idmap)
    for op in ops:
        b.run(op)
    model = b.model.docs
    docs = list(model.values())
    alphabet = ['apple', 'pear', 'app', 'apples', 'plum']
    for p in phrases:
        if p[0] == 'text':
            text = query.render(p[1])
        else:
            text = ' '.join(resolve(p, docs, alphabet))
        words = normalize(text, pipeline)
        if words:
            decide(b.ix.index.search_phrase(text), model, words, ctx)
            ctx.label('stop words', len(words) < len(normalize(text,
                                                               'plain')))


PROP = Prop('C08', RULE, [
    Sub('wids', wid_cases, wid_check, 16000, rule=RULE),
    Sub('vocabulary', big_cases, big_check, 4000, rule=RULE),
    Sub('large', lambda: _large.collections(['phrase']),
        _large.check_matches, 1000, rule=_large.RULE + ' Oracle: the reference model; non-trivial: a phrase of more than 8 words is in some but not all documents.'),
    Sub('text', text_cases, text_check, 3000, rule=RULE),
])
