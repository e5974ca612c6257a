"""C09 Glob search matches exactly the words the pattern describes."""
from hypothesis import strategies as st

from vf import gen
from vf.checks import _text
from vf.core import Prop, Sub, expect
from vf.gen import weighted
from vf.obs import diff, idlist, raises
from vf.textmodel import globmatch

RULE = (
    'Vocabularies of arbitrary words (letters, regular expression '
    'characters, line breaks, any Unicode) put into a lexicon without '
    'pipeline, patterns made from the words by cutting and by replacing '
    'stretches by wildcards. Oracle: a state-set glob matcher written here; '
    'a glob search on an index must return exactly the documents of the '
    'model with such a word, after reindexing and removal, the lexicon '
    'holding words of other documents and other indexes too. Non-trivial: a '
    'pattern with a wildcard matches some word, and some other word begins '
    'with the pattern\'s literal prefix but does not match or vice versa.')

_ch = weighted((6, st.sampled_from('aabAz')),
               (2, st.sampled_from('.+()[]\\^$|{}-\n \xe9\u65e5#&~')),
               (1, st.sampled_from('*?')),
               (1, st.characters()))
_dense = gen.seqs(st.sampled_from('aab.'), 0, 7, 2).map(
    lambda cs: 'a' + ''.join(cs))
words = weighted(
    (5, gen.seqs(_ch, 1, 10, 3).map(''.join)),
    (9, _dense),
    (1, st.just('')))


def patterns():
    return weighted(
        (8, st.tuples(st.just('from'), st.integers(0, 30), gen.seqs(
            st.tuples(st.integers(0, 9), st.integers(0, 4),
                      st.sampled_from(['*', '*', '?', '??', '?*', 'a', ''])),
            0, 3, 1.6))),
        (2, st.tuples(st.just('free'), weighted(
            (3, gen.seqs(st.sampled_from('abAz*?'), 0, 6, 3).map(''.join)),
            (1, words)))))


def resolve(p, vocab):
    if p[0] == 'free':
        return _tame(p[1])
    pat = vocab[p[1] % len(vocab)] if vocab else 'a'
    for pos, n, new in p[2]:
        # never in front
        pos = 1 + pos % max(1, len(pat))
        pat = pat[:pos] + new + pat[pos + n:]
    return _tame(pat)


def _tame(pat):
    # at most 4 stars: matching must not take exponential time
    while pat.count('*') > 4:
        k = pat.rindex('*')
        pat = pat[:k] + pat[k + 1:]
    return pat


def cases():
    k = st.integers(0, 30)
    doc = gen.seqs(k, 0, 8, 4).map(tuple)
    op = weighted((10, st.tuples(st.just('i'), gen.small_ids, doc)),
                  (3, st.tuples(st.just('u'), gen.small_ids)),
                  (2, st.tuples(st.just('o'), gen.small_ids, doc)),
                  (1, st.just(('c',))))
    return st.tuples(_text.ranks, gen.families,
                     gen.seqs(words, 1, 20, 9).map(
                         lambda ws: list(dict.fromkeys(ws))),
                     gen.seqs(op, 1, 18, 6),
                     gen.seqs(patterns(), 2, 14, 7))


def check(case, ctx):
    from zope.index.text.lexicon import Lexicon
    from zope.index.text.parsetree import QueryError
    rank, f, vocab, ops, pats = case
    lex = Lexicon()
    ix = _text.ranking(rank)(lex, *gen.fams(f))
    other = _text.ranking('okapi')(lex, *gen.fams(f))
    model, known = {}, set()
    for op in ops:
        if op[0] == 'c':
            ix.clear()
            model.clear()
        elif op[0] == 'u':
            ix.unindex_doc(op[1])
            model.pop(op[1], None)
        else:
            ws = [vocab[k % len(vocab)] for k in op[2]]
            known.update(ws)
            if op[0] == 'i':
                ix.index_doc(op[1], ws)
                model[op[1]] = ws
            else:
                other.index_doc(op[1], ws)
    for p in pats:
        pat = resolve(p, vocab)
        if pat[:1] in ('*', '?') and pat:
            for fn in (lex.globToWordIds, ix.search_glob):
                r = raises(QueryError, fn, pat)
                expect(not r, 'pattern %r %s instead of raising QueryError',
                       pat, r)
            ctx.label('wildcard first')
            continue
        match = {w for w in known if globmatch(pat, w)}
        wids = list(lex.globToWordIds(pat))
        got = [lex.get_word(w) for w in wids]
        expect(len(set(got)) == len(got), 'pattern %r: repeated words %r',
               pat, got)
        expect(set(got) == match, 'pattern %r in %r: %s', pat, sorted(known),
               diff(got, match))
        want = {d for d, ws in model.items() if match & set(ws)}
        ids = idlist(ix.search_glob(pat), 'pattern %r' % pat)
        expect(set(ids) == want, 'search_glob(%r): %s', pat, diff(ids, want))
        if '*' in pat or '?' in pat:
            n = min(pat.find(c) for c in '*?' if c in pat)
            near = {w for w in known if w.startswith(pat[:n])}
            ctx.nontrivial(bool(match) and match != near)
            ctx.label('matches several', len(match) > 1)
            ctx.label('special character', any(
                c in pat for c in '.+()[]\\^$|{}\n#&~') and bool(match))
            ctx.label('? matches', '?' in pat and bool(match))
            inix = set().union(*map(set, model.values())) if model else set()
            ctx.label('match outside the index', bool(match - inix))
        else:
            ctx.label('no wildcard')


# -- large vocabularies ------------------------------------------------------

LARGE = (
    'Hundreds to thousands of numbered words, several per document, known '
    'also to another index sharing the lexicon, before and after removals; '
    'patterns over the numbers. Same oracle. Non-trivial: a pattern matches '
    'more than 30 words and not all.')


def large_cases():
    n = weighted((4, st.integers(100, 600)), (2, st.integers(600, 1500)),
                 (1, st.integers(1500, 5000)))
    return st.tuples(
        _text.ranks, gen.families, n, st.integers(1, 40),    # per document
        st.integers(1, 5),                   # every k-th also elsewhere
        st.integers(1, 7),                   # every k-th removed
        st.lists(st.sampled_from(
            ['w*', 'w0*', 'w?1*', 'w*7', 'w00?3*', 'w1?', 'w???', 'w*0*',
             'w?????', 'w01*', 'w*1*2*', 'w00*']), min_size=2, max_size=4))


def large_check(case, ctx):
    from zope.index.text.lexicon import Lexicon
    rank, f, n, per, other_k, gone, pats = case
    lex = Lexicon()
    ix = _text.ranking(rank)(lex, *gen.fams(f))
    other = _text.ranking('okapi')(lex, *gen.fams(f))
    words = ['w%04d' % i for i in range(n)]
    model = {}
    for d, i in enumerate(range(0, n, per)):
        chunk = words[i:i + per]
        if other_k > 1 and d % other_k == 0:
            other.index_doc(d, chunk)
            if d % 2:
                continue
        ix.index_doc(d, chunk)
        model[d] = chunk
    for step in range(2):
        have = set().union(*model.values())
        for pat in pats:
            match = {w for w in words if globmatch(pat, w)}
            want = {d for d, ws in model.items() if match & set(ws)}
            got = {lex.get_word(w) for w in lex.globToWordIds(pat)}
            expect(got == match, 'pattern %r: %s', pat, diff(got, match))
            ids = idlist(ix.search_glob(pat), 'pattern %r' % pat)
            expect(set(ids) == want, 'search_glob(%r): %s', pat,
                   diff(ids, want))
            ctx.nontrivial(30 < len(match) < n)
            ctx.label('>1000 words', len(match) > 1000)
            ctx.label('match outside the index', bool(match - have))
        if gone > 1:
            for d in sorted(model)[::gone]:
                ix.unindex_doc(d)
                del model[d]


PROP = Prop('C09', RULE, [Sub('glob', cases, check, 16000, rule=RULE),
                          Sub('large', large_cases, large_check, 300,
                              rule=LARGE)],
            assumptions=['at most four stars in a pattern'])
