"""C16 A lexicon is a stable one-to-one map between words and ids."""
import pickle

from hypothesis import strategies as st

from vf import gen, query
from vf.core import Prop, Sub, expect
from vf.gen import weighted
from vf.obs import raises
from vf.textmodel import PIPELINES, make_pipeline, normalize

RULE = (
    'Sequences of source texts (strings, lists of pieces, None), term and '
    'pattern lookups and pickling of a lexicon, over five standard pipelines, '
    'no pipeline at all and user-defined elements (merging, repeating, '
    'numbering, dropping and reordering words). Oracle: a dict from word to the id first '
    'seen for it; all lookups, both directions, and the count are compared '
    'after every step. Non-trivial: a text repeats a word met in an earlier '
    'text and adds another, after a lookup of unknown words.')


class Stem:
    """Drops a final s, so that words merge."""

    def process(self, lst):
        return [w[:-1] if w.endswith('s') and len(w) > 1 else w for w in lst]

    processGlob = process


class Twice:
    """Repeats words."""

    def process(self, lst):
        return [w for w in lst for _ in range(len(w) % 3)]


class Backwards:
    def process(self, lst):
        return list(reversed(list(lst)))


class Number:
    """Adds to each word how often it occurred in the text."""

    def process(self, lst):
        seen, out = {}, []
        for w in lst:
            seen[w] = seen.get(w, 0) + 1
            out.append('%s%d' % (w, seen[w]))
        return out


class Unique:
    """Drops repeated words."""

    def process(self, lst):
        return list(dict.fromkeys(lst))


USER = {'stem': Stem, 'twice': Twice, 'backwards': Backwards,
        'number': Number, 'unique': Unique}


def pipeline(spec):
    name, extra = spec
    elements = () if name == 'none' else make_pipeline(name)
    return tuple(elements) + tuple(USER[e]() for e in extra)


def model_words(spec, text):
    name, extra = spec
    if text is None:
        text = ''
    if name == 'none':
        words = [text] if isinstance(text, str) else list(text)
    else:
        words = normalize(text, name)
    for e in extra:
        words = list(USER[e]().process(words))
    return words


_texts = weighted(
    (8, query.documents.map(lambda d: query.render(d))),
    (3, st.text(max_size=12)),
    (3, st.lists(st.one_of(st.text(max_size=6), query.docwords),
                 max_size=5)),
    (2, st.builds(lambda s, n: [s] * n, query.docwords, st.integers(1, 4))),
    (1, st.none()))


def cases():
    spec = st.tuples(st.sampled_from(PIPELINES + ('default', 'none')),
                     weighted((3, st.just(())), (2, st.lists(
                         st.sampled_from(sorted(USER)), min_size=1,
                         max_size=2).map(tuple))))
    op = weighted((8, st.tuples(st.just('source'), _texts)),
                  (4, st.tuples(st.just('term'), _texts)),
                  (2, st.tuples(st.just('parse'), _texts)),
                  (2, st.tuples(st.just('glob'), st.sampled_from(
                      ['a*', 'p?', 'apple', 'nosuch*', '\xe9*', 'A*', '']))),
                  (3, st.tuples(st.just('pieces'), gen.seqs(
                      query.docwords, 0, 10, 5), st.integers(0, 2**10))),
                  (1, st.tuples(st.just('ids'), st.integers(-3, 60),
                                st.text(max_size=4))),
                  (1, st.tuples(st.just('pickle'))))
    return st.tuples(spec, gen.seqs(op, 2, 25, 9))


def check(case, ctx):
    from zope.index.text.lexicon import Lexicon
    spec, ops = case
    lex = Lexicon(*pipeline(spec))
    known = {}
    looked = False

    def learn(what, words, wids):
        wids = list(wids)
        expect(len(wids) == len(words), '%s gives %d ids for the words %r',
               what, len(wids), words)
        old = new = False
        for w, i in zip(words, wids):
            if w in known:
                old = True
                expect(known[w] == i, '%s: id of %r was %r and is now %r',
                       what, w, known[w], i)
                continue
            new = True
            expect(type(i) is int and i > 0, '%s: id of %r is %r', what, w, i)
            expect(i not in known.values(), '%s: %r gets the id %r of another '
                   'word', what, w, i)
            known[w] = i
        ctx.nontrivial(old and new and looked)

    for op in ops:
        if op[0] == 'source':
            words = model_words(spec, op[1])
            learn('sourceToWordIds(%r)' % (op[1],), words,
                  lex.sourceToWordIds(op[1]))
        elif op[0] == 'pieces':
            # a text and any cut of it between words are the same text
            words, cuts, pieces = op[1], op[2], []
            for k, w in enumerate(words):
                if pieces and not cuts >> k & 1:
                    pieces[-1] += ' ' + w
                else:
                    pieces.append(w)
            text = ' '.join(words)
            want = model_words(spec, text)
            if spec[0] == 'none':
                continue
            learn('sourceToWordIds(%r)' % text, want,
                  lex.sourceToWordIds(text))
            for fn in lex.sourceToWordIds, lex.termToWordIds:
                a, b = fn(text), fn(pieces)
                expect(list(a) == list(b), '%r gives %r, %r gives %r', text,
                       a, pieces, b)
            expect(list(lex.parseTerms(text)) == list(lex.parseTerms(pieces)),
                   'parseTerms(%r) and (%r) differ', text, pieces)
        elif op[0] == 'term' and op[1] is not None:
            words = model_words(spec, op[1])
            got = list(lex.termToWordIds(op[1]))
            want = [known.get(w, 0) for w in words]
            expect(got == want, 'termToWordIds(%r) is %r instead of %r',
                   op[1], got, want)
            looked = looked or 0 in want
        elif op[0] == 'parse' and op[1] is not None:
            got = list(lex.parseTerms(op[1]))
            want = [op[1]] if isinstance(op[1], str) else list(op[1])
            if spec[0] != 'none':
                want = normalize(op[1], spec[0], glob=True)
            for e in spec[1]:
                want = list(USER[e]().process(want))
            expect(got == want, 'parseTerms(%r) is %r instead of %r', op[1],
                   got, want)
        elif op[0] == 'glob':
            lex.globToWordIds(op[1])
        elif op[0] == 'ids':
            if op[1] not in known.values():
                r = raises(KeyError, lex.get_word, op[1])
                expect(not r, 'get_word of an unknown id %s', r)
            got = lex.get_wid(op[2])
            expect(got == known.get(op[2], 0), 'get_wid(%r) is %r', op[2],
                   got)
        elif op[0] == 'pickle':
            lex = pickle.loads(pickle.dumps(lex))
        verify(lex, known, op)


def verify(lex, known, op):
    n = lex.wordCount()
    expect(n == len(known), 'after %r: wordCount() is %r, %d words are known',
           op, n, len(known))
    for w, i in known.items():
        expect(lex.get_word(i) == w, 'after %r: get_word(%r) is %r, not %r',
               op, i, lex.get_word(i), w)
        expect(lex.get_wid(w) == i, 'after %r: get_wid(%r) is %r, not %r', op,
               w, lex.get_wid(w), i)
    expect(sorted(lex.words()) == sorted(known), 'after %r: words() is wrong',
           op)
    expect(sorted(lex.wids()) == sorted(known.values()),
           'after %r: wids() is wrong', op)
    expect(dict(lex.items()) == known, 'after %r: items() is wrong', op)


# -- many words --------------------------------------------------------------

def many_cases():
    return st.lists(st.tuples(st.integers(0, 3000), st.integers(1, 900),
                              st.sampled_from([1, 1, 2, -1])),
                    min_size=2, max_size=6)


def many_check(case, ctx):
    from zope.index.text.lexicon import Lexicon
    lex = Lexicon(*make_pipeline('default'))
    known = {}
    for start, n, step in case:
        words = ['w%d' % abs(start + k * step) for k in range(n)]
        wids = lex.sourceToWordIds(' '.join(words))
        expect(len(wids) == len(words), 'ids are missing')
        for w, i in zip(words, wids):
            expect(known.setdefault(w, i) == i, 'id of %r changed', w)
        ctx.nontrivial(len(known) > 200)
    expect(len(set(known.values())) == len(known) and
           min(known.values()) > 0, 'ids are not distinct and positive')
    verify(lex, known, 'many words')


PROP = Prop('C16', RULE, [
    Sub('lexicon', cases, check, 6000, rule=RULE),
    Sub('many', many_cases, many_check, 160, rule=RULE)])
