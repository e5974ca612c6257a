"""Generated text documents, histories and queries, and their meaning."""
from hypothesis import strategies as st

from vf import gen
from vf.gen import weighted
from vf.textmodel import combine, normalize

BASE = ['apple', 'pear', 'app', 'apples', 'plum', 'x1', '\xe9t\xe9',
        '\u65e5\u672c\u8a9e', 'stra\xdfe', 'foo_bar', 'q', 'ab', 'abc',
        'applet', '7', 'z']
STOPS = ['the', 'of', 'and', 'or', 'not', 'with', 'a']


def _variants(w):
    out = [w]
    for v in (w.upper(), w.capitalize(), w[:-1] + w[-1:].upper()):
        if v.lower() == w and v not in out:
            out.append(v)
    return out


VARIANTS = {w: _variants(w) for w in BASE + STOPS}
_base = [v for w in BASE[:6] for v in (w, w, w, w, w) + tuple(VARIANTS[w])]
_rare = [v for w in BASE[6:] for v in (w, w, w) + tuple(VARIANTS[w])]
_stop = [v for w in STOPS for v in VARIANTS[w]]

words = weighted((6, st.sampled_from(_base)), (2, st.sampled_from(_rare)))
docwords = weighted((6, st.sampled_from(_base)), (2, st.sampled_from(_rare)),
                    (1, st.sampled_from(_stop)))
seps = st.sampled_from([' ', ' ', ' ', ', ', '-', '\n', ' -- ', '. ', "'",
                        '\u3000', ' <b> ', ' &amp; ', '>', ' < '])
documents = st.tuples(
    seps, gen.seqs(docwords, 0, 14, 5).map(tuple),
    st.sampled_from(['str', 'str', 'str', 'list']))


# numbered words: many different ones, and often the same one
numbered = st.tuples(
    st.integers(0, 40),
    weighted((4, st.integers(1, 12)), (2, st.integers(12, 70)),
             (1, st.integers(70, 260))),
    st.sampled_from([1, 1, 1, 2, 3, 12]), st.integers(0, 12))


def nword(j):
    return 'n%03d' % j


def wide(start, n, rep, more):
    ws = tuple(nword(start + k) for k in range(n))
    # some of the words once more
    return (' ', ws * (rep if n < 70 else 1) + ws[:more * more:2], 'str')


long_documents = st.lists(
    st.tuples(words, weighted(
        (4, st.integers(1, 6)), (3, st.integers(1, 60)),
        (1, st.sampled_from([100, 127, 128, 255, 256, 400])))),
    min_size=1, max_size=4).map(tuple)


def long(parts):
    """A document of words repeated many times."""
    return (' ', tuple(w for w, n in parts for _ in range(n)), 'str')


def shapes():
    """Collections: (documents, their length, others made of repetitions)."""
    return st.tuples(
        weighted((2, st.integers(0, 12)), (3, st.integers(12, 150))),
        weighted((2, st.integers(1, 8)), (2, st.integers(8, 120))),
        st.integers(1, 6),
        st.lists(st.tuples(
            st.integers(0, 7), weighted(
                (2, st.integers(1, 10)), (3, st.integers(10, 300)),
                (1, st.sampled_from([1000, 2000]))),
            weighted((2, st.just(0)), (1, st.integers(1, 100)))),
            min_size=1, max_size=4).map(tuple))


def shaped(shape):
    """[(id, [word])]"""
    n, length, vocab, others = shape
    out = []
    for i in range(n):
        out.append((i + 100, [nword((i + k * (1 + i % 2)) % vocab)
                              for k in range(length)]))
    for i, (w, rep, fill) in enumerate(others):
        out.append((i, [nword(w)] * rep + ['f%d' % (k % 50)
                                           for k in range(fill)]))
    return out


# Few words: phrases of the same words, documents that differ in their order

_case = [str.lower, str.upper, str.capitalize, lambda w: w]


def narrowed(case, k):
    """The case with only *k* of the words."""
    if k and type(case) in (tuple, list):
        return type(case)([narrowed(c, k) for c in case])
    if k and type(case) is str and case.lower() in BASE:
        w = BASE[BASE.index(case.lower()) % k]
        for how in _case:
            if how(case) == case:
                return how(w)
    return case


def narrow(strategy):
    return st.tuples(strategy, st.sampled_from([0, 0, 0, 0, 0, 2, 3, 4])).map(
        lambda t: narrowed(*t))


def render(doc):
    sep, ws, how = doc
    if how == 'list':
        return list(ws)
    return sep.join(ws)


def doc_words(doc, pipeline):
    return normalize(render(doc), pipeline)


# -- histories ---------------------------------------------------------------

bulk_sizes = weighted((12, st.integers(1, 25)), (1, st.integers(25, 130)))


def ops(bulk=True, clear=True):
    from vf.gen import refs
    out = [(14, st.tuples(st.just('i'), refs, documents)),
           (4, st.tuples(st.just('u'), refs)),
           (1, st.tuples(st.just('wd'), refs,
                         st.lists(numbered, min_size=1, max_size=2))),
           (1, st.tuples(st.just('ld'), refs, long_documents))]
    if bulk:
        out += [(2, st.tuples(st.just('bi'), refs, bulk_sizes, documents,
                              documents)),
                (1, st.tuples(st.just('bu'), refs, bulk_sizes))]
    if clear:
        out.append((1, st.just(('c',))))
    return weighted(*out)


def expand(idmap, op):
    """Elementary steps: ('i', id, doc), ('u', id), ('c',)."""
    if op[0] == 'i':
        return [('i', gen.did(idmap, op[1]), op[2])]
    if op[0] == 'u':
        return [('u', gen.did(idmap, op[1]))]
    if op[0] == 'wd':
        # (two: reindexed at once)
        return [('i', gen.did(idmap, op[1]), wide(*w)) for w in op[2]]
    if op[0] == 'ld':
        return [('i', gen.did(idmap, op[1]), long(op[2]))]
    if op[0] == 'bi':
        s = max(op[1], gen.BULK)
        out = []
        for k in range(op[2]):
            a, b = op[3], op[4]
            doc = (a[0], a[1] + b[1][:k % (len(b[1]) + 1)], a[2])
            out.append(('i', gen.did(idmap, s + k), doc))
        return out
    if op[0] == 'bu':
        s = max(op[1], gen.BULK)
        return [('u', gen.did(idmap, s + k)) for k in range(op[2])]
    return [op]


# -- queries -----------------------------------------------------------------

_wordleaf = st.tuples(st.just('w'), weighted(
    (9, words), (1, st.just('nosuchword')),
    (1, st.sampled_from(['"the"', '"AND"', 'the', 'of', '"a of"', '!', '...',
                         '""']))))
_numberedleaf = st.tuples(st.just('w'), st.integers(0, 60).map(nword))
_runleaf = st.tuples(
    st.just('p'), st.tuples(st.integers(0, 50), st.integers(2, 12)).map(
        lambda t: tuple(nword(t[0] + k) for k in range(t[1]))),
    st.sampled_from(['quote', 'hyphen']))
_phraseleaf = st.tuples(
    st.just('p'), st.lists(weighted((8, words), (1, st.sampled_from(_stop))),
                           min_size=1, max_size=4).map(tuple),
    st.sampled_from(['quote', 'quote', 'hyphen', 'dot', 'quotepunct']))
_globleaf = st.tuples(st.just('g'), st.sampled_from(
    ['app*', 'App?', 'appl*', 'p*', 'p?ar', 'a*', 'a?*', '\xe9*', 'x?',
     'ab*', 'AB?', 'foo_*', 'q*', 'nosuch*', 'p*r', 'apple*', 'z?', '7*',
     'app?es', 'a*e', '\u65e5*', 'the*', 'of?', 'n*', 'n0*', 'n?1*', 'n00?',
     'N1*']))


def leaves(globs=True):
    out = [(24, _wordleaf), (12, _phraseleaf), (2, _numberedleaf),
           (1, _runleaf)]
    if globs:
        out.append((9, _globleaf))
    return weighted(*out)


# a slice of some document: made concrete for a model
_sliceleaf = st.tuples(
    st.just('s'), st.integers(0, 9), st.integers(0, 9), weighted(
        (5, st.integers(2, 4)), (1, st.integers(5, 15))),
    st.sampled_from(['quote', 'quote', 'quotepunct', 'hyphen']))


def concrete(q, docs):
    """The tree with slices of documents (ids to word lists) as phrases."""
    lists = [docs[d] for d in sorted(docs) if len(docs[d]) > 1]

    def walk(t):
        if type(t) is not tuple:
            return t
        if t and t[0] == 's':
            ws = lists[t[1] % len(lists)] if lists else ['apple', 'pear']
            k = t[2] % (len(ws) - 1)
            return ('p', tuple(ws[k:k + t[3]]), t[4])
        return tuple(map(walk, t))
    return walk(q)


def queries(globs=True, depth=2, slices=False):
    leaf = leaves(globs)
    if slices:
        leaf = weighted((6, leaf), (1, _sliceleaf))
    atoms = st.tuples(
        st.just('t'),
        st.lists(st.tuples(weighted((4, st.just(False)), (1, st.just(True))),
                           leaf),
                 min_size=1, max_size=3).map(tuple))
    single = st.tuples(st.just('t'),
                       st.tuples(st.tuples(st.just(False), leaf)))
    term = weighted((4, single), (1, atoms))
    for _ in range(depth):
        sub = _orexpr(term)
        term = weighted((4, single), (2, atoms),
                        (3, st.tuples(st.just('paren'), sub)))
    return weighted((24, _orexpr(term)), (1, _wideexpr(single, leaf)))


def _wideexpr(single, leaf):
    """Flat queries of many parts."""
    one = st.tuples(st.just('and'), single, st.just(()))
    ands = st.tuples(st.just('and'), single, gen.seqs(
        st.tuples(st.sampled_from(_AND + _NOT), single), 4, 24, 8).map(tuple))
    atoms = st.tuples(st.just('t'), gen.seqs(
        st.tuples(weighted((6, st.just(False)), (1, st.just(True))), leaf),
        4, 24, 8).map(tuple))
    return weighted(
        (2, st.tuples(st.just('or'), gen.seqs(one, 4, 40, 15).map(tuple),
                      st.just('OR'))),
        (1, st.tuples(st.just('or'), st.tuples(ands), st.just('OR'))),
        (1, st.tuples(st.just('or'), st.tuples(
            st.tuples(st.just('and'), atoms, st.just(()))), st.just('OR'))))


_AND = ['AND', 'AND', 'and', 'And']
_NOT = ['AND NOT', 'NOT', 'not', 'And noT']


def _orexpr(term):
    andexpr = st.tuples(
        st.just('and'), term,
        gen.seqs(st.tuples(st.sampled_from(_AND + _NOT), term), 0, 3, 0.8)
        .map(tuple))
    return st.tuples(st.just('or'), gen.seqs(andexpr, 1, 3, 1.5).map(tuple),
                     st.sampled_from(['OR', 'or', 'Or']))


def leaf_text(leaf):
    if leaf[0] == 'p':
        if leaf[2] == 'hyphen':
            return '-'.join(leaf[1])
        if leaf[2] == 'dot':
            return '.'.join(leaf[1])
        if leaf[2] == 'quotepunct':
            return '"' + ', '.join(leaf[1]) + '!"'
        return '"' + ' '.join(leaf[1]) + '"'
    return leaf[1]


def leaf_token(leaf):
    """The token, protected if it would read as an operator."""
    t = leaf_text(leaf)
    if t.upper() in ('AND', 'OR', 'NOT'):
        t = '"%s"' % t
    return t


def text(q):
    """The query string for a tree."""
    if q[0] == 'or':
        return (' %s ' % q[2]).join(text(a) for a in q[1])
    if q[0] == 'and':
        return ' '.join([text(q[1])] +
                        ['%s %s' % (op, text(t)) for op, t in q[2]])
    if q[0] == 'paren':
        return '(' + text(q[1]) + ')'
    if q[0] == 't':
        return ' '.join(('-' if neg else '') + leaf_token(leaf)
                        for neg, leaf in q[1])
    raise ValueError(q)


class Rejected(Exception):
    """The query must raise ParseError."""


class Evaluation:
    """The meaning of a query tree for a TextModel."""

    def __init__(self, model, pipeline):
        self.model, self.pipeline = model, pipeline
        self.labels = set()

    def run(self, q):
        hits = self.orexpr(q)
        if hits is None:
            raise Rejected('only stop words')
        return hits

    def orexpr(self, q):
        maps = [self.andexpr(a) for a in q[1]]
        maps = [m for m in maps if m is not None]
        if len(maps) > 1:
            self.labels.add('or')
        return combine(maps, False) if maps else None

    def andexpr(self, q):
        pos, nots = [], []
        m = self.term(q[1])
        if m is not None:
            pos.append(m)
        for op, t in q[2]:
            m = self.term(t)
            if m is None:
                continue
            (nots if op in _NOT else pos).append(m)
        return self._and(pos, nots) if pos else None

    def _and(self, pos, nots):
        hits = combine(pos, True)
        if len(pos) > 1:
            self.labels.add('and')
        for n in nots:
            if set(n) & set(hits):
                self.labels.add('not excludes')
            for d in n:
                hits.pop(d, None)
        return hits

    def term(self, q):
        if q[0] == 'paren':
            return self.orexpr(q[1])
        pos, nots = [], []
        for neg, leaf in q[1]:
            m = self.leaf(leaf)
            if m is not None:
                (nots if neg else pos).append(m)
        if not pos and not nots:
            return None
        if not pos:
            raise Rejected('no positive word')
        return self._and(pos, nots)

    def leaf(self, leaf):
        t = leaf_text(leaf)
        ws = normalize(t, self.pipeline, glob=True)
        if not ws:
            self.labels.add('stop word')
            return None
        if len(ws) > 1:
            hits = self.model.phrase(ws)
            if hits:
                self.labels.add('phrase')
            return hits
        if any(c in ws[0] for c in '*?'):
            hits = self.model.glob(ws[0])
            if hits:
                self.labels.add('glob')
            return hits
        return self.model.word(ws[0])


def positive_words(q, pipeline):
    """All words in positive positions, in order."""
    out = []

    def term(t):
        if t[0] == 'paren':
            orexpr(t[1])
        else:
            for neg, leaf in t[1]:
                if not neg:
                    ws = normalize(leaf_text(leaf), pipeline, glob=True)
                    out.extend(normalize(ws, pipeline))

    def orexpr(o):
        for a in o[1]:
            term(a[1])
            for op, t in a[2]:
                if op not in _NOT:
                    term(t)
    orexpr(q)
    return out


def size(q):
    """Number of leaves."""
    if q[0] == 'or':
        return sum(size(a) for a in q[1])
    if q[0] == 'and':
        return size(q[1]) + sum(size(t) for _, t in q[2])
    if q[0] == 'paren':
        return size(q[1])
    return len(q[1])
