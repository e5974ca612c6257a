"""A reference text index: exact, slow, independent of zope.index."""
import math

from vf.stopwords import STOP

# -- text -> words -----------------------------------------------------------


def isword(ch):
    return ch.isalnum() or ch == '_'


def split(text):
    """Maximal runs of word characters."""
    out, cur = [], []
    for ch in text:
        if isword(ch):
            cur.append(ch)
        elif cur:
            out.append(''.join(cur))
            cur = []
    if cur:
        out.append(''.join(cur))
    return out


def split_glob(text):
    """Maximal runs starting with a word character, of those, * and ?."""
    out, i, n = [], 0, len(text)
    while i < n:
        if isword(text[i]):
            j = i + 1
            while j < n and (isword(text[j]) or text[j] in '*?'):
                j += 1
            out.append(text[i:j])
            i = j
        else:
            i += 1
    return out


_letters = frozenset('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')


def strip_markup(text):
    """Replace <tags> and &entities; by blanks, left to right."""
    out, i, n = [], 0, len(text)
    while i < n:
        ch = text[i]
        if ch == '<':
            j = i + 1
            while j < n and text[j] not in '<>':
                j += 1
            if j < n and text[j] == '>':
                out.append(' ')
                i = j + 1
                continue
        elif ch == '&':
            j = i + 1
            while j < n and text[j] in _letters:
                j += 1
            if j < n and j > i + 1 and text[j] == ';':
                out.append(' ')
                i = j + 1
                continue
        out.append(ch)
        i += 1
    return ''.join(out)


PIPELINES = ('default', 'nostop', 'single', 'html', 'plain')


def normalize(text, pipeline='default', glob=False):
    """The words of a text (or list of texts) after a pipeline."""
    pieces = [text] if isinstance(text, str) else list(text)
    sp = split_glob if glob else split
    words = []
    for piece in pieces:
        if pipeline == 'html':
            piece = strip_markup(piece.lower())
        words += sp(piece)
    if pipeline in ('default', 'nostop', 'single', 'stem'):
        words = [w.lower() for w in words]
    if pipeline in ('default', 'single', 'html', 'stem'):
        words = [w for w in words if w not in STOP]
    if pipeline == 'single':
        words = [w for w in words if not (len(w) == 1 and ord(w) < 255)]
    if pipeline == 'stem':
        words = stem(words)
    return words


def stem(words):
    out = []
    for w in words:
        if '*' in w or '?' in w:
            out.append(w)
        else:
            out += [p.rstrip('s') or p for p in w.split('_') if p]
    return out


class Stem:
    """An element that changes words, splits them and drops some."""

    def process(self, lst):
        return stem(lst)

    processGlob = process


def make_pipeline(name):
    """The same pipeline, of the code under test."""
    from zope.index.text import lexicon as L
    from zope.index.text.htmlsplitter import HTMLWordSplitter
    return {
        'default': lambda: (L.Splitter(), L.CaseNormalizer(),
                            L.StopWordRemover()),
        'nostop': lambda: (L.Splitter(), L.CaseNormalizer()),
        'single': lambda: (L.Splitter(), L.CaseNormalizer(),
                           L.StopWordAndSingleCharRemover()),
        'html': lambda: (HTMLWordSplitter(), L.StopWordRemover()),
        'plain': lambda: (L.Splitter(),),
        'stem': lambda: (L.Splitter(), L.CaseNormalizer(),
                         L.StopWordRemover(), Stem()),
    }[name]()


# -- glob matching -----------------------------------------------------------

def globmatch(pattern, word):
    """* any characters, ? exactly one, others themselves; whole word."""
    cur = {0}
    cur = _skip(pattern, cur)
    for ch in word:
        nxt = set()
        for p in cur:
            if p < len(pattern):
                c = pattern[p]
                if c == '*':
                    nxt.add(p)
                elif c == '?' or c == ch:
                    nxt.add(p + 1)
        cur = _skip(pattern, nxt)
        if not cur:
            return False
    return len(pattern) in cur


def _skip(pattern, states):
    out = set(states)
    todo = list(states)
    while todo:
        p = todo.pop()
        if p < len(pattern) and pattern[p] == '*' and p + 1 not in out:
            out.add(p + 1)
            todo.append(p + 1)
    return out


# -- the index ---------------------------------------------------------------

K1, B = 1.2, 0.75


class TextModel:
    """docs: id -> list of normalized words; rank: 'okapi' or 'cosine'."""

    def __init__(self, rank, docs=None):
        self.rank = rank
        self.docs = dict(docs or {})
        self._stats = None

    def index(self, d, words):
        self.docs[d] = list(words)
        self._stats = None

    def unindex(self, d):
        self.docs.pop(d, None)
        self._stats = None

    def clear(self):
        self.docs.clear()
        self._stats = None

    @property
    def stats(self):
        if self._stats is None:
            post, norm, total = {}, {}, 0
            for d, words in self.docs.items():
                total += len(words)
                for w in words:
                    p = post.setdefault(w, {})
                    p[d] = p.get(d, 0) + 1
            if self.rank == 'cosine':
                sq = {}
                for p in post.values():
                    for d, f in p.items():
                        sq[d] = sq.get(d, 0.0) + (1 + math.log(f)) ** 2
                norm = {d: math.sqrt(x) for d, x in sq.items()}
            self._stats = post, norm, total
        return self._stats

    def vocabulary(self):
        return set(self.stats[0])

    def idf(self, word):
        return math.log(1.0 + len(self.docs) / len(self.stats[0][word]))

    def word(self, word):
        """{doc: score} for one word."""
        post, norm, total = self.stats
        p = post.get(word)
        if not p:
            return {}
        idf = self.idf(word)
        if self.rank == 'cosine':
            return {d: (1 + math.log(f)) / norm[d] * idf
                    for d, f in p.items()}
        mean = total / len(self.docs)
        return {d: idf * f * (K1 + 1) / (
                    f + K1 * ((1 - B) + B * len(self.docs[d]) / mean))
                for d, f in p.items()}

    def words(self, words, every):
        """Sum of the scores of words (repeated ones counting repeatedly)
        over the documents containing all / any of them."""
        maps = [self.word(w) for w in words]
        return combine(maps, every)

    def phrase(self, words):
        if not words:
            return {}
        hits = self.words(words, True)
        return {d: s for d, s in hits.items()
                if contains(self.docs[d], words)}

    def glob(self, pattern):
        if not any(c in pattern for c in '*?'):
            return self.word(pattern)
        return self.words([w for w in self.vocabulary()
                           if globmatch(pattern, w)], False)

    def query_weight(self, words):
        counts = {}
        for w in words:
            if w in self.stats[0]:
                counts[w] = counts.get(w, 0) + 1
        if self.rank == 'cosine':
            return math.sqrt(sum((c * self.idf(w)) ** 2
                                 for w, c in counts.items()))
        return sum(c * self.idf(w) * (1 + K1) for w, c in counts.items())


def combine(maps, every):
    if not maps:
        return {}
    out = {}
    n = {}
    for m in maps:
        for d, s in m.items():
            out[d] = out.get(d, 0.0) + s
            n[d] = n.get(d, 0) + 1
    if every:
        out = {d: s for d, s in out.items() if n[d] == len(maps)}
    return out


def contains(words, phrase):
    n = len(phrase)
    first = phrase[0]
    for i, w in enumerate(words):
        if w == first and words[i:i + n] == phrase:
            return True
    return False
