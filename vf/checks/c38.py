"""C38 Queries stay local."""
from hypothesis import strategies as st

from vf import gen
from vf.checks._zodb import Database
from vf.core import Prop, Sub, expect
from vf.gen import weighted
from vf.textmodel import make_pipeline

RULE = (
    'A field, keyword, topic or text index of hundreds to thousands of '
    'documents in a database, then generated queries, sorts and lookups, '
    'each with nothing in the cache, counting the objects loaded. Oracle: the '
    'right documents, from no more objects than a constant, one or two for each '
    'value, word or document that the query names or finds, one for each '
    '15 ids in the postings of its words, and for text, one for each 40 '
    'documents (whose number and lengths are read). Non-trivial: the whole '
    'index has at least three times as many objects as are allowed.')


class Loads:
    """Count the loads of a connection."""

    def __init__(self, conn):
        self.storage = conn._normal_storage
        self.load = self.storage.load
        self.storage.load = self._load
        self.n = 0

    def _load(self, oid, *a):
        self.n += 1
        return self.load(oid, *a)


# -- contents: document i of n -------------------------------------------------

def field_value(seed, i, spread):
    return gen.noise(seed, i) % spread


def some(seed, i, vocab, many):
    """Numbers of a few of the words, small ones being frequent."""
    out = []
    for k in range(many):
        x = gen.noise(seed, i, k)
        out.append(x % vocab if x % 3 else x // 3 % min(vocab, 7))
    return out


def cases():
    query = st.tuples(st.integers(0, 6), gen.seeds, gen.seeds)
    return st.tuples(
        st.sampled_from(['field', 'keyword', 'topic', 'okapi', 'cosine']),
        st.sampled_from([32, 64]), gen.largeids(32), gen.seeds,
        st.integers(700, 2500),
        weighted((3, st.integers(300, 3000)), (1, st.integers(10, 300)),
                 (1, st.integers(3000, 9000))),
        st.integers(0, 40), gen.seqs(query, 4, 24, 12))


class Field:
    def __init__(self, seed, ids, vocab, f):
        from zope.index.field import FieldIndex
        self.ix = FieldIndex(*f)
        self.docs = {d: field_value(seed, i, vocab)
                     for i, d in enumerate(ids)}
        for d, v in self.docs.items():
            self.ix.index_doc(d, v)
        self.ids = ids
        self.vocab = vocab

    def drop(self, d):
        self.ix.unindex_doc(d)
        del self.docs[d]

    def ask(self, ix, what, a, b):
        """(the outcome, the expected one, the objects allowed)"""
        if what < 3:
            lo = a % self.vocab
            hi = lo + b % [1, 4, 30][what]
            want = {d for d, v in self.docs.items() if lo <= v <= hi}
            return (lambda: set(ix.apply((lo, hi))), want,
                    2 * (hi - lo + 1) + len(want) // 15)
        ids = [self.ids[gen.noise(a, k) % len(self.ids)]
               for k in range(1 + b % 12)]
        rev = bool(what % 2)
        limit = None if b % 3 else 1 + b % 4
        want = sorted((self.docs[d] for d in set(ids) if d in self.docs),
                      reverse=rev)[:limit]
        return (lambda: [self.docs[d] for d in
                         ix.sort(ids, reverse=rev, limit=limit)],
                want, 2 * len(ids))


class Keyword:
    def __init__(self, seed, ids, vocab, f):
        from zope.index.keyword import KeywordIndex
        self.ix = KeywordIndex(*f)
        self.vocab = vocab
        self.post = {}
        self.docs = {}
        for i, d in enumerate(ids):
            kws = some(seed, i, vocab, 1 + i % 4)
            self.docs[d] = set(kws)
            self.ix.index_doc(d, ['k%d' % k for k in kws])
            for k in kws:
                self.post.setdefault(k, set()).add(d)
        self.ids = ids

    def drop(self, d):
        self.ix.unindex_doc(d)
        for k in self.docs.pop(d):
            self.post[k].discard(d)

    def ask(self, ix, what, a, b):
        if what == 5:
            d = self.ids[a % len(self.ids)]
            return lambda: ix.has_doc(d), d in self.docs, 0
        q = some(a, b, self.vocab, 1 + b % 4)
        sets = [self.post.get(k, set()) for k in q]
        if what < 2:
            want = set.intersection(*sets)
        else:
            want = set.union(*sets)
        return (lambda: set(ix.search(['k%d' % k for k in q],
                                      ['or', 'and'][what < 2])), want,
                2 * len(q) + sum(map(len, sets)) // 15)


class Topic:
    def __init__(self, seed, ids, vocab, f):
        from zope.index.topic import TopicIndex
        from zope.index.topic.filter import PythonFilteredSet
        self.ix = TopicIndex(*f)
        self.n = 4 + vocab % 20
        self.sets = [set() for k in range(self.n)]
        for k in range(self.n):
            self.ix.addFilter(PythonFilteredSet(
                'f%d' % k, '%d in context' % k, *f))
        for i, d in enumerate(ids):
            ctx = some(seed, i, self.n, 5)
            self.ix.index_doc(d, ctx)
            for k in ctx:
                self.sets[k].add(d)

    def drop(self, d):
        self.ix.unindex_doc(d)
        for s in self.sets:
            s.discard(d)

    def ask(self, ix, what, a, b):
        q = sorted(set(some(a, b, self.n, 1 + b % 3)))
        sets = [self.sets[k] for k in q]
        if what < 3:
            want = set.intersection(*sets)
        else:
            want = set.union(*sets)
        return (lambda: set(ix.search(['f%d' % k for k in q],
                                      ['or', 'and'][what < 3])), want,
                2 * len(q) + sum(map(len, sets)) // 15)


class Text:
    def __init__(self, seed, ids, vocab, f, cosine):
        from zope.index.text.cosineindex import CosineIndex
        from zope.index.text.lexicon import Lexicon
        from zope.index.text.okapiindex import OkapiIndex
        from zope.index.text.textindex import TextIndex
        lexicon = Lexicon(*make_pipeline('default'))
        self.ix = TextIndex(
            lexicon, (CosineIndex if cosine else OkapiIndex)(lexicon, *f))
        self.vocab = vocab
        self.post = {}
        self.docs = {}
        for i, d in enumerate(ids):
            words = some(seed, i, vocab, 2 + i % 7)
            self.docs[d] = words
            self.ix.index_doc(d, ' '.join('w%05d' % w for w in words))
            for w in words:
                self.post.setdefault(w, set()).add(d)
        self.ids = ids

    def drop(self, d):
        self.ix.unindex_doc(d)
        for w in self.docs.pop(d):
            self.post[w].discard(d)

    def allow(self, words):
        # the postings, and the length of each document
        return len(self.ids) // 40 + sum(
            3 + len(self.post.get(w, ())) // 15 for w in words)

    def ask(self, ix, what, a, b):
        q = some(a, b, self.vocab, 1 + b % 3)
        sets = [self.post.get(w, set()) for w in q]
        names = ['w%05d' % w for w in q]
        if what < 3:
            if what == 0:
                want = set.intersection(*sets)
            elif what == 1:
                want = set.union(*sets)
            else:
                want = sets[0].difference(*sets[1:])
            text = [' AND ', ' OR ', ' NOT '][what].join(names)
            return lambda: set(ix.apply(text)), want, self.allow(q)
        if what == 3:
            # the words of every candidate are looked at
            d = self.ids[a % len(self.ids)]
            q = (self.docs.get(d) or q)[:2]
            found = set.intersection(*[self.post.get(w, set()) for w in q])
            want = {d for d in found if any(
                self.docs[d][k:k + len(q)] == q
                for k in range(len(self.docs[d])))}
            return (lambda: set(ix.apply(
                '"%s"' % ' '.join('w%05d' % w for w in q))), want,
                self.allow(q) + 2 * len(found))
        if what == 4:
            pattern = 'w%04d?' % (q[0] // 10)
            words = range(q[0] // 10 * 10, q[0] // 10 * 10 + 10)
            want = set().union(*[self.post.get(w, set()) for w in words])
            return (lambda: set(ix.apply(pattern)), want, self.allow(words))
        if what == 6:
            pattern = 'w%03d?%d' % (q[0] // 100, b % 10)
            want = {'w%05d' % w for w in self.post
                    if w // 100 == q[0] // 100 and w % 10 == b % 10}
            lex = ix.lexicon

            def words():
                wids = lex.globToWordIds(pattern)
                return {lex.get_word(wid) for wid in wids}
            return words, want, 2 * len(want)
        d = self.ids[a % len(self.ids)]
        return lambda: ix.index.has_doc(d), d in self.docs, 0


def check(case, ctx):
    name, f, (base, stride), seed, n, vocab, dropped, queries = case
    ids = [base + stride * i for i in range(n)]
    f = gen.fams(f)
    if name == 'field':
        m = Field(seed, ids, vocab, f)
    elif name == 'keyword':
        m = Keyword(seed, ids, vocab, f)
    elif name == 'topic':
        m = Topic(seed, ids, vocab, f)
    else:
        m = Text(seed, ids, vocab, f, name == 'cosine')
    for d in ids[seed % n::7][:dropped]:
        m.drop(d)
    with Database() as db:
        conn, tm = db.open()
        conn.root()['ix'] = m.ix
        tm.commit()
        conn, tm = db.open()
        total = len(conn._storage)
        loads = Loads(conn)
        for what, a, b in queries:
            conn.cacheMinimize()
            ix = conn.root()['ix']
            q, want, allowed = m.ask(ix, what, a, b)
            loads.n = 0
            got = q()
            expect(got == want, '%s index of %d documents, query %r: %r '
                   'instead of %r', name, n, (what, a, b), got, want)
            allowed += 14
            expect(loads.n <= allowed, '%s index of %d documents and %d '
                   'objects, query %r: loads %d objects, expected at most '
                   '%d (it finds %d)', name, n, total, (what, a, b), loads.n,
                   allowed, len(want) if hasattr(want, '__len__') else want)
            ctx.nontrivial(total >= 3 * allowed)
            ctx.label('%s: %d%% of the allowance' % (
                name, loads.n * 100 // allowed // 25 * 25))
    ctx.label(name)


PROP = Prop('C38', RULE, [Sub('loads', cases, check, 700, rule=RULE)],
            assumptions=['loads from the storage stand for the cost of a '
                         'query; a second connection starts with no objects'])
