"""Every kind of index behind one interface: generated histories, a reference
model, and canonical observations of both the index and the model.

A *config* is a literal (kind name, family, idmap, extra).  An *op* is

  ('i', ref, content)          index or reindex a document
  ('u', ref)                   unindex
  ('c',)                       clear
  ('bi', ref, n, content, k)   index n documents, varying the content by k
  ('bu', ref, n)               unindex n documents
  and some that only one kind has.

Observations are dicts; ``same`` compares them (scores up to rounding).
"""
from hypothesis import strategies as st

from vf import gen
from vf.core import Violation
from vf.gen import fam, fams, skey, weighted
from vf.obs import close, diff, idlist, scores
from vf.textmodel import TextModel, make_pipeline


def same(a, b):
    """Compare two observation dicts; '' or a description of a difference."""
    if set(a) != set(b):
        return 'different observations: %r' % sorted(
            map(repr, set(a) ^ set(b)))[:6]
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, dict) and isinstance(y, dict):
            if set(x) != set(y):
                return '%r: %s' % (k, diff(x, y))
            for d in x:
                if not close(x[d], y[d]):
                    return '%r: document %r scores %r instead of %r' % (
                        k, d, x[d], y[d])
        elif x != y:
            if isinstance(x, (set, frozenset)):
                return '%r: %s' % (k, diff(x, y))
            return '%r: %s instead of %s' % (k, _short(x), _short(y))
    return ''


def _short(x):
    r = repr(x)
    return r if len(r) < 500 else r[:500] + '...'


class Kind:
    """Defaults shared by the kinds."""
    max_docs = 1000

    def __init__(self, cfg):
        self.cfg = cfg
        self.name, self.f, self.idmap, self.extra = cfg
        self.family = fam(self.f)
        self.docs = {}               # the model: id -> resolved content
        self.ever = {}               # all words there ever were

    def did(self, ref):
        return gen.did(self.idmap, ref)

    # -- running an op on the model and/or an index
    def expand(self, op):
        """Elementary steps of an op: ('i', id, content)/('u', id)/other."""
        if op[0] == 'i':
            return [('i', self.did(op[1]), self.content(op[2], 0))]
        if op[0] == 'u':
            return [('u', self.did(op[1]))]
        if op[0] == 'bi':
            s = max(op[1], gen.BULK)
            return [('i', self.did(s + k), self.content(op[3], k * op[4]))
                    for k in range(op[2])]
        if op[0] == 'bu':
            s = max(op[1], gen.BULK)
            return [('u', self.did(s + k)) for k in range(op[2])]
        return [op]

    def run(self, ix, op, model=True):
        for step in self.expand(op):
            self.step(ix, step)
            if model:
                self.mstep(step)

    def step(self, ix, step):
        if step[0] == 'i':
            value = self.value(step[2])
            if step[1] % 2:
                # as programs do that keep one object and change it
                value = self.recycle(value)
            ix.index_doc(step[1], value)
        elif step[0] == 'u':
            ix.unindex_doc(step[1])
        elif step[0] == 'c':
            ix.clear()
        else:
            raise ValueError(step)

    def mstep(self, step):
        if step[0] == 'i':
            self.docs[step[1]] = step[2]
        elif step[0] == 'u':
            self.docs.pop(step[1], None)
        elif step[0] == 'c':
            self.docs.clear()

    def value(self, content):
        return content

    def recycle(self, value):
        """The same value in an object used before, if there is one."""
        if type(value) not in (dict, list):
            return value
        old = self.__dict__.setdefault('old', {})
        box = old.setdefault(type(value), type(value)())
        box.clear()
        (box.update if isinstance(value, dict) else box.extend)(value)
        return box

    # -- saving and restoring the model
    def save(self):
        return dict(self.docs)

    def restore(self, state):
        self.docs = dict(state)

    def prepare(self, ix):
        """Called after the index was read back from a database."""
        return ix

    def verify(self, ix, where=''):
        d = same(self.observe(ix), self.expected())
        if d:
            raise Violation('%s%s index: %s' % (
                where and where + ': ', self.name, d))


def common_ops(content, clear=True, bulk=True):
    from vf.gen import refs
    out = [(12, st.tuples(st.just('i'), refs, content)),
           (5, st.tuples(st.just('u'), refs))]
    if bulk:
        out += [(1, st.tuples(st.just('bi'), refs, gen.bulk_sizes, content,
                              st.integers(0, 2))),
                (1, st.tuples(st.just('bu'), refs, gen.bulk_sizes))]
    if clear:
        out.append((1, st.tuples(st.just('c'))))
    return out


# -- field -------------------------------------------------------------------

class Field(Kind):
    @staticmethod
    def extras():
        return gen.valuespaces()

    @staticmethod
    def contents():
        return gen.valrefs

    @classmethod
    def ops(cls, **kw):
        return weighted(*common_ops(cls.contents(), **kw))

    def make(self):
        from zope.index.field import FieldIndex
        return FieldIndex(*fams(self.f))

    def content(self, ref, k):
        return gen.val(self.extra, ref + k)

    def probes(self):
        vals = {}
        for v in list(self.docs.values())[:60] + list(self.extra[1]):
            vals.setdefault(v, v)
        vs = sorted(vals.values(), key=skey)
        if len(vs) > 8:
            vs = vs[:3] + vs[len(vs) // 2:len(vs) // 2 + 2] + vs[-3:]
        return vs

    def _obs(self, rng, sort, ndocs, nwords):
        vs = self.probes()
        o = {('range', None, None): rng(None, None)}
        for i, v in enumerate(vs):
            o['eq', i] = rng(v, v)
            o['ge', i] = rng(v, None)
            o['le', i] = rng(None, v)
        if len(vs) > 3:
            o['mid'] = rng(vs[1], vs[-2])
        every = sorted(set(self.docs) | {self.did(r) for r in range(3)})
        o['sort'] = sort(every, False, None)
        o['rsort'] = sort(every, True, None)
        o['sort3'] = sort(every, False, 3)
        o['rsort2'] = sort(every[::2], True, 2)
        o['docs'] = ndocs
        o['words'] = nwords
        return o

    def observe(self, ix):
        def rng(lo, hi):
            return frozenset(idlist(ix.apply((lo, hi))))

        def sort(ids, rev, limit):
            got = list(ix.sort(self.family.IF.Set(ids), reverse=rev,
                               limit=limit))
            if len(set(got)) != len(got) or not set(got) <= set(ids):
                return 'bad sort %r' % got
            try:
                keys = [skey(self.docs[d]) for d in got]
            except KeyError:
                return 'sort has unknown ids: %r' % got
            return [keys, frozenset(got) if limit is None else None]
        return self._obs(rng, sort, ix.documentCount(), ix.wordCount())

    def expected(self):
        docs = self.docs

        def rng(lo, hi):
            return frozenset(
                d for d, v in docs.items()
                if not (lo is not None and (v is None or v < lo)) and
                not (hi is not None and v is not None and v > hi))

        def sort(ids, rev, limit):
            got = [d for d in ids if d in docs]
            keys = sorted((skey(docs[d]) for d in got), reverse=rev)
            return [keys[:limit], frozenset(got) if limit is None else None]
        return self._obs(rng, sort, len(docs), len(set(docs.values())))


def wide(start, n):
    """Contents with many parts."""
    return st.tuples(st.integers(0, start), st.integers(5, n)).map(
        lambda t: tuple(range(t[0], t[0] + t[1])))


# -- keyword -----------------------------------------------------------------

WORDS = ['a', 'b', 'c', 'B', 'dd', 'Ee', '', '\xe9', 'x y', 'zz']


class Keyword(Kind):
    """extra: ('str' | 'int' | 'tuple', tree threshold or None)."""
    ci = False

    @staticmethod
    def extras():
        return st.tuples(st.sampled_from(['str', 'int', 'tuple']),
                         st.sampled_from([None, None, 1, 2, 3, 5, 30]))

    @staticmethod
    def contents():
        return weighted(
            (25, st.lists(weighted((6, st.integers(0, 5)),
                                   (1, st.integers(0, 40))),
                          max_size=5).map(tuple)),
            (1, wide(30, 180)))

    @classmethod
    def ops(cls, tune=True, **kw):
        more = []
        if tune:
            more = [(1, st.just(('opt',)))]
        return weighted(*(common_ops(cls.contents(), **kw) + more))

    def make(self):
        from zope.index.keyword import (
            CaseInsensitiveKeywordIndex,
            KeywordIndex,
        )
        ix = (CaseInsensitiveKeywordIndex if self.ci else KeywordIndex)(
            *fams(self.f))
        if self.extra[1] is not None:
            ix.tree_threshold = self.extra[1]
        return ix

    def kw(self, j):
        kind = self.extra[0]
        if kind == 'int':
            return j - 3
        if kind == 'tuple':
            return (j % 3, 'w%d' % j)
        return WORDS[j] if j < len(WORDS) else 'w%03d' % j

    def content(self, ref, k):
        kws = [self.kw(j) for j in ref]
        if k:
            kws.append(self.kw(10 + k))
        return tuple(kws)

    def step(self, ix, step):
        if step[0] == 'opt':
            ix.optimize()
        elif step[0] == 'thr':
            ix.tree_threshold = step[1]
        else:
            Kind.step(self, ix, step)

    def norm(self, w):
        return w.lower() if self.ci else w

    def mstep(self, step):
        if step[0] == 'i':
            kws = frozenset(map(self.norm, step[2]))
            self.ever.update(dict.fromkeys(sorted(kws)))
            if kws:
                self.docs[step[1]] = kws
            else:
                self.docs.pop(step[1], None)
        else:
            Kind.mstep(self, step)

    def value(self, content):
        # the container type varies with the content
        n = len(content)
        return [list, tuple, list, set][n % 4](content)

    def probes(self):
        kws = [self.kw(j) for j in range(8)]
        seen = set(kws)
        for d in list(self.docs)[-25:]:
            for w in sorted(self.docs[d]):
                if w not in seen and len(kws) < 20:
                    seen.add(w)
                    kws.append(w)
        return kws

    def _obs(self, search, has, ndocs, nwords):
        kws = self.probes()
        o = {'docs': ndocs, 'words': nwords}
        for i, w in enumerate(kws):
            o['one', i] = search([w], 'or')
        o['all'] = search(kws, 'or')
        ever = list(self.ever)[:300]
        for w in ever:
            o['each', w] = search([w], 'or')
        o['ever'] = search(ever, 'or')
        for i in range(4):
            for j in range(i + 1, 5):
                o['and', i, j] = search([kws[i], kws[j]], 'and')
        o['and3'] = search(kws[:3], 'and')
        for r in range(5):
            o['has', r] = has(self.did(r))
        return o

    def observe(self, ix):
        return self._obs(
            lambda q, op: frozenset(idlist(ix.search(q, op))),
            ix.has_doc, ix.documentCount(), ix.wordCount())

    def expected(self):
        post = {}
        for d, kws in self.docs.items():
            for w in kws:
                post.setdefault(w, set()).add(d)

        def search(q, op):
            sets = [post.get(self.norm(w), set()) for w in q]
            if op == 'or':
                return frozenset(set().union(*sets))
            return frozenset(set.intersection(*sets))
        return self._obs(search, lambda d: d in self.docs, len(self.docs),
                         len(post))


class CIKeyword(Keyword):
    ci = True

    @staticmethod
    def extras():
        return st.tuples(st.just('str'),
                         st.sampled_from([None, None, 1, 2, 3, 5, 30]))


# -- topic -------------------------------------------------------------------

# (expression, the same as a function of the context)
EXPRS = [
    ("context['a'] > 2", lambda c, d: c['a'] > 2),
    ("context['b']", lambda c, d: bool(c['b'])),
    ("context['a'] % 2 == 0 and context['b'] != 1",
     lambda c, d: c['a'] % 2 == 0 and c['b'] != 1),
    ("10 // context['a'] >= 3", lambda c, d: 10 // c['a'] >= 3),
    ("context['s'].startswith('x')", lambda c, d: c['s'].startswith('x')),
    ("docid % 2", lambda c, d: bool(d % 2)),
    ("True", lambda c, d: True),
    ("context[", lambda c, d: 1 // 0),
    ("nosuchname", lambda c, d: 1 // 0),
    ("[]", lambda c, d: False),
    ("context.a", lambda c, d: 1 // 0),
    ("not context['a']", lambda c, d: not c['a']),
]


def holds(expr, context, d):
    try:
        return bool(EXPRS[expr][1](context, d))
    except Exception:
        return False


class Topic(Kind):
    """extra: initial expressions (numbers) of the filters f0, f1, ..."""

    @staticmethod
    def extras():
        return st.lists(st.integers(0, len(EXPRS) - 1), min_size=1,
                        max_size=4).map(tuple)

    @staticmethod
    def contents():
        return st.tuples(st.integers(0, 5), st.integers(0, 2),
                         st.sampled_from(['x', 'y', 'xy', None]))

    @classmethod
    def ops(cls, filters=True, **kw):
        kw.setdefault('clear', False)
        out = common_ops(cls.contents(), **kw)
        if filters:
            e = st.integers(0, len(EXPRS) - 1)
            fid = st.integers(0, 4)
            out += [(2, st.tuples(st.just('addf'), fid, e)),
                    (1, st.tuples(st.just('delf'), fid)),
                    (1, st.just(('clf',)))]
        return weighted(*out)

    def __init__(self, cfg):
        Kind.__init__(self, cfg)
        self.filters = {}              # fid -> [expr number, set of ids]
        for i, e in enumerate(self.extra):
            self.filters['f%d' % i] = [e, set()]

    def make(self):
        from zope.index.topic import TopicIndex
        ix = TopicIndex(*fams(self.f))
        for fid, (e, ids) in self.filters.items():
            ix.addFilter(self.filter(fid, e))
        return ix

    def filter(self, fid, e):
        from zope.index.topic.filter import PythonFilteredSet
        return PythonFilteredSet(fid, EXPRS[e][0], *fams(self.f))

    def content(self, ref, k):
        a, b, s = ref
        c = {'a': (a + k) % 7, 'b': b}
        if s is not None:
            c['s'] = s
        return c

    def expand(self, op):
        # only filters that exist are deleted
        if op[0] == 'delf' and 'f%d' % op[1] not in self.filters:
            return []
        return Kind.expand(self, op)

    def step(self, ix, step):
        if step[0] == 'addf':
            fid = 'f%d' % step[1]
            ix.addFilter(self.filter(fid, step[2]))
        elif step[0] == 'delf':
            ix.delFilter('f%d' % step[1])
        elif step[0] == 'clf':
            ix.clearFilters()
        else:
            Kind.step(self, ix, step)

    def mstep(self, step):
        if step[0] == 'i':
            for e, ids in self.filters.values():
                if holds(e, step[2], step[1]):
                    ids.add(step[1])
                else:
                    ids.discard(step[1])
        elif step[0] == 'u':
            for e, ids in self.filters.values():
                ids.discard(step[1])
        elif step[0] == 'c':
            self.filters.clear()
        elif step[0] == 'addf':
            self.filters['f%d' % step[1]] = [step[2], set()]
        elif step[0] == 'delf':
            del self.filters['f%d' % step[1]]
        elif step[0] == 'clf':
            for v in self.filters.values():
                v[1].clear()
        if step[0] == 'i':
            self.docs[step[1]] = step[2]
        elif step[0] == 'u':
            self.docs.pop(step[1], None)

    def save(self):
        return dict(self.docs), {f: [e, set(i)] for f, (e, i)
                                 in self.filters.items()}

    def restore(self, state):
        self.docs = dict(state[0])
        self.filters = {f: [e, set(i)] for f, (e, i) in state[1].items()}

    def _obs(self, search):
        o = {}
        fids = sorted(self.filters)
        for x in fids:
            o['one', x] = search([x], 'or')
            o['one and', x] = search([x], 'and')
        o['or'] = search(fids, 'or')
        for i, x in enumerate(fids):
            for y in fids[i + 1:]:
                o['and', x, y] = search([x, y], 'and')
        if len(fids) > 2:
            o['and all'] = search(fids, 'and')
        return o

    def observe(self, ix):
        return self._obs(
            lambda q, op: frozenset(idlist(ix.search(q, op))))

    def expected(self):
        def search(q, op):
            sets = [self.filters[x][1] for x in q]
            if op == 'or':
                return frozenset(set().union(*sets))
            return frozenset(set.intersection(*sets)) if sets else frozenset()
        return self._obs(search)


# -- text --------------------------------------------------------------------

TEXTWORDS = ['apple', 'pear', 'fig', 'app', 'apples', 'plum', 'p\xe9che',
             'x1', 'foo_bar', '\u65e5\u672c', 'zebra', 'q']


def textword(j):
    return TEXTWORDS[j] if j < len(TEXTWORDS) else 'w%04d' % j


class Text(Kind):
    """extra: True if the TextIndex is used, else the ranking index."""
    rank = None

    @staticmethod
    def extras():
        return st.booleans()

    @staticmethod
    def contents():
        return weighted(
            (25, st.lists(weighted((6, st.integers(0, 5)),
                                   (2, st.integers(0, 20))),
                          max_size=8).map(tuple)),
            (1, wide(30, 180)),
            (1, st.tuples(st.integers(0, 5), st.integers(6, 300),
                          st.integers(0, 5)).map(
                lambda t: (t[0],) * t[1] + (t[2],))))

    @classmethod
    def ops(cls, **kw):
        return weighted(*common_ops(cls.contents(), **kw))

    def index_class(self):
        if self.rank == 'okapi':
            from zope.index.text.okapiindex import OkapiIndex
            return OkapiIndex
        from zope.index.text.cosineindex import CosineIndex
        return CosineIndex

    def make(self, lexicon=None):
        from zope.index.text.lexicon import Lexicon
        from zope.index.text.textindex import TextIndex
        if lexicon is None:
            lexicon = Lexicon(*make_pipeline('default'))
        ix = self.index_class()(lexicon, *fams(self.f))
        if self.extra:
            return TextIndex(lexicon, ix)
        return ix

    def content(self, ref, k):
        words = [textword(j) for j in ref]
        if k:
            words.append(textword(30 + k))
        return tuple(words)

    def mstep(self, step):
        if step[0] == 'i':
            self.ever.update(dict.fromkeys(step[2]))
        Kind.mstep(self, step)

    def value(self, content):
        return ' '.join(content)

    def base(self, ix):
        return ix.index if self.extra else ix

    def model(self):
        return TextModel(self.rank, {d: list(w)
                                     for d, w in self.docs.items()})

    def probes(self):
        words = [textword(j) for j in range(9)] + ['w0032', 'nosuch']
        for d in list(self.docs)[-12:]:
            for w in self.docs[d]:
                if w not in words and len(words) < 18:
                    words.append(w)
        return words

    def _obs(self, word, phrase, glob, apply, has, docwords, nd, nw):
        o = {'docs': nd, 'words': nw}
        ws = self.probes()
        for w in ws:
            o['word', w] = word(w)
        for w in list(self.ever)[:300]:
            o['each', w] = frozenset(word(w))
        pairs = [(ws[i], ws[j]) for i in range(4) for j in range(4)]
        for d in list(self.docs)[:6]:
            pairs.append(self.docs[d][1:4])
        for d in list(self.docs)[-3:]:
            pairs.append(self.docs[d][-30:])
        for p in pairs:
            if p:
                o['phrase', p] = phrase(list(p))
        for g in ('app*', 'p*', 'w00?1', 'fi?', 'x?', 'apple', 'w*', 'w01*'):
            o['glob', g] = glob(g)
        ids = list(self.docs)[:5] + [self.did(r) for r in range(4)]
        for d in ids:
            o['has', d] = has(d)
            if d in self.docs:
                o['docwords', d] = docwords(d)
        for q in QUERIES:
            o['query', q] = apply(q)
        return o

    def observe(self, ix):
        b = self.base(ix)
        lex = b.lexicon

        def apply(q):
            if self.extra:
                return frozenset(idlist(ix.apply(q)))
            from zope.index.text.queryparser import QueryParser
            tree = QueryParser(lex).parseQuery(q)
            return frozenset(idlist(tree.executeQuery(b)))
        return self._obs(
            lambda w: scores(b.search(w)),
            lambda p: scores(b.search_phrase(' '.join(p))),
            lambda g: scores(b.search_glob(g)),
            apply, b.has_doc,
            lambda d: ([lex.get_word(w) for w in b.get_words(d)]
                       if b.has_doc(d) else None),
            ix.documentCount(), ix.wordCount())

    def expected(self):
        m = self.model()

        def apply(q):
            return frozenset(d for d in m.docs if QUERIES[q](set(m.docs[d])))
        return self._obs(m.word, m.phrase, m.glob, apply,
                         lambda d: d in m.docs, lambda d: m.docs[d],
                         len(m.docs), len(m.vocabulary()))


QUERIES = {
    'apple AND pear': lambda s: 'apple' in s and 'pear' in s,
    'apple NOT pear': lambda s: 'apple' in s and 'pear' not in s,
    'fig OR plum': lambda s: 'fig' in s or 'plum' in s,
    '(fig OR app*) -apples': None,
    'fig -the': lambda s: 'fig' in s,
}
del QUERIES['(fig OR app*) -apples']
QUERIES['(fig OR app*) NOT apples'] = (
    lambda s: 'apples' not in s and (
        'fig' in s or any(w.startswith('app') for w in s)))


class Okapi(Text):
    rank = 'okapi'


class Cosine(Text):
    rank = 'cosine'


KINDS = {'field': Field, 'keyword': Keyword, 'cikeyword': CIKeyword,
         'topic': Topic, 'okapi': Okapi, 'cosine': Cosine}


def kind(cfg):
    return KINDS[cfg[0]](cfg)


def configs(names=None, which=(32, 64, 33, 64)):
    """Strategy of configs."""
    names = sorted(KINDS) if names is None else names

    def one(nf):
        name, f = nf
        return st.tuples(st.just(name), st.just(f), gen.idmaps(f),
                         KINDS[name].extras())
    return st.tuples(st.sampled_from(names),
                     st.sampled_from(which)).flatmap(one)


def histories(names=None, avg=14, hi=50, which=(32, 64, 33, 64), lo=1, **kw):
    """Strategy of (config, [op])."""
    def one(cfg):
        return st.tuples(st.just(cfg), gen.seqs(KINDS[cfg[0]].ops(**kw),
                                                lo, hi, avg))
    return configs(names, which).flatmap(one)
