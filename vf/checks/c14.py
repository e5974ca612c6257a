"""C14 The C scoring extension equals the Python scorer and is memory safe."""
import gc
import math
import sys

from hypothesis import strategies as st

from vf import boot, gen, query
from vf.core import Prop, Sub, expect
from vf.gen import weighted
from vf.obs import close, diff, scores
from vf.textmodel import make_pipeline

RULE = (
    '(direct) the compiled score() on generated lists of (docid, frequency) '
    'pairs, length mappings, idf and mean length: dicts, buckets, trees and '
    'user classes, some malformed (wrong pairs, values that are not numbers '
    'or whose conversion raises, missing documents, containers that raise, '
    'lie about their length or empty the list while it is read). Oracle: the '
    'formula in Python gives the same stored scores up to the same point and '
    'the same kind of exception; the reference counts of every argument, '
    'pair, id, frequency, length and score are as before. A crash is a '
    'violation, and one more worker runs the same cases with an '
    'address-sanitized build. Non-trivial: at least two scores are stored or '
    'an exception comes after a score was stored. (index) the same history '
    'on an index with the extension and on one in the pure-Python '
    'configuration: equal scores for all words and queries.')

K1, B = 1.2, 0.75


class Boom(Exception):
    pass


class RaisingFloat:
    def __float__(self):
        raise Boom('float')


class Floatable:
    def __init__(self, x):
        self.x = x

    def __float__(self):
        return self.x


class Indexable:
    def __init__(self, x):
        self.x = x

    def __index__(self):
        return self.x


class Float(float):
    pass


def number(spec):
    kind, x = spec
    # new objects, so that reference counts tell
    if kind == 'int':
        return int(str(int(x)))
    if kind == 'float':
        return float(repr(x))
    if kind == 'sub':
        return Float(x)
    if kind == 'index':
        return Indexable(int(str(int(x))))
    if kind == 'obj':
        return Floatable(float(repr(x)))
    if kind == 'boom':
        return RaisingFloat()
    if kind == 'huge':
        return 10**400
    if kind == 'none':
        return None
    if kind == 'str':
        return 'str%s' % x
    if kind == 'badfloat':
        return Floatable('no')
    raise ValueError(kind)


BADNUMBERS = ['boom', 'huge', 'none', 'str', 'badfloat']


def asdouble(x):
    return math.ldexp(x, 0)


def div(a, b):
    if b:
        return a / b
    if a == 0 or a != a:
        return math.nan
    return math.copysign(math.inf, a) * math.copysign(1.0, b)


class Recorder:
    """A result that raises at the k-th store."""

    def __init__(self, k=None):
        self.k, self.stored, self.kept = k, [], []

    def __setitem__(self, d, x):
        if self.k is not None and len(self.stored) == self.k:
            self.kept.append(x)
            raise Boom('store')
        self.stored.append((d, x))


class Lengths:
    """A length mapping that raises, or empties the list, at the k-th
    lookup."""

    def __init__(self, data, k, what, victim):
        self.data, self.k, self.what, self.n = data, k, what, 0
        self.victim = victim

    def __getitem__(self, d):
        self.n += 1
        if self.n == self.k + 1:
            if self.what == 'boom':
                raise Boom('length')
            if isinstance(self.victim, list):
                del self.victim[:]
        return self.data[d]


class Id:
    """A docid made on demand; counts the living ones."""
    alive = base = 0
    early = False

    def __init__(self, d):
        self.d = d
        Id.alive += 1

    def __del__(self):
        Id.alive -= 1

    def __hash__(self):
        return hash(self.d)

    def __eq__(self, other):
        return self.d == (other.d if type(other) is Id else other)

    def __repr__(self):
        return 'Id(%r)' % self.d


class Fresh:
    """A sequence that makes its pairs on demand: only the reader has
    references to them."""

    def __init__(self, specs, user):
        self.specs, self.user = specs, user

    def __len__(self):
        return len(self.specs)

    def __getitem__(self, i):
        d, spec = self.specs[i]
        return (Id(d) if self.user else int(str(d)), number(spec))


class FreshLengths:
    """Lengths made on demand; notes when the id looked up is dead."""

    def __init__(self, specs, result):
        self.specs, self.result = specs, result

    def __getitem__(self, d):
        n = Id.alive - Id.base
        if isinstance(self.result, Recorder):
            n -= len(self.result.stored)
            if type(d) is Id and n < 1:
                Id.early = True
        return number(self.specs[d])


class Items:
    """A sequence that raises at an index or lies about its length."""

    def __init__(self, data, k, what):
        self.data, self.k, self.what = data, k, what

    def __len__(self):
        if self.what == 'len':
            raise Boom('len')
        if self.what == 'longer':
            return len(self.data) + 1 + self.k
        if self.what == 'shorter':
            return max(0, len(self.data) - 1 - self.k)
        return len(self.data)

    def __getitem__(self, i):
        if self.what == 'boom' and i == self.k:
            raise Boom('item')
        return self.data[i]


def cases():
    good = st.tuples(
        st.sampled_from(['int', 'int', 'int', 'float', 'float', 'sub',
                         'obj', 'index']),
        st.one_of(st.integers(0, 40), st.integers(1, 10**6),
                  st.sampled_from([-1, 1, 0.5, 255, 256])))
    bad = st.tuples(st.sampled_from(BADNUMBERS), st.just(1))
    num = weighted((80, good), (1, bad))
    docid = st.one_of(st.integers(0, 30), st.integers(-10**6, 2**31 - 1))
    pair = weighted(
        (60, st.tuples(st.just('pair'), st.integers(0, 9), num)),
        (1, st.tuples(st.sampled_from(['list', 'one', 'three', 'none',
                                       'subclass', 'empty']),
                      st.integers(0, 9), num)))
    k = st.integers(0, 5)
    return st.tuples(
        gen.seqs(docid, 1, 10, 6),                 # ids
        weighted((4, gen.seqs(num, 10, 10)),       # their lengths
                 (1, gen.seqs(num, 0, 10, 7))),
        gen.seqs(pair, 0, 12, 5),
        st.one_of(st.floats(0.001, 20), st.floats(allow_nan=False,
                                                  allow_infinity=False),
                  st.integers(1, 5)),
        st.one_of(st.floats(0.5, 1000), st.integers(1, 50),
                  st.sampled_from([-3.0, 1e-300, 0.0])),
        weighted((4, st.just(('list',))), (1, st.just(('tuple',))),
                 (2, st.tuples(st.sampled_from(
                     ['boom', 'len', 'longer', 'shorter', 'plain']), k)),
                 (2, st.tuples(st.just('fresh'), st.integers(0, 1))),
                 (1, st.tuples(st.just('junk'), k))),
        weighted((4, st.just(('dict',))), (2, st.just(('tree',))),
                 (2, st.tuples(st.sampled_from(['boom', 'empties']), k)),
                 (2, st.just(('fresh',))),
                 (1, st.tuples(st.just('junk'), k))),
        weighted((3, st.just(('rec', None))), (1, st.just(('dict',))),
                 (1, st.just(('bucket',))),
                 (2, st.tuples(st.just('rec'), k)),
                 (1, st.tuples(st.just('junk'), k))))


JUNK = [None, 5, (), 'abc', object(), {1, 2}]


class Tup(tuple):
    pass


def build(case):
    """Objects for a case: (result, items, lengths, idf, mean, watched)."""
    from BTrees.IFBTree import IFBTree, IFBucket
    ids, lens, pairs, idf, mean, how_items, how_lens, how_res = case
    # new objects, so that reference counts tell
    ids = [int(str(d)) for d in ids]
    lengths = {}
    for d, spec in zip(ids, lens):
        lengths[d] = number(spec)
    watched = list(ids) + list(lengths.values())
    if how_lens[0] == 'tree':
        tree = IFBTree()
        for d, x in lengths.items():
            # (BTrees itself mishandles huge integers)
            ok = isinstance(x, float) or (type(x) is int and x < 10**9)
            tree[d] = x if ok else 7
        lengths = tree
    items = []
    for kind, ref, spec in pairs:
        d, f = ids[ref % len(ids)], number(spec)
        watched.append(f)
        p = {'pair': lambda: (d, f), 'list': lambda: [d, f],
             'one': lambda: (d,), 'three': lambda: (d, f, f),
             'none': lambda: None, 'subclass': lambda: Tup((d, f)),
             'empty': lambda: ()}[kind]()
        watched.append(p)
        items.append(p)
        del p, d, f
    if how_items[0] == 'fresh':
        items = Fresh([(ids[ref % len(ids)], spec)
                       for _, ref, spec in pairs], how_items[1])
    elif how_items[0] == 'tuple':
        items = tuple(items)
    elif how_items[0] == 'junk':
        items = JUNK[how_items[1]]
    elif how_items[0] != 'list':
        items = Items(items, how_items[1], how_items[0])
    if how_lens[0] == 'junk':
        lengths = JUNK[how_lens[1]]
    elif how_lens[0] in ('boom', 'empties'):
        lengths = Lengths(lengths, how_lens[1], how_lens[0], items)
    result = {'rec': lambda: Recorder(how_res[1]), 'dict': dict,
              'bucket': IFBucket,
              'junk': lambda: JUNK[how_res[1]]}[how_res[0]]()
    if how_lens[0] == 'fresh':
        lengths = FreshLengths(dict(zip(ids, lens)), result)
    watched += [result, items, lengths]
    return result, items, lengths, idf, mean, watched


def reference(result, items, lengths, idf, mean):
    idf, mean = asdouble(idf), asdouble(mean)
    for i in range(len(items)):
        p = items[i]
        if type(p) is not tuple or len(p) != 2:
            raise TypeError(p)
        f = asdouble(p[1])
        lenweight = asdouble(lengths[p[0]])
        lenweight = 1.0 - B + div(B * lenweight, mean)
        tf = div(f * (K1 + 1.0), f + K1 * lenweight)
        result[p[0]] = tf * idf


def outcome(fn, result, items, lengths, idf, mean):
    try:
        r = fn(result, items, lengths, idf, mean)
    except Exception as e:
        return type(e)
    return 'returned %r' % (r,)


def stored(result):
    if isinstance(result, Recorder):
        return list(result.stored)
    if hasattr(result, 'items'):
        return list(result.items())
    return []


def equal(x, y):
    return x == y or (x != x and y != y) or close(x, y, 1e-6) or (
        abs(x - y) == math.inf)


def mortal(objs):
    """The objects that have a reference count (3.12: some are immortal)."""
    return [o for o in objs if sys.getrefcount(o) < 2**30]


def check(case, ctx):
    # no local name here may refer to an id, a pair or a score
    res1, items1, lens1, idf, mean, watched = build(case)
    watched = mortal(watched)
    gc.disable()
    try:
        counted(case, ctx, res1, items1, lens1, idf, mean, watched)
    finally:
        gc.enable()


def counted(case, ctx, res1, items1, lens1, idf, mean, watched):
    before = [sys.getrefcount(o) for o in watched]
    ids = Id.alive
    run(case, ctx, res1, items1, lens1, idf, mean)
    check_scores(res1)
    if isinstance(res1, Recorder):
        del res1.stored[:], res1.kept[:]
    elif hasattr(res1, 'clear') and res1 not in JUNK:
        res1.clear()
    compare_counts(watched, before, case)
    expect(Id.alive == ids, '%d ids made on demand were not released',
           Id.alive - ids)
    ctx.label('pairs on demand', case[5] == ('fresh', 1))


def run(case, ctx, res1, items1, lens1, idf, mean):
    from zope.index.text.okascore import score
    res2, items2, lens2, _, _, _ = build(case)
    want = outcome(reference, res2, items2, lens2, idf, mean)
    Id.base, Id.early = Id.alive, False
    got = outcome(score, res1, items1, lens1, idf, mean)
    expect(not Id.early, 'an id was released before it was used')
    a, b = stored(res1), stored(res2)
    if isinstance(got, type) and isinstance(want, type):
        expect(got is not SystemError, 'score() raises SystemError')
        expect(got is want, 'score() raises %s instead of %s', got, want)
    else:
        expect(got == want, 'score() %s, the formula %s', got, want)
    expect(len(a) == len(b), 'stored %r instead of %r', a, b)
    for (d, x), (e, y) in zip(a, b):
        # with mean lengths near 0 there are infinities: no exact comparison
        wild = not (abs(x) < 3e38 and abs(y) < 3e38)
        expect(d == e and (wild or equal(x, y)), 'stored %r instead of %r',
               (d, x), (e, y))
    ctx.nontrivial(len(a) > 1 or (bool(a) and isinstance(got, type)))
    ctx.label('raises', isinstance(got, type))
    ctx.label('raises after a store', bool(a) and isinstance(got, type))


def check_scores(result):
    """Score objects are owned by the result only."""
    if isinstance(result, Recorder):
        for i in range(len(result.stored)):
            n = sys.getrefcount(result.stored[i][1])
            expect(n <= 2, 'a stored score has %d references', n)
        for i in range(len(result.kept)):
            n = sys.getrefcount(result.kept[i])
            expect(n <= 2, 'a refused score has %d references', n)
    elif isinstance(result, dict):
        for d in list(result):
            n = sys.getrefcount(result[d])
            expect(n <= 2, 'a stored score has %d references', n)


def compare_counts(watched, before, case):
    after = [sys.getrefcount(o) for o in watched]
    # one that emptied the list of pairs gave up its references to them
    empties = case[6][0] == 'empties'
    for i, (m, n) in enumerate(zip(before, after)):
        o = watched[i]
        gone = empties and isinstance(o, (tuple, list))
        expect(n == m or (gone and n == m - 1),
               'reference count of %r went from %d to %d', o, m, n)


# -- whole indexes -----------------------------------------------------------

def index_cases():
    return gen.families.flatmap(lambda f: st.tuples(
        st.just(f), gen.idmaps(f), gen.seqs(query.ops(), 1, 40, 12),
        st.lists(query.queries(), max_size=4)))


def index_check(case, ctx):
    from zope.index.text.lexicon import Lexicon
    from zope.index.text.okapiindex import OkapiIndex
    from zope.index.text.parsetree import ParseError
    from zope.index.text.textindex import TextIndex
    f, idmap, ops, queries = case
    lex = Lexicon(*make_pipeline('default'))
    ixs = [TextIndex(lex, cls(lex, *gen.fams(f)))
           for cls in (OkapiIndex, boot.pure_okapi().OkapiIndex)]
    again, docs = False, set()
    for op in ops:
        for step in query.expand(idmap, op):
            again = again or step[0] != 'i' or step[1] in docs
            for ix in ixs:
                if step[0] == 'i':
                    ix.index_doc(step[1], query.render(step[2]))
                    docs.add(step[1])
                elif step[0] == 'u':
                    ix.unindex_doc(step[1])
                else:
                    ix.clear()

    def compare(what, fn):
        a, b = map(fn, ixs)
        expect(set(a) == set(b), '%s, C against Python: %s', what, diff(a, b))
        for d in a:
            expect(close(a[d], b[d], 1e-6), '%s: document %r scores %r with '
                   'the extension, %r without', what, d, a[d], b[d])
        return len(a)
    for w in lex.words():
        n = compare('word %r' % w, lambda x: scores(x.index.search([w])))
        ctx.nontrivial(n > 1 and again)
    for q in queries:
        s = query.text(q)

        def run(x):
            try:
                return scores(x.apply(s))
            except ParseError:
                return {}
        compare('query %r' % s, run)


PROP = Prop('C14', RULE, [
    Sub('direct', cases, check, 24000, rule=RULE, crashy=True),
    Sub('index', index_cases, index_check, 2500, rule=RULE, crashy=True)],
    asan=True,
    assumptions=['lists of fewer than 2**31 pairs',
                 'a mean length of 0 must not crash, but any score is '
                 'accepted (it cannot occur)'])
