"""C02 Field sort returns the right documents in value order."""
from hypothesis import strategies as st

from vf import gen
from vf.core import Prop, Sub, expect
from vf.gen import skey, weighted
from vf.obs import diff, raises

RULE = (
    'A FieldIndex (or another index using the sorting mixin) with a generated '
    'population (some documents reindexed or unindexed), then several sorts '
    'of generated id collections (all container types, duplicates, unindexed '
    'ids, sizes up to about 700, all limits and both directions). Oracle: '
    'the result must list distinct indexed ids of the collection, their '
    'values in order, as many as there are or the limit allows, and the '
    'values must be the first of the sorted values of all candidates. '
    'Non-trivial: a sort of at least 3 candidates with at least two distinct '
    'values and either a limit or an unindexed id.')

containers = st.sampled_from(['Set', 'TreeSet', 'list', 'tuple', 'BTree',
                              'Bucket', 'frozenset', 'dict', 'iter', 'IOSet'])

# how the ids to sort are chosen: (which, extra ids, step)
sizes = weighted((3, st.integers(0, 12)), (2, st.integers(0, 80)),
                 (1, st.integers(80, 500)))
limits = weighted((2, st.none()), (3, st.integers(1, 8)),
                  (1, st.integers(1, 60)), (1, st.integers(60, 800)))


def strategy():
    sort = st.tuples(
        containers, st.integers(0, 600),     # start among the documents
        sizes,                               # how many indexed ones
        sizes,                               # how many unindexed ones
        limits, st.booleans(), st.booleans())
    return gen.families.flatmap(lambda f: st.tuples(
        st.just(f), gen.idmaps(f), gen.valuespaces(),
        st.sampled_from(['field', 'field', 'mixin']),
        # population: bulk of n documents, with value pattern
        sizes, st.integers(0, 40), st.integers(0, 3), st.integers(1, 60),
        # changes: (ref, value or None to unindex)
        st.lists(st.tuples(gen.refs, weighted((3, gen.valrefs),
                                              (1, st.none()))), max_size=12),
        st.lists(sort, min_size=1, max_size=6)))


def make_mixin(f):
    """Another index using the mixin, with its own attribute names."""
    from BTrees.Length import Length

    from zope.index.field.sorting import SortingIndexMixin

    class Other(SortingIndexMixin):
        family = gen.fam(f)
        _sorting_num_docs_attr = 'total'
        _sorting_fwd_index_attr = 'forward'
        _sorting_rev_index_attr = 'values'

        def __init__(self):
            self.total = Length(0)
            self.forward = self.family.OO.BTree()
            self.values = self.family.IO.BTree()

        def index_doc(self, d, v):
            self.unindex_doc(d)
            self.total.change(1)
            if v not in self.forward:
                self.forward[v] = self.family.IF.TreeSet()
            self.forward[v].insert(d)
            self.values[d] = v

        def unindex_doc(self, d):
            if d in self.values:
                v = self.values.pop(d)
                self.forward[v].remove(d)
                if not self.forward[v]:
                    del self.forward[v]
                self.total.change(-1)
    return Other()


def container(f, name, ids):
    fam = gen.fam(f)
    if name == 'Set':
        return fam.IF.Set(ids)
    if name == 'TreeSet':
        return fam.IF.TreeSet(ids)
    if name == 'IOSet':
        return fam.IO.Set(ids)
    if name == 'tuple':
        return tuple(ids)
    if name == 'BTree':
        return fam.IF.BTree({d: 1.0 for d in ids})
    if name == 'Bucket':
        return fam.IF.Bucket({d: 1.0 for d in ids})
    if name == 'frozenset':
        return frozenset(ids)
    if name == 'dict':
        return {d: 1 for d in ids}
    if name == 'iter':
        return iter(ids)
    return list(ids)


def check(case, ctx):
    from zope.index.field import FieldIndex
    f, idmap, space, cls, n, v0, step, modulo, changes, sorts = case
    ix = FieldIndex(*gen.fams(f)) if cls == 'field' else make_mixin(f)
    model = {}
    for k in range(n):
        d = gen.did(idmap, gen.BULK + k)
        v = gen.val(space, v0 + (k * step) % modulo)
        ix.index_doc(d, v)
        model[d] = v
    for ref, v in changes:
        d = gen.did(idmap, ref)
        if v is None:
            ix.unindex_doc(d)
            model.pop(d, None)
        else:
            v = gen.val(space, v)
            ix.index_doc(d, v)
            model[d] = v
    docs = list(model)
    lo = gen.MIN32 if f != 64 else gen.MIN64
    for name, start, nin, nout, limit, reverse, twice in sorts:
        ids = [docs[(start + k) % len(docs)]
               for k in range(min(nin, len(docs)))]
        unknown = [gen.did(idmap, gen.BULK + 2 * k) for k in range(nout)]
        ids += unknown
        if twice:
            ids += ids[:5]
        if start % 3 == 0:
            ids.reverse()
        want = {d for d in ids if d in model}
        got = list(ix.sort(container(f, name, ids), reverse=reverse,
                           limit=limit))
        what = 'sort of %d ids (%s, reverse=%r, limit=%r)' % (
            len(set(ids)), name, reverse, limit)
        expect(len(set(got)) == len(got), '%s repeats ids: %r', what, got)
        expect(set(got) <= want, '%s yields ids not asked for or not '
               'indexed: %r', what, sorted(set(got) - want))
        size = len(want) if limit is None else min(limit, len(want))
        expect(len(got) == size, '%s yields %d ids, not %d', what, len(got),
               size)
        keys = [skey(model[d]) for d in got]
        best = sorted((skey(model[d]) for d in want), reverse=reverse)[:size]
        expect(keys == best, '%s: values %r, expected %r', what,
               [k[1] for k in keys][:30], [k[1] for k in best][:30])
        distinct = len({model[d] for d in want})
        ctx.nontrivial(len(want) >= 3 and distinct > 1 and
                       (limit is not None or len(want) < len(set(ids))))
        ctx.label('limit cuts', len(got) < len(want))
        ctx.label('n-best sizes', limit is not None and
                  limit * 4 < len(set(ids)) and len(want) > limit)
        ctx.label('many more ids than docs', len(set(ids)) > len(model) > 0
                  and len(set(ids)) > len(model) * (len(set(ids)) // 100 + 1))
        ctx.label('None among values', None in model.values())
        ctx.label('unindexed ids', len(want) < len(set(ids)))


LARGE = (
    'Up to 5000 documents, of which any number are sorted together with any '
    'number of unknown ids (magnitudes equally likely), with and without '
    'limits, also by either internal strategy the tests select. Same oracle. '
    'Non-trivial: more than 200 ids of several values are sorted.')


def large_cases():
    number = gen.logint(0, 5000)
    sort = st.tuples(containers, number, number, number,
                     weighted((1, st.none()), (2, gen.logint(1, 6000))),
                     st.booleans(), st.sampled_from([0, 0, 0, 0, 0, 1, 2]))
    return gen.families.flatmap(lambda f: st.tuples(
        st.just(f), gen.largeids(f), st.booleans(),
        st.sampled_from(['int', 'str', 'float', 'tuple', 'bytes']),
        gen.logint(1, 5000), gen.logint(1, 5000), gen.seeds,
        st.lists(sort, min_size=1, max_size=5)))


def large_check(case, ctx):
    from zope.index.field import FieldIndex
    f, (base, stride), mixin, kind, n, m, seed, sorts = case
    ix = make_mixin(f) if mixin else FieldIndex(*gen.fams(f))
    model = {}
    for k in range(n):
        v = gen.noise(seed, k) % m
        ix.index_doc(base + k * stride, gen._formula(kind, v))
        model[base + k * stride] = v
    docs = list(model)
    for name, start, nin, nout, limit, reverse, how in sorts:
        ids = [docs[(start + k) % n] for k in range(min(nin, n))]
        ids += [base + (n + k) * stride for k in range(nout)]
        want = [d for d in ids if d in model]
        # the private switches of the tests
        ix._use_lazy = how == 1
        ix._use_nbest = how == 2 and limit is not None
        got = list(ix.sort(container(f, name, ids), reverse=reverse,
                           limit=limit))
        what = 'sort of %d ids, %d of them of %d indexed (%s, reverse=%r, ' \
            'limit=%r)' % (len(ids), len(want), n, name, reverse, limit)
        expect(len(set(got)) == len(got), '%s repeats ids', what)
        expect(set(got) <= set(want), '%s yields other ids: %s', what,
               diff(got, want))
        size = len(want) if limit is None else min(limit, len(want))
        expect(len(got) == size, '%s yields %d ids, not %d', what, len(got),
               size)
        keys = [model[d] for d in got]
        best = sorted((model[d] for d in want), reverse=reverse)[:size]
        expect(keys == best, '%s: value numbers %r..., expected %r...', what,
               keys[:9], best[:9])
        ctx.nontrivial(len(want) > 200 and len(set(best)) > 1)
        ctx.label('switch', how)


def limit_strategy():
    return st.tuples(gen.families, st.integers(0, 6),
                     st.integers(-5, 0), st.booleans(),
                     st.lists(st.integers(0, 8), max_size=6))


def limit_check(case, ctx):
    from zope.index.field import FieldIndex
    f, n, limit, reverse, ids = case
    ix = FieldIndex(*gen.fams(f))
    for d in range(n):
        ix.index_doc(d, d % 3)
    r = raises(ValueError, lambda: list(ix.sort(
        gen.fam(f).IF.Set(ids), reverse=reverse, limit=limit)))
    expect(not r, 'sort with limit=%r %s instead of raising ValueError',
           limit, r)
    ctx.nontrivial(n > 0 and bool(ids))


PROP = Prop('C02', RULE, [
    Sub('sort', strategy, check, 8000, rule=RULE),
    Sub('large', large_cases, large_check, 700, rule=LARGE),
    Sub('limit', limit_strategy, limit_check, 400,
        rule='Limits below 1; non-trivial: non-empty index and ids.'),
], assumptions=['values are mutually orderable (no NaN)',
                'the order of documents with equal values is unspecified'])
