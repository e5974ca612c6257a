"""C01 Field range search is exact after any history."""
from hypothesis import strategies as st

from vf import gen
from vf.core import Prop, Sub, expect
from vf.gen import refs, valrefs, weighted
from vf.obs import diff, idlist, raises

RULE = (
    'Histories of index/reindex/unindex/clear and bulk operations on a '
    'FieldIndex (32/64 bit, values of one orderable kind with None mixed in), '
    'with range queries after some of the steps and at the end, compared with '
    'a dict of the current values. Non-trivial: some query has a non-empty '
    'answer that leaves out an indexed document, and the history reindexes or '
    'unindexes a document.')


def ops():
    return weighted(
        (8, st.tuples(st.just('i'), refs, valrefs)),
        (3, st.tuples(st.just('u'), refs)),
        (1, st.tuples(st.just('bi'), refs, gen.bulk_sizes, valrefs,
                      st.integers(0, 3))),
        (1, st.tuples(st.just('bu'), refs, gen.bulk_sizes)),
        (2, st.tuples(st.just('q'), bound, bound)),
        (1, st.tuples(st.just('c'))),
    )


bound = weighted((1, st.none()), (4, valrefs))


def strategy():
    return gen.families.flatmap(lambda f: st.tuples(
        st.just(f), gen.idmaps(f), gen.valuespaces(),
        gen.seqs(ops(), 1, 60, 16),
        st.lists(st.tuples(bound, bound), min_size=2, max_size=6)))


def in_range(v, lo, hi):
    if lo is not None and (v is None or v < lo):
        return False
    if hi is not None and v is not None and v > hi:
        return False
    return True


def check(case, ctx):
    from zope.index.field import FieldIndex
    f, idmap, space, ops_, queries = case
    ix = FieldIndex(*gen.fams(f))
    model = {}
    seen = {'narrow': False, 'again': False}

    def query(lo, hi):
        lo = lo if lo is None else gen.val(space, lo)
        hi = hi if hi is None else gen.val(space, hi)
        want = {d for d, v in model.items() if in_range(v, lo, hi)}
        got = idlist(ix.apply((lo, hi)), 'apply((%r, %r))' % (lo, hi))
        expect(set(got) == want, 'apply((%r, %r)): %s', lo, hi,
               diff(got, want))
        if want and len(want) < len(model):
            seen['narrow'] = True

    def index(d, v):
        if d in model:
            seen['again'] = True
        ix.index_doc(d, v)
        model[d] = v

    def unindex(d):
        if d in model:
            seen['again'] = True
        ix.unindex_doc(d)
        model.pop(d, None)

    for op in ops_:
        if op[0] == 'i':
            index(gen.did(idmap, op[1]), gen.val(space, op[2]))
        elif op[0] == 'u':
            unindex(gen.did(idmap, op[1]))
        elif op[0] == 'bi':
            start = max(op[1], gen.BULK)
            for k in range(op[2]):
                index(gen.did(idmap, start + k),
                      gen.val(space, op[3] + k * op[4]))
        elif op[0] == 'bu':
            start = max(op[1], gen.BULK)
            for k in range(op[2]):
                unindex(gen.did(idmap, start + k))
        elif op[0] == 'c':
            ix.clear()
            model.clear()
        else:
            query(op[1], op[2])
            ctx.label('mid query')
    for lo, hi in queries:
        query(lo, hi)
    query(None, None)
    ctx.label('64 bit', f == 64)
    ctx.label('None indexed', None in model.values())
    ctx.label('>60 docs', len(model) > 60)
    ctx.label('>60 values', len(set(map(repr, model.values()))) > 60)
    ctx.label('kind ' + space[0])
    ctx.nontrivial(seen['narrow'] and seen['again'])


# -- many documents and values ---------------------------------------------

LARGE = (
    'Up to 6000 documents with up to 6000 distinct values (magnitudes equally '
    'likely), some reindexed and removed, and ranges between fractions of the '
    'values. Same oracle. Non-trivial: a range with more than 200 values that '
    'leaves some out.')


def large_cases():
    frac = weighted((1, st.none()), (4, st.integers(-20, 1020)))
    return gen.families.flatmap(lambda f: st.tuples(
        st.just(f), gen.largeids(f),
        st.sampled_from(['int', 'str', 'float', 'tuple', 'bytes']),
        gen.logint(30, 6000), gen.logint(1, 6000), gen.seeds,
        st.integers(0, 5), st.integers(0, 5),
        st.lists(st.tuples(frac, frac), min_size=2, max_size=6)))


def large_check(case, ctx):
    from zope.index.field import FieldIndex
    f, (base, stride), kind, n, m, seed, again, gone, queries = case
    ix = FieldIndex(*gen.fams(f))
    model = {}

    def value(i):
        return gen._formula(kind, i)

    for k in range(n):
        v = gen.noise(seed, k) % m
        ix.index_doc(base + k * stride, value(v))
        model[base + k * stride] = v
    for k in range(0, n, again * 3 or n):
        v = gen.noise(seed + 1, k) % (m + 2)
        ix.index_doc(base + k * stride, value(v))
        model[base + k * stride] = v
    for k in range(1, n, gone + 1 if gone else n):
        ix.unindex_doc(base + k * stride)
        del model[base + k * stride]
    # values are in the order of their numbers
    for lo, hi in queries + [(None, None)]:
        lo = lo if lo is None else max(lo * m // 1000, 0)
        hi = hi if hi is None else max(hi * m // 1000, 0)
        want = {d for d, v in model.items() if in_range(v, lo, hi)}
        got = idlist(ix.apply((lo if lo is None else value(lo),
                               hi if hi is None else value(hi))), 'apply')
        expect(set(got) == want, 'apply, values number %r to %r: %s', lo, hi,
               diff(got, want))
        many = len({model[d] for d in want})
        ctx.nontrivial(many > 200 and len(want) < len(model))
        ctx.label('>1000 values', many > 1000)
    expect(ix.documentCount() == len(model), 'documentCount() is %r, not %r',
           ix.documentCount(), len(model))


# -- malformed queries -----------------------------------------------------

scalar = st.one_of(st.integers(-5, 5), st.none(), st.text(max_size=2))
badquery = st.one_of(
    st.lists(scalar, max_size=4),
    st.lists(scalar, max_size=5).filter(lambda x: len(x) != 2).map(tuple),
    st.text(max_size=3), st.binary(max_size=3),
    st.dictionaries(st.integers(0, 3), st.integers(), max_size=3),
    scalar)


def bad_strategy():
    return st.tuples(gen.families, st.lists(st.integers(0, 5), max_size=5),
                     badquery)


def bad_check(case, ctx):
    from zope.index.field import FieldIndex
    f, values, query = case
    ix = FieldIndex(*gen.fams(f))
    for d, v in enumerate(values):
        ix.index_doc(d, v)
    expect(not raises(TypeError, ix.apply, query),
           'apply(%r) %s instead of raising TypeError', query,
           raises(TypeError, ix.apply, query))
    ctx.label(type(query).__name__)
    ctx.nontrivial(bool(values) and bool(query))


PROP = Prop('C01', RULE, [
    Sub('history', strategy, check, 6000, rule=RULE),
    Sub('large', large_cases, large_check, 1000, rule=LARGE),
    Sub('badquery', bad_strategy, bad_check, 800,
        rule='Queries that are not two-tuples; non-trivial: non-empty index '
             'and query.'),
], assumptions=['values are mutually orderable (no NaN)',
                'BTrees is trusted'])
