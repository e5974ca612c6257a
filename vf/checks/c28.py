"""C28 Mass weighted union and intersection equal the pointwise sums."""
from hypothesis import strategies as st

from vf import gen
from vf.core import Prop, Sub, expect
from vf.gen import weighted
from vf.obs import diff, idlist

RULE = (
    'Lists of 0..40 (mapping, weight) pairs: buckets and trees of either '
    'family, empty, equal, nested, of very different sizes, also the same '
    'object twice, small integers as values and weights (exact in floats). '
    'Both functions against pointwise sums in a dict, in the given and two '
    'other orders, with None entries for the intersection; the mappings are '
    'unchanged afterwards. Non-trivial: at least three mappings of different '
    'sizes having a common id.')


def strategy():
    mapping = st.tuples(
        st.integers(0, 1),                     # bucket or tree
        weighted((3, gen.seqs(st.tuples(st.sampled_from(
            [0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7]),
                                        st.integers(-4, 9)), 0, 12, 5)),
                 (1, st.tuples(st.sampled_from([0, 0, 1, 5, 30]), st.integers(1, 200),
                               st.integers(1, 4)))),
        weighted((3, st.just(1)), (3, st.integers(-3, 8)),
                 (1, st.sampled_from([0.5, 0.25, 2.0]))))
    return st.tuples(gen.families, st.sampled_from([0, 1000, -5, -2**31,
                                                    2**31 - 1000, 2**40]),
                     weighted((12, gen.seqs(mapping, 0, 8, 3.5)),
                              (1, gen.seqs(mapping, 8, 40, 14))),
                     st.lists(st.integers(0, 7), max_size=2),
                     st.randoms(use_true_random=False).map(
                         lambda r: r.randrange(1000)),
                     st.integers(0, 2),
                     st.sampled_from([(), (), (3,), (0, 1), (2, 9, 250)]))


def build(IF, spec, base, core):
    tree, content, _ = spec
    if isinstance(content, tuple):
        start, n, stride = content
        content = [(start + k * stride, k % 13 - 2) for k in range(n)]
    m = IF.BTree() if tree else IF.Bucket()
    for k, v in content:
        m[base + k] = v
    for k in core:           # ids that are in all of them
        m.setdefault(base + k, k + len(content) % 3)
    return m


def check(case, ctx):
    from zope.index.text.setops import (
        mass_weightedIntersection,
        mass_weightedUnion,
    )
    f, base, specs, again, perm, nones, core = case
    if f != 64 and base == 2**40:
        base = 17
    family = gen.fam(f)
    pairs = [(build(family.IF, s, base, core), s[2]) for s in specs]
    for i in again:
        if pairs:
            m, w = pairs[i % len(pairs)]
            pairs.append((m, w + 1))
    before = [dict(m.items()) for m, _ in pairs]

    union, count = {}, {}
    for (m, w), items in zip(pairs, before):
        for k, v in items.items():
            union[k] = union.get(k, 0) + v * w
            count[k] = count.get(k, 0) + 1
    inter = {k: v for k, v in union.items() if count[k] == len(pairs)}

    orders = [pairs, pairs[::-1], sorted(
        pairs, key=lambda p: (len(p[0]) * 7919 + perm) % 101)]
    k = perm % (len(pairs) or 1)
    orders.append(pairs[k:] + pairs[:k])
    for order in orders:
        arg = list(order)
        got = mass_weightedUnion(arg, family)
        judge('union', got, union, before, order, family)
        expect(same_list(arg, order), 'the union changed its list')
        arg += [(None, 1)] * nones
        given = list(arg)
        got = mass_weightedIntersection(arg, family)
        expect(same_list(arg, given), 'the intersection changed its list')
        judge('intersection', got, inter, before, order, family)
        now = [dict(m.items()) for m, _ in pairs]
        expect(now == before, 'the inputs changed: %r to %r', before, now)
    if f != 64:
        judge('union', mass_weightedUnion(list(pairs)), union, before, pairs,
              family)
        judge('intersection', mass_weightedIntersection(list(pairs)), inter,
              before, pairs, family)
    ctx.label('%d pairs' % min(len(pairs), 5))
    ctx.nontrivial(len(pairs) > 2 and inter and
                   len({len(m) for m, _ in pairs}) > 1)


LARGE = (
    'Up to 600 mappings of up to 3000 ids (magnitudes equally likely; at most '
    '20000 in all). Same oracle. Non-trivial: more than 40 mappings, or one '
    'of more than 500 ids.')


def large_cases():
    return st.tuples(gen.families, gen.logint(0, 600), gen.logint(1, 3000),
                     gen.logint(1, 3000), gen.seeds, gen.logint(0, 40),
                     st.booleans())


def large_check(case, ctx):
    from zope.index.text.setops import (
        mass_weightedIntersection,
        mass_weightedUnion,
    )
    f, n, size, space, seed, core, weights = case
    size = min(size, max(1, 20000 // max(n, 1)))
    family = gen.fam(f)
    pairs, union, count = [], {}, {}
    for i in range(n):
        items = {gen.noise(seed, i, k) % space: gen.noise(seed, k, i) % 9
                 for k in range(1 + gen.noise(seed, i) % size)}
        for k in range(core):
            items.setdefault(k * 7, 1)
        m = (family.IF.BTree if gen.noise(seed, i, -1) % 2 else
             family.IF.Bucket)(items)
        w = gen.noise(seed, i, -2) % 4 if weights else 1
        pairs.append((m, w))
        for k, v in items.items():
            union[k] = union.get(k, 0) + v * w
            count[k] = count.get(k, 0) + 1
    inter = {k: v for k, v in union.items() if count[k] == n}
    for order in pairs, pairs[::-1]:
        for what, fn, want in (
                ('union', mass_weightedUnion, union),
                ('intersection', mass_weightedIntersection, inter)):
            got = fn(list(order), family)
            expect(isinstance(got, (family.IF.Bucket, family.IF.BTree)),
                   'the %s is a %s', what, type(got).__name__)
            ids = idlist(got)
            expect(set(ids) == set(want), 'the %s of %d mappings: %s', what,
                   n, diff(ids, want))
            bad = [(k, v, want[k]) for k, v in got.items() if v != want[k]]
            expect(not bad, 'the %s of %d mappings: (id, value, expected) '
                   '%r', what, n, bad[:5])
    ctx.nontrivial(n > 40 or any(len(m) > 500 for m, _ in pairs))
    ctx.label('>128 mappings', n > 128)
    ctx.label('>40 mappings have common ids', n > 40 and bool(inter))


def same_list(a, b):
    return len(a) == len(b) and all(
        x[0] is y[0] and x[1] == y[1] for x, y in zip(a, b))


def judge(what, got, want, before, order, family):
    expect(isinstance(got, (family.IF.Bucket, family.IF.BTree)),
           'the %s is a %s', what, type(got).__name__)
    idlist(got)
    got = dict(got.items())
    expect(got == want, 'the %s of %r is %r instead of %r', what,
           [(dict(m.items()), w) for m, w in order], got, want)


PROP = Prop('C28', RULE, [
    Sub('pointwise', strategy, check, 12000, rule=RULE),
    Sub('large', large_cases, large_check, 800, rule=LARGE)],
            assumptions=['values, weights and sums are exact in 32-bit '
                         'floats'])
