"""C24 Both id families behave alike and yield combinable results."""
from hypothesis import strategies as st

from vf import gen, kinds
from vf.checks.c22 import ways
from vf.core import Prop, Sub, expect, fail
from vf.kinds import same
from vf.obs import idlist

RULE = (
    'A history is run on a 32-bit index with small ids, a 64-bit index with '
    'the same ids, and a 32- or 64-bit index with the ids moved (keeping their '
    'order) anywhere in its range, including negative and extreme ids: all '
    'observations correspond, and each agrees with the model. Results of every '
    'query must be sets or mappings of the family of the index, list their ids '
    'in ascending order, and combine with sets and mappings of that family by '
    'the operations of the family. Non-trivial: a nonempty result was '
    'combined, and the moved ids leave the range of the 32-bit family or '
    'include negative ones.')

WINDOW = 4800


def moved():
    """(family, ids, base): where the documents of the moved index are."""
    def one(f):
        lo, hi = (gen.MIN32, gen.MAX32) if f != 64 else (gen.MIN64, gen.MAX64)
        i = gen.any32 if f != 64 else gen.any64
        return st.tuples(
            st.just(f), st.lists(i, min_size=3, max_size=8, unique=True),
            st.one_of(st.sampled_from([lo, hi - WINDOW, 0, -WINDOW // 2]),
                      st.integers(lo, hi - WINDOW)))
    return st.sampled_from([64, 64, 32]).flatmap(one)


def cases():
    def one(name):
        K = kinds.KINDS[name]
        picks = st.lists(st.tuples(st.integers(0, 50), st.integers(0, 50),
                                   st.integers(0, 7)),
                         min_size=2, max_size=6)
        return st.tuples(st.just(name), K.extras(), moved(),
                         st.integers(1, 3), gen.seqs(K.ops(), 1, 40, 12),
                         picks)
    return st.sampled_from(sorted(kinds.KINDS)).flatmap(one)


def plain_ops(op):
    # (no filter expression that depends on the id)
    if op[0] == 'addf' and op[2] == 5:
        return op[:2] + (0,)
    return op


def check(case, ctx):
    name, extra, (f, ids, base), stride, ops, picks = case
    if name == 'topic':
        extra = tuple(0 if e == 5 else e for e in extra)
    ids = [i for i in sorted(ids) if not base <= i < base + WINDOW]
    if not ids:
        return
    small = [1 + k if i < base else 100000 + k for k, i in enumerate(ids)]
    idmap = (small, 1000, stride)
    K = [kinds.kind((name, 32, idmap, extra)),
         kinds.kind((name, 64, idmap, extra)),
         kinds.kind((name, f, (ids, base, stride), extra))]
    ixs = [k.make() for k in K]
    for op in ops:
        for k, ix in zip(K, ixs):
            k.run(ix, plain_ops(op))
    obs = [k.observe(ix) for k, ix in zip(K, ixs)]
    for k, o, what in zip(K, obs, ('32-bit', '64-bit', 'moved')):
        d = same(o, k.expected())
        expect(not d, '%s %s index: %s', what, name, d)
    d = same(obs[0], obs[1])
    expect(not d, '%s index: families differ: %s', name, d)

    move = dict(zip(small, ids))
    move.update((1000 + j, base + j) for j in range(WINDOW))
    d = same(obs[2], moving(name, obs[0], move))
    expect(not d, '%s index: moved ids: %s', name, d)

    some = False
    for k, ix in zip(K, ixs):
        some |= combine(k, ix, picks)
    ctx.label(name)
    ctx.label('results combined', some)
    ctx.nontrivial(some and (ids[0] < 0 or ids[-1] > gen.MAX32 or
                             base + WINDOW > gen.MAX32))


def moving(name, obs, move):
    """The observations with all ids moved."""
    def value(v):
        if isinstance(v, frozenset):
            return frozenset(move[i] for i in v)
        if isinstance(v, dict):
            return {move[i]: s for i, s in v.items()}
        if isinstance(v, list) and len(v) == 2 and (
                v[1] is None or isinstance(v[1], frozenset)):
            return [v[0], v[1] and value(v[1])]
        return v
    ids = ('has', 'docwords') if name in ('okapi', 'cosine') else ()
    return {((k[0], move[k[1]]) if k[0] in ids else k): value(v)
            for k, v in obs.items()}


def combine(kind, ix, picks):
    IF = kind.family.IF
    some = False
    for what, fn, objs in ways(kind, ix, picks, []):
        if what == 'sort':
            for i in fn():
                expect(type(i) is int, '%s: sort gives a %s', kind.name,
                       type(i).__name__)
            continue
        res = fn()
        if res is None:
            continue
        where = '%s(%s) of a %d-bit %s index' % (
            what, ', '.join(map(repr, objs)), kind.f, kind.name)
        mapping = hasattr(res, 'items')
        own = (IF.Bucket, IF.BTree) if mapping else (IF.Set, IF.TreeSet)
        expect(isinstance(res, own), '%s is a %s.%s', where,
               type(res).__module__, type(res).__name__)
        ids = idlist(res, where)
        half = ids[::2]
        others = [IF.Set(half + [kind.did(0)]), IF.TreeSet(half),
                  IF.BTree({i: 1.0 for i in half}),
                  IF.Bucket({i: 2.0 for i in ids})]
        for o in others:
            o_ids = set(o.keys())
            for op, want in (('intersection', o_ids & set(ids)),
                             ('union', o_ids | set(ids))):
                for a, b in (res, o), (o, res):
                    try:
                        got = list(getattr(IF, op)(a, b).keys())
                    except TypeError as e:
                        fail('%s: %s with a %s raises %r', where, op,
                             type(o).__name__, e)
                    expect(got == sorted(want), '%s: %s with %r is %r',
                           where, op, sorted(o_ids), got)
        if mapping:
            _, got = IF.weightedIntersection(res, others[3], 1, 1)
            expect(list(got.keys()) == ids, '%s: weighted intersection: %r',
                   where, got)
        some |= bool(ids)
    return some


PROP = Prop('C24', RULE, [Sub('families', cases, check, 6000, rule=RULE)])
