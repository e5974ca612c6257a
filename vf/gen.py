"""Strategies shared by the checks.  Every case is a plain literal."""
from hypothesis import strategies as st
from hypothesis.strategies._internal.collections import ListStrategy

MIN32, MAX32 = -2**31, 2**31 - 1
MIN64, MAX64 = -2**63, 2**63 - 1


def seqs(elements, lo, hi, avg=None):
    """Lists with a chosen average size (Hypothesis's default is short)."""
    s = ListStrategy(elements, min_size=lo, max_size=hi)
    if avg is not None:
        s.average_size = min(max(avg, lo + 0.01), hi - 0.01)
    return s


def weighted(*pairs):
    """one_of with integer weights (shrinks towards the first)."""
    out = []
    for n, s in pairs:
        out += [s] * n
    return st.sampled_from(range(len(out))).flatmap(lambda i: out[i])


families = st.sampled_from([32, 64, 33, 64])   # 33: 32 by default


def fam(n):
    import BTrees
    return BTrees.family64 if n == 64 else BTrees.family32


def fams(n):
    """The arguments that make an index of the family."""
    return () if n == 33 else (fam(n),)


# -- document ids ----------------------------------------------------------

small_ids = st.integers(0, 12)
any32 = st.one_of(
    small_ids, st.integers(-20, -1),
    st.integers(MIN32, MAX32),
    st.sampled_from([MIN32, MIN32 + 1, MAX32, MAX32 - 1, 65535, 65536,
                     2**24, 2**24 + 1]))
any64 = st.one_of(
    any32, st.integers(MIN64, MAX64),
    st.sampled_from([MIN64, MAX64, MAX32 + 1, MIN32 - 1, 2**32, 2**32 + 1,
                     2**53 + 1, MAX64 - 1]))


def idmaps(f):
    """(ids, bulk base, bulk stride): how document refs map to ids."""
    one = any32 if f != 64 else any64
    bases = [1000, 0, -150, MAX32 - 5000, MIN32]
    if f == 64:
        bases += [2**40, MAX64 - 5000, MIN64]
    return st.tuples(
        st.one_of(st.just(list(range(1, 9))),
                  st.lists(one, min_size=3, max_size=8, unique=True)),
        st.sampled_from(bases), st.sampled_from([1, 1, 2, 3]))


BULK = 100      # refs from here on are bulk documents


def did(idmap, ref):
    ids, base, stride = idmap
    if ref < BULK:
        return ids[ref % len(ids)]
    return base + (ref - BULK) * stride


refs = weighted((6, st.integers(0, 9)),
                (1, st.integers(BULK, BULK + 30)),
                (1, st.integers(BULK, BULK + 300)))
bulk_sizes = weighted(
    (4, st.integers(1, 20)), (4, st.integers(20, 80)),
    (4, st.integers(60, 66)), (3, st.integers(66, 300)),
    (1, st.integers(300, 1200)))


# -- orderable values ------------------------------------------------------

_text = st.text(max_size=6)
_letters = st.text(alphabet='abcXYZ', max_size=3)


def _formula(kind, j):
    if kind == 'int':
        return j - 20
    if kind == 'str':
        return 'k%04d' % j
    if kind == 'float':
        return j / 4.0 - 3
    if kind == 'num':
        return j // 2 if j % 2 else j / 2.0
    if kind == 'tuple':
        return (j // 4, 'abcd'[j % 4])
    if kind == 'bytes':
        return b'%04d' % j
    raise ValueError(kind)


_pools = {
    'int': st.one_of(st.integers(-30, 30), st.integers(-2**70, 2**70)),
    'str': st.one_of(_letters, _text),
    'float': st.floats(allow_nan=False, allow_infinity=False),
    'num': st.one_of(st.integers(-5, 5), st.booleans(),
                     st.sampled_from([0.0, 0.5, 1.0, -1.5])),
    'tuple': st.tuples(st.integers(-2, 3), _letters),
    'bytes': st.binary(max_size=3),
}
kinds = st.sampled_from(sorted(_pools))


def valuespaces(none=True):
    """(kind, pool): value references j < len(pool) are drawn values (maybe
    None), others come from a formula of the kind."""
    def pool(kind):
        v = _pools[kind]
        if none:
            v = weighted((5, v), (1, st.none()))
        return st.tuples(st.just(kind), st.lists(v, max_size=8))
    return kinds.flatmap(pool)


def val(space, j):
    kind, pool = space
    if 0 <= j < len(pool):
        return pool[j]
    return _formula(kind, j)


valrefs = weighted((5, st.integers(0, 8)), (1, st.integers(0, 40)),
                   (1, st.integers(0, 400)))


def skey(v):
    """Order of values: None first."""
    return (v is not None, v)


# -- large cases -------------------------------------------------------------

def logint(lo, hi):
    """Integers whose magnitudes are equally likely."""
    top = (hi - lo + 1).bit_length()
    return st.integers(0, top).flatmap(
        lambda e: st.integers(min((1 << e) >> 1, hi - lo),
                              min(1 << e, hi - lo))).map(lambda n: lo + n)


seeds = st.integers(0, 10**6)


def noise(seed, *ns):
    """A number that depends on all arguments without visible pattern."""
    x = seed * 2654435761 + 97
    for n in ns:
        x = (x ^ (n + 0x9E3779B97F4A7C15)) * 0xBF58476D1CE4E5B9 % 2**64
        x ^= x >> 29
        x = x * 0x94D049BB133111EB % 2**64
        x ^= x >> 32
    return x


def largeids(f):
    """(base, stride): consecutive or spread ids."""
    bases = [0, -5000, MAX32 - 60000, MIN32]
    if f == 64:
        bases += [2**40, MAX64 - 60000, MIN64]
    return st.tuples(st.sampled_from(bases), st.sampled_from([1, 1, 3, 7]))
