"""C25 Word-id encoding is lossless and self-synchronizing."""
from hypothesis import strategies as st

from vf import gen
from vf.core import Prop, Sub, expect
from vf.gen import weighted
from vf.obs import raises

RULE = (
    'Lists of integers below 2**28, drawn around every power of two and from '
    'each size class, and pairs of lists of which one is often made out of '
    'pieces of the other: decode(encode(l)) == l, encode(a + b) == encode(a) '
    '+ encode(b), the lengths are the sums of ceil(bits/7), every occurrence '
    'of one encoding in another starts where an integer starts (positions '
    'computed by the check). Larger integers raise. Non-trivial: a list with '
    'integers of at least two size classes, or an occurrence found.')

LIMIT = 2**28


def units(w):
    return max(1, -(-w.bit_length() // 7))


edge = st.builds(lambda p, d: min(max((1 << p) + d, 0), LIMIT - 1),
                 st.integers(0, 28), st.integers(-2, 2))
sized = st.sampled_from([7, 14, 21, 28]).flatmap(
    lambda b: st.integers(0, (1 << b) - 1))
# many zero groups and equal groups
groups = st.lists(st.sampled_from([0, 1, 2, 127]), min_size=1, max_size=4).map(
    lambda g: sum(x << (7 * i) for i, x in enumerate(g)))
wid = weighted((2, edge), (2, sized), (2, groups), (2, st.integers(0, 3)))


def wids(lo, hi, avg):
    return gen.seqs(wid, lo, hi, avg)


def coding():
    return st.tuples(wids(0, 40, 6), wids(0, 20, 4))


def check_coding(case, ctx):
    from zope.index.text import widcode
    a, b = map(list, case)
    for l_ in a, b, a + b:
        code = widcode.encode(list(l_))
        back = widcode.decode(code)
        expect(list(back) == l_, 'encode and decode %r: %r', l_, back)
        n = sum(map(units, l_))
        expect(len(code) == n, 'encode(%r) has %d units instead of %d', l_,
               len(code), n)
    expect(widcode.encode(a) + widcode.encode(b) == widcode.encode(a + b),
           'encode(%r) + encode(%r) is not the encoding of both', a, b)
    again = widcode.decode(widcode.encode(a) + widcode.encode(b))
    expect(list(again) == a + b, 'decoding the concatenation: %r', again)
    ctx.nontrivial(len({units(w) for w in a + b}) > 1)
    for w in a + b:
        ctx.label('%d units' % units(w))


def sync():
    """A list, and a second one related to it."""
    base = gen.seqs(weighted((3, groups), (1, wid)), 1, 12, 5)
    return base.flatmap(lambda l_: st.tuples(
        st.just(l_), st.integers(0, len(l_)), st.integers(1, 4),
        st.integers(-2, 2), st.integers(0, 28)))


def check_sync(case, ctx):
    from zope.index.text import widcode
    hay, i, n, d, shift = case
    hay = list(hay)
    needle = hay[i:i + n] or hay[:1]
    # change the first and last integer, as prefixes and suffixes of others
    variants = [needle]
    for k in (0, -1):
        for f in (lambda w: w >> shift, lambda w: (w + d),
                  lambda w: (w << shift) % LIMIT,
                  lambda w: w % (1 << max(1, shift))):
            v = list(needle)
            v[k] = min(max(f(v[k]), 0), LIMIT - 1)
            variants.append(v)
    starts, pos = set(), 0
    for w in hay:
        starts.add(pos)
        pos += units(w)
    code = widcode.encode(hay)
    for v in variants:
        part = widcode.encode(v)
        at = code.find(part)
        if v is needle:
            expect(at >= 0, 'the encoding of %r does not occur in that of %r',
                   v, hay)
        while at >= 0:
            expect(at in starts, 'the encoding of %r occurs in that of %r at '
                   '%d, within an integer', v, hay, at)
            ctx.nontrivial()
            at = code.find(part, at + 1)


LONG = (
    'Lists of up to 20000 integers of all sizes. Non-trivial: more than 1000 '
    'integers of several sizes.')


def long_cases():
    return st.tuples(st.one_of(gen.logint(1, 20000), st.integers(1000, 20000)),
                     gen.seeds, st.integers(0, 28),
                     st.integers(0, 28))


def check_long(case, ctx):
    from zope.index.text import widcode
    n, seed, lo, hi = case
    lo, hi = min(lo, hi), max(lo, hi)
    l_ = [gen.noise(seed, k) % (1 << (lo + gen.noise(seed, k, 1)
                                      % (hi - lo + 1))) for k in range(n)]
    code = widcode.encode(list(l_))
    expect(len(code) == sum(map(units, l_)), 'wrong length of encode(%r...)',
           l_[:9])
    expect(list(widcode.decode(code)) == l_, 'decode(encode(%r...)) differs',
           l_[:9])
    k = seed % n
    expect(widcode.encode(l_[:k]) + widcode.encode(l_[k:]) == code,
           'encode(%r...) is not that of its parts', l_[:9])
    ctx.nontrivial(n > 1000 and hi - lo > 7)


def refused():
    return st.tuples(wids(0, 4, 1), st.one_of(
        st.just(LIMIT), st.integers(LIMIT, LIMIT * 4),
        st.builds(lambda p, d: (1 << p) + d, st.integers(28, 130),
                  st.integers(0, 300))), wids(0, 4, 1))


def check_refused(case, ctx):
    from zope.index.text import widcode
    a, w, b = case
    got = raises(Exception, widcode.encode, list(a) + [w] + list(b))
    expect(not got, 'encode with %r %s', w, got)
    ctx.nontrivial()


PROP = Prop('C25', RULE, [
    Sub('coding', coding, check_coding, 30000, rule=RULE),
    Sub('synchronization', sync, check_sync, 20000,
        rule='an occurrence of a related list was found'),
    Sub('long', long_cases, check_long, 600, rule=LONG),
    Sub('refused', refused, check_refused, 3000,
        rule='an integer of more than 28 bits was given')],
    assumptions=['the integers are not negative'])
