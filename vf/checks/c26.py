"""C26 Rice coding is lossless."""
import copy
import pickle

from hypothesis import strategies as st

from vf import gen
from vf.core import Prop, Sub, expect
from vf.gen import weighted
from vf.obs import raises

RULE = (
    'Parameters 0..16 with lists of integers >= 1 scaled to the parameter '
    '(around multiples of 2**m, so unary parts of 0..40 bits): tolist gives '
    'the list, also after every single append and for encode(); the bits equal '
    'those of the documented code written by the check (q ones, a zero, m '
    'bits). Bit arrays: appended and assigned bits are read back, also after '
    'pickling and copying and further appends. Ascending lists with irregular '
    'steps: decode_deltas(*encode_deltas(l)) == l. Non-trivial: at least two '
    'different values, with a unary part.')


def values(m):
    one = st.one_of(
        st.integers(1, 4), st.integers(1, 1 << m),
        st.builds(lambda q, d: max(1, (q << m) + d), st.integers(0, 40),
                  st.integers(-1, 2)))
    return st.tuples(st.just(m), gen.seqs(one, 0, 30, 6))


def coding():
    return st.integers(0, 16).flatmap(values)


def bits_of(m, l_):
    out = []
    for x in l_:
        q, r = divmod(x - 1, 1 << m)
        out += [1] * q + [0] + [r >> i & 1 for i in range(m - 1, -1, -1)]
    return out


def check_coding(case, ctx):
    from zope.index.text import ricecode
    m, l_ = case
    l_ = list(l_)
    c = ricecode.RiceCode(m)
    for i, v in enumerate(l_):
        c.append(v)
        if i < 3 or i == len(l_) - 1:
            expect(list(c.tolist()) == l_[:i + 1], 'm=%d: appending %r: %r',
                   m, l_[:i + 1], c.tolist())
    expect(len(c) == len(l_), 'm=%d: length %d after appending %r', m,
           len(c), l_)
    e = ricecode.encode(m, list(l_))
    expect(list(e.tolist()) == l_, 'm=%d: encode(%r) is %r', m, l_, e.tolist())
    expect(len(e) == len(l_) and e.tostring() == c.tostring(),
           'm=%d: encode(%r) differs from appending', m, l_)
    want = bits_of(m, l_)
    got = [e.bits[i] for i in range(len(e.bits))]
    expect(got == want, 'm=%d, %r: the bits are %r instead of %r', m, l_, got,
           want)
    packed = bytes(sum(x << k for k, x in enumerate(want[i:i + 8]))
                   for i in range(0, len(want), 8))
    expect(e.tostring() == packed, 'm=%d, %r: tostring is %r instead of %r', m,
           l_, e.tostring(), packed)
    for bad in 0, -1, -(1 << m):
        got = raises(ValueError, c.append, bad)
        expect(not got, 'append(%r) %s', bad, got)
    expect(list(c.tolist()) == l_ and len(c) == len(l_),
           'm=%d: refused values changed %r to %r', m, l_, c.tolist())
    ctx.label('m=%d' % m)
    ctx.nontrivial(len(set(l_)) > 1 and max(l_) > 1 << m)


def bitops():
    op = weighted((12, st.tuples(st.just('a'), st.sampled_from(
        [0, 1, True, False, 2, 4, 256]))),
        (2, st.tuples(st.just('s'), st.integers(0, 10**6),
                      st.sampled_from([0, 1, 8]))),
        (1, st.tuples(st.just('p'), st.integers(0, 3))))
    return gen.seqs(op, 1, 70, 22)


def check_bits(case, ctx):
    from zope.index.text.ricecode import BitArray
    b = BitArray()
    want = []
    for op in case:
        if op[0] == 'a':
            b.append(op[1])
            want.append(1 if op[1] else 0)
        elif op[0] == 's':
            if want:
                i = op[1] % len(want)
                b[i] = op[2]
                want[i] = 1 if op[2] else 0
        elif op[1] == 3:
            b = copy.deepcopy(b)
        else:
            b = pickle.loads(pickle.dumps(b, op[1]))
            if 8 < len(want) and len(want) % 8:
                ctx.nontrivial()
        expect(len(b) == len(want), 'length %r instead of %d', len(b),
               len(want))
    got = [b[i] for i in range(len(want))]
    expect(got == want, 'the bits are %r instead of %r', got, want)
    s = b.tostring()
    packed = bytes(sum(x << k for k, x in enumerate(want[i:i + 8]))
                   for i in range(0, len(want), 8))
    expect(s == packed, 'tostring is %r instead of %r', s, packed)


def deltas():
    step = st.one_of(st.integers(1, 5), st.integers(1, 300), st.sampled_from(
        [63, 64, 65, 127, 128, 129, 1000]))
    return st.tuples(st.integers(-1000, 2**40), gen.seqs(step, 0, 40, 6))


def check_deltas(case, ctx):
    from zope.index.text import ricecode
    start, steps = case
    l_ = [start]
    for s in steps:
        l_.append(l_[-1] + s)
    first, enc = ricecode.encode_deltas(list(l_))
    got = ricecode.decode_deltas(first, enc)
    expect(list(got) == l_, 'deltas of %r decode to %r', l_, got)
    got = ricecode.decode_deltas(first, enc)
    expect(list(got) == l_, 'deltas of %r decode the second time to %r', l_,
           got)
    ctx.nontrivial(len(set(steps)) > 1)


# -- long lists --------------------------------------------------------------

LONG = (
    'Lists of up to 4000 integers with parameters 0..16, as codes, deltas '
    'and bits, also pickled and extended. Same oracles. Non-trivial: more '
    'than 100 different integers or bits.')


def long_cases():
    return st.tuples(st.integers(0, 16), gen.logint(1, 4000),
                     gen.logint(1, 2**20), gen.seeds, st.integers(0, 2))


def long_check(case, ctx):
    from zope.index.text import ricecode
    m, n, top, seed, proto = case
    top = min(top, 40 << m)
    l_ = [1 + gen.noise(seed, k) % (1 + gen.noise(seed, k, 1) % top)
          for k in range(n)]
    e = ricecode.encode(m, list(l_))
    expect(list(e.tolist()) == l_, 'm=%d: encode(%r...) differs', m, l_[:9])
    want = bits_of(m, l_)
    expect([e.bits[i] for i in range(len(e.bits))] == want,
           'm=%d, %r...: wrong bits', m, l_[:9])
    b = pickle.loads(pickle.dumps(e.bits, proto))
    b.append(1)
    expect([b[i] for i in range(len(b))] == want + [1],
           'm=%d, %r...: wrong bits after pickling and appending', m, l_[:9])
    # pickling a code keeps the parameter and the bits (not the length: the
    # tests of zope.index say so)
    c = pickle.loads(pickle.dumps(e, proto))
    expect(c.m == m and c.tostring() == e.tostring(),
           'm=%d: the code of %r... differs after pickling', m, l_[:9])
    e.append(top)
    expect(list(e.tolist()) == l_ + [top] and len(e) == n + 1,
           'm=%d: encode(%r...) differs after pickling and appending', m,
           l_[:9])
    asc = [seed]
    for x in l_:
        asc.append(asc[-1] + x % 100000)
        if asc[-1] == asc[-2]:
            asc[-1] += 1
    # the unary parts of very uneven steps are long
    if max(l_) < 2000 or n < 60:
        got = ricecode.decode_deltas(*ricecode.encode_deltas(list(asc)))
        expect(list(got) == asc, 'deltas of %r... differ', asc[:9])
    ctx.nontrivial(n > 100 and len(set(l_)) > 1)


PROP = Prop('C26', RULE, [
    Sub('coding', coding, check_coding, 12000, rule=RULE),
    Sub('bit array', bitops, check_bits, 8000,
        rule='pickled with a partly filled last byte after a full one'),
    Sub('long', long_cases, long_check, 500, rule=LONG),
    Sub('deltas', deltas, check_deltas, 8000,
        rule='the list has different steps')],
    assumptions=['the list of encode_deltas has an element'])
