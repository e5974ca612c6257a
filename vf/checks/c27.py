"""C27 N-best keeps exactly the best-scoring items."""
import collections

from hypothesis import strategies as st

from vf import gen
from vf.core import Prop, Sub, expect
from vf.gen import weighted
from vf.obs import raises

RULE = (
    'Sequences of add, addmany (lists, tuples, iterators) and pop_smallest '
    'with scores from small ranges (many ties), floats and large integers, '
    'against the multiset the property allows: after every addition the held '
    'scores are the N largest of the held and the new, the pairs are among '
    'them, everything is listed largest first. A twin receives addmany calls '
    'as single additions. Non-trivial: an item was dropped or replaced and '
    'scores tie.')


def ops(lo=0):
    score = st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(),
                      st.floats(allow_nan=False),
                      st.sampled_from([0.5, 1.0, 2.5, -1.0]))
    pair = st.tuples(st.integers(0, 9), score)
    return weighted(
        (6, st.tuples(st.just('add'), pair)),
        (3, st.tuples(st.just('many'), st.lists(pair, max_size=9),
                      st.integers(0, 2))),
        (2, st.just(('pop',))))


def strategy():
    return st.tuples(st.one_of(st.integers(1, 6), st.integers(1, 6),
                               st.integers(1, 100)),
                     gen.seqs(ops(), 1, 60, 14))


def check(case, ctx):
    from zope.index.nbest import NBest
    n, ops_ = case
    best, twin = NBest(n), NBest(n)
    held = []           # (item, score)
    serial = 0
    dropped = ties = False

    def look(what):
        got = list(best.getbest())
        expect(len(best) == len(got) <= n, '%s: length %r, %d items, '
               'capacity %d', what, len(best), len(got), n)
        expect(best.capacity() == n, 'capacity() is %r', best.capacity())
        scores = [s for _, s in got]
        expect(all(a >= b for a, b in zip(scores, scores[1:])),
               '%s: not largest first: %r', what, got)
        return got

    for op in ops_:
        what = repr(op)
        if op[0] == 'pop':
            if not held:
                got = raises(IndexError, best.pop_smallest)
                expect(not got, 'pop_smallest of nothing %s', got)
                raises(IndexError, twin.pop_smallest)
                look(what)
                continue
            pair = tuple(best.pop_smallest())
            twin.pop_smallest()
            expect(pair in held, 'pop_smallest gives %r, held are %r', pair,
                   held)
            expect(all(not s < pair[1] for _, s in held),
                   'pop_smallest gives %r out of %r', pair, held)
            held.remove(pair)
            got = look(what)
            expect(collections.Counter(got) == collections.Counter(held),
                   'after popping %r: %r, held were %r', pair, got, held)
            continue
        pairs = [op[1]] if op[0] == 'add' else list(op[1])
        # distinct items, so each can be followed
        new = []
        for item, s in pairs:
            new.append(((item, serial), s))
            serial += 1
        if op[0] == 'add':
            best.add(*new[0])
        else:
            best.addmany([list, tuple, iter][op[2]](new))
        for item, s in new:
            twin.add(item, s)
        every = held + new
        dropped |= len(every) > n
        ties |= len({s for _, s in every}) < len(every)
        got = look(what)
        # (the N best one by one are the N best of all, but for ties)
        want = sorted((s for _, s in every), reverse=True)[:n]
        expect([s for _, s in got] == want, '%s: scores %r instead of %r',
               what, [s for _, s in got], want)
        left = collections.Counter(every)
        left.subtract(got)
        expect(min(left.values(), default=0) >= 0,
               '%s: %r holds pairs not given: %r', what, got, every)
        expect([s for _, s in twin.getbest()] == want, '%s: addmany gives '
               '%r, one by one %r', what, got, twin.getbest())
        held = got
    ctx.label('dropped', dropped)
    ctx.nontrivial(dropped and ties)


LARGE = (
    'Capacities up to 3000 and up to 6000 items from a wide or narrow range, '
    'added one by one or at once and in between, then all popped. '
    'Non-trivial: capacity above 100 and items were dropped.')


def large_cases():
    return st.tuples(gen.logint(1, 3000), st.one_of(
        gen.logint(1, 6000), st.integers(500, 6000)),
                     gen.logint(1, 10**6), gen.seeds, gen.logint(1, 6000),
                     st.sampled_from(['noise', 'up', 'down']))


def large_check(case, ctx):
    from zope.index.nbest import NBest
    n, m, top, seed, step, order = case
    items = [(k, {'noise': gen.noise(seed, k) % top, 'up': k // 3,
                  'down': -k // 2}[order]) for k in range(m)]
    best = NBest(n)
    for k in range(0, m, step):
        if step == 1:
            best.add(*items[k])
        else:
            best.addmany(items[k:k + step])
    want = sorted((s for _, s in items), reverse=True)[:n]
    got = list(best.getbest())
    expect([s for _, s in got] == want, 'the best %d of %d: scores %r...',
           n, m, [s for _, s in got][:9])
    expect(len(set(got)) == len(got) == len(best) and set(got) <= set(items),
           'the best %d of %d: not the pairs given', n, m)
    popped = [best.pop_smallest() for _ in range(len(best))]
    expect([s for _, s in popped] == want[::-1], 'popped scores %r...',
           popped[:9])
    expect(sorted(popped) == sorted(got), 'popped are other pairs')
    ctx.nontrivial(n > 100 and m > n)


def misuse():
    return st.integers(-10, 0)


def check_misuse(n, ctx):
    from zope.index.nbest import NBest
    got = raises(ValueError, NBest, n)
    expect(not got, 'NBest(%r) %s', n, got)
    got = raises(IndexError, NBest(1 - n).pop_smallest)
    expect(not got, 'pop_smallest of nothing %s', got)
    ctx.nontrivial()


PROP = Prop('C27', RULE, [
    Sub('histories', strategy, check, 16000, rule=RULE),
    Sub('large', large_cases, large_check, 600, rule=LARGE),
    Sub('misuse', misuse, check_misuse, 50, rule='a capacity below 1')],
    assumptions=['scores are numbers comparable with each other, not NaN'])
