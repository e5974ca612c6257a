"""C34 What the released version stored stays usable."""
import pickle

from hypothesis import strategies as st

from vf import gen, kinds
from vf.checks._zodb import Database
from vf.core import Prop, Sub, expect
from vf.gen import weighted

RULE = (
    'An index of any kind is filled by a generated history in another process '
    'that runs the released version (a copy in release/), pickled there with '
    'a generated protocol and loaded by the code under test, directly or into '
    'a database. There it must answer as the model does, before and after a '
    'further history; so must a copy that is pickled again. Non-trivial: the '
    'stored index has at least two documents and is updated.')

_release = []


def release():
    if not _release:
        from vf.release import Release
        _release.append(Release())
    return _release[0]


def cases():
    def one(cfg):
        ops = kinds.KINDS[cfg[0]].ops()
        return st.tuples(st.just(cfg), gen.seqs(ops, 1, 40, 12),
                         gen.seqs(ops, 0, 20, 6), st.integers(0, 5),
                         st.booleans())
    return kinds.configs().flatmap(one)


def check(case, ctx):
    cfg, before, after, protocol, db = case
    kind = kinds.kind(cfg)
    data = release().stored('index', cfg, before, protocol)
    for op in before:
        for step in kind.expand(op):
            kind.mstep(step)
    two = len(kind.docs) > 1
    if db:
        with Database() as database:
            conn, tm = database.open()
            conn.root()['ix'] = pickle.loads(data)
            tm.commit()
            conn.cacheMinimize()
            go_on(kind, conn.root()['ix'], after, tm.commit)
    else:
        go_on(kind, pickle.loads(data), after)
    ctx.nontrivial(two and len(after) > 1)
    ctx.label(kind.name)
    ctx.label('in a database', db)


def go_on(kind, ix, after, commit=None):
    ix = kind.prepare(ix)
    kind.verify(ix, 'stored by the released version')
    for n, op in enumerate(after):
        kind.run(ix, op)
        if n == 0:
            kind.verify(ix, 'after %r' % (op,))
    if commit:
        commit()
        ix._p_jar.cacheMinimize()
    kind.verify(ix, 'after a further history')
    if not commit:
        ix = kind.prepare(pickle.loads(pickle.dumps(ix)))
        kind.verify(ix, 'after a further history, copied')


# -- coded lists -------------------------------------------------------------

CODED = (
    'Lists of word ids, Rice-coded lists and delta-coded lists, encoded and '
    'stored by the released version: the code under test decodes the word ids '
    'and encodes all of them in the same way. Non-trivial: at least two '
    'values.')


def coded_cases():
    from vf.checks.c26 import values
    wid = st.one_of(st.integers(1, 300), st.integers(1, 20000), st.builds(
        lambda b, d: min(max(1, (1 << b) + d), (1 << 28) - 1),
        st.integers(0, 28), st.integers(-2, 2)))
    return weighted(
        (2, st.tuples(st.just('wids'), gen.seqs(wid, 0, 30, 6).map(tuple),
                      st.integers(0, 5))),
        (1, st.tuples(st.just('deltas'), st.lists(
            st.integers(0, 5000), min_size=1, max_size=30, unique=True).map(
                lambda v: tuple(sorted(v))), st.integers(0, 5))),
        (1, st.integers(0, 16).flatmap(values).flatmap(
            lambda mv: st.tuples(st.just('rice'), st.just(mv[0]),
                                 st.just(tuple(mv[1])), st.integers(2, 5)))))


def coded_check(case, ctx):
    from zope.index.text import ricecode, widcode
    data = pickle.loads(release().stored(*case))
    want = list(case[-2])
    if case[0] == 'wids':
        expect(list(widcode.decode(data)) == want, 'decode() is %r instead '
               'of %r', widcode.decode(data), want)
        expect(widcode.encode(list(want)) == data, 'the code of %r has '
               'changed', want)
    elif case[0] == 'deltas':
        first, code = data
        mine, enc = ricecode.encode_deltas(list(want))
        expect(first == mine, 'the deltas of %r start at %r', want, mine)
        if code != []:
            same_code(code, enc, want)
    else:
        same_code(data, ricecode.encode(case[1], list(want)), want)
    ctx.nontrivial(len(want) > 1)
    ctx.label(case[0])


def same_code(stored, mine, want):
    # a stored Rice code has no length, so it cannot be decoded
    expect(stored.tostring() == mine.tostring(), 'the code of %r is %r instead '
           'of %r', want, mine.tostring(), stored.tostring())
    expect(list(stored.bits) == list(mine.bits), 'the stored bits of %r are '
           '%r', want, list(stored.bits))


PROP = Prop('C34', RULE, [
    Sub('indexes', cases, check, 3000, rule=RULE),
    Sub('coded', coded_cases, coded_check, 6000, rule=CODED)])
