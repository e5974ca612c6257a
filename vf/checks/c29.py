"""C29 Data stored by old versions is upgraded correctly on first update."""
import pickle

from hypothesis import strategies as st

from vf import gen, kinds
from vf.core import Prop, Sub, expect
from vf.gen import weighted

RULE = (
    'A text index after a history gets a subset of its counters in the old '
    'format (no documentCount/wordCount objects, the total length an integer '
    'or float, a lexicon without a counter object), optionally pickled and '
    'loaded in that state, and another history follows. As soon as the model '
    'says that no counter of the index is old (a new document was added, or '
    'the counter has changed), all answers, scores and counts must be those '
    'of a model; the lexicon counts its words at all times. The downgrade can '
    'happen repeatedly. Non-trivial: at least two documents at the downgrade '
    'and a removal or reindexing before or after the upgrade.')

COUNTERS = ('docs', 'words', 'total', 'lexicon')


def ops(K):
    old = st.tuples(st.just('old'), st.integers(1, 15), st.integers(0, 2),
                    st.booleans())
    return weighted((8, K.ops()), (1, old))


def cases():
    def one(cfg):
        K = kinds.KINDS[cfg[0]]
        old = st.tuples(st.just('old'), st.integers(1, 15),
                        st.integers(0, 2), st.booleans())
        return st.tuples(st.just(cfg), gen.seqs(K.ops(), 1, 14, 6), old,
                         gen.seqs(ops(K), 0, 16, 6))
    return kinds.configs(['okapi', 'cosine']).flatmap(one)


def downgrade(b, mask, total):
    """Take the state back to that of an old release."""
    if mask & 1:
        b.__dict__.pop('documentCount', None)
    if mask & 2:
        b.__dict__.pop('wordCount', None)
    if mask & 4 and hasattr(b, '_totaldoclen'):
        n = b._totaldoclen
        n = n if isinstance(n, (int, float)) else n()
        b._totaldoclen = float(n) if total == 1 else int(n)
    if mask & 8:
        b.lexicon.__dict__.pop('wordCount', None)
    b._p_changed = True


def check(case, ctx):
    cfg, first, old, later = case
    kind = kinds.kind(cfg)
    ix = kind.make()
    b = kind.base(ix)
    ever = set()
    for op in first:
        kind.run(ix, op)
        ever |= words(kind, op)
    docs_old = words_old = False
    two = changed = upgraded = False
    for op in [old] + list(later):
        if op[0] == 'old':
            downgrade(b, op[1], op[2])
            if op[3]:
                ix = pickle.loads(pickle.dumps(ix))
                b = kind.base(ix)
            docs_old |= bool(op[1] & 1)
            words_old |= bool(op[1] & 2)
            two |= len(kind.docs) > 1
            for bit, c in enumerate(COUNTERS):
                ctx.label('old ' + c, op[1] & (1 << bit))
        else:
            for step in kind.expand(op):
                known = set(kind.docs)
                vocab = {w for ws in kind.docs.values() for w in ws}
                kind.step(ix, step)
                kind.mstep(step)
                if step[0] == 'c' or set(kind.docs) - known:
                    docs_old = words_old = False
                if set(kind.docs) != known:
                    docs_old = False
                if words_old and vocab != {
                        w for ws in kind.docs.values() for w in ws}:
                    words_old = False
                changed |= step[0] == 'u' and step[1] in known or (
                    step[0] == 'i' and step[1] in known)
            ever |= words(kind, op)
        n = b.lexicon.wordCount()
        expect(n == len(ever), 'after %r: the lexicon counts %r words instead '
               'of %d', op, n, len(ever))
        if not docs_old and not words_old:
            upgraded = True
            if op[0] != 'old':
                kind.verify(ix, 'after %r' % (op,))
    # a new document upgrades everything
    new = next(r for r in range(gen.BULK + 800, gen.BULK + 1600)
               if kind.did(r) not in kind.docs)
    kind.run(ix, ('i', new, (0, 1, 25)))
    kind.verify(ix, 'after adding a document')
    for d in list(kind.docs):
        if d % 2:
            kind.step(ix, ('u', d))
            kind.mstep(('u', d))
    kind.verify(ix, 'after removing documents')
    ctx.label('upgraded by the history', upgraded)
    ctx.nontrivial(two and changed)


def words(kind, op):
    out = set()
    for step in kind.expand(op):
        if step[0] == 'i':
            out.update(step[2])
    return out


PROP = Prop('C29', RULE, [Sub('upgrade', cases, check, 4000, rule=RULE)],
            assumptions=[
                'An index whose counters are old raises NotImplementedError '
                'when asked for them: it is not observed in that state.'])
