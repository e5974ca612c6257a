"""C21 Concurrent transactions conflict or merge correctly, never corrupt."""
import itertools

from hypothesis import strategies as st

from vf import gen, kinds
from vf.checks._zodb import Database
from vf.core import Known, Prop, Sub, fail
from vf.gen import weighted
from vf.kinds import same

RULE = (
    'An index of any kind in a ZODB database, filled by a generated history; '
    'then rounds of two or three transactions that start from the same '
    'snapshot on separate connections, commit in a generated order (or '
    'abort) and, on a conflict error, are given up or run again. Oracle: '
    'after every round, on a new connection, the index answers as the model '
    'does for some order of the committed transactions; afterwards it takes '
    'further updates and still agrees. Only conflict errors are accepted. '
    'Non-trivial: two transactions of one round, both changing the index, '
    'commit without conflict.')


def cases():
    def one(cfg):
        K = kinds.KINDS[cfg[0]]
        few = gen.seqs(K.ops(bulk=False, clear=False), 1, 5, 2)
        if cfg[0] == 'topic':
            few = gen.seqs(K.ops(filters=False, bulk=False), 1, 5, 2)
            many = gen.seqs(K.ops(filters=False), 1, 3, 1.3)
            ops = weighted((8, few), (1, many),
                           (2, K.ops(bulk=False).map(lambda op: [op])))
        else:
            many = gen.seqs(K.ops(clear=True, bulk=True), 1, 3, 1.3)
            ops = weighted((8, few), (1, many))
        # each transaction keeps to documents of its own, mostly
        txn = st.tuples(ops.map(tuple),
                        weighted((5, st.just('own')), (1, st.just('any'))),
                        weighted((8, st.just('retry')), (2, st.just('give up')),
                                 (1, st.just('abort'))))
        rounds = gen.seqs(st.tuples(
            gen.seqs(txn, 2, 3, 2.4).map(tuple),
            st.integers(0, 5)), 1, 5, 2.5)
        setup = gen.seqs(weighted(
            (6, K.ops(clear=False)),
            (2, st.tuples(st.just('bi'), gen.refs, gen.bulk_sizes,
                          K.contents(), st.integers(0, 1)))), 0, 10, 5)
        return st.tuples(st.just(cfg), setup, rounds,
                         gen.seqs(K.ops(), 0, 8, 4))
    return kinds.configs().flatmap(one)


def own(op, k):
    """Restrict an operation to the documents of the k-th transaction."""
    if op[0] in ('i', 'u'):
        ref = op[1]
        if ref < gen.BULK:
            ref = ref - ref % 3 + k
        return op[:1] + (ref,) + op[2:]
    if op[0] in ('bi', 'bu'):
        return op[:1] + (op[1] + 400 * k,) + op[2:]
    return op


def check(case, ctx):
    from ZODB.POSException import ConflictError
    cfg, setup, rounds, later = case
    kind = kinds.kind(cfg)
    with Database() as db:
        conn, tm = db.open()
        conn.root()['ix'] = ix = kind.make()
        for op in setup:
            kind.run(ix, op)
        tm.commit()
        db.drop(conn, tm)
        for txns, order in rounds:
            start = kind.save()
            opened, done = [], []
            for k, (ops, how, end) in enumerate(txns):
                conn, tm = db.open()
                tm.begin()
                ops = [own(op, k) if how == 'own' else op for op in ops]
                opened.append((k, elementary(kind, ops), end, conn, tm))
            one_shared([t[1] for t in opened])
            # all are changed before any of them commits
            for k, ops, end, conn, tm in opened:
                kind.restore(start)
                ix = conn.root()['ix']
                apply(kind, ix, ops)
            perms = list(itertools.permutations(opened))
            merged = 0
            for k, ops, end, conn, tm in perms[order % len(perms)]:
                if end == 'abort':
                    tm.abort()
                    continue
                try:
                    tm.commit()
                    done.append(ops)
                    merged += 1
                except ConflictError:
                    tm.abort()
                    ctx.label('conflict')
                    if end == 'retry':
                        tm.begin()
                        ix = conn.root()['ix']
                        # (operations depend on the filters there are)
                        settle(db, kind, start, done, ctx)
                        apply(kind, ix, ops)
                        tm.commit()
                        done.append(ops)
            for k, ops, end, conn, tm in opened:
                db.drop(conn, tm)
            settle(db, kind, start, done, ctx)
            ctx.nontrivial(merged > 1)
            ctx.label('merged', merged > 1)
        conn, tm = db.open()
        ix = conn.root()['ix']
        for op in later:
            kind.run(ix, op)
        kind.verify(ix, 'updates after the concurrent ones')
        tm.commit()
    ctx.label(kind.name)


def elementary(kind, ops):
    """The steps of operations on documents; other operations as they are
    (what those do may depend on the state)."""
    out = []
    for op in ops:
        out += kind.expand(op) if op[0] in ('i', 'u', 'bi', 'bu') else [op]
    return out


def apply(kind, ix, ops):
    for op in ops:
        for step in [op] if op[0] in 'iu' else kind.expand(op):
            if ix is not None:
                kind.step(ix, step)
            kind.mstep(step)


def touched(ops):
    return {step[1] for step in ops if step[0] in 'iu'}


def one_shared(txns):
    """Let transactions of a round share one document at most.

    With snapshots, updates that change nothing do not conflict: two
    transactions that both touch two documents may each see only the other's
    effect on one of them.
    """
    seen, shared = set(), set()
    for ops in txns:
        more = touched(ops) & seen
        if not shared and more:
            shared = {min(more)}
        ops[:] = [step for step in ops
                  if step[0] not in 'iu' or step[1] not in more - shared]
        seen |= touched(ops)


def contested(done):
    """Documents that two of the committed transactions touch."""
    seen, out = set(), set()
    for ops in done:
        mine = touched(ops)
        out |= seen & mine
        seen |= mine
    return out


def settle(db, kind, start, done, ctx):
    """Find an order of the committed transactions that explains the state."""
    conn, tm = db.open()
    conn.cacheMinimize()
    ix = conn.root()['ix']
    # Known finding topic-same-document: which of these documents a filter
    # holds may come from any of the transactions, for each filter.
    free = contested(done) if kind.name == 'topic' else ()
    first = ''
    for perm in itertools.permutations(done):
        kind.restore(start)
        for ops in perm:
            apply(kind, None, ops)
        if free:
            for fid, (e, ids) in kind.filters.items():
                got = ix.search([fid], 'or')
                for d in free:
                    (ids.add if d in got else ids.discard)(d)
        d = same(kind.observe(ix), kind.expected())
        if not d:
            break
        first = first or d
    else:
        fail('%s index: after the committed transactions %r the state does '
             'not fit any order of them: %s', kind.name, done, first)
    db.drop(conn, tm)


# -- transactions on one large entry ------------------------------------------

ENTRY = (
    'Up to 140 documents of equal or nearly equal contents, so that each '
    'value, keyword, filter or word has one set or mapping of generated '
    'size; then one round of two transactions of one to three updates of '
    'that entry. Same oracle. Non-trivial: both commit without conflict.')


def entry_cases():
    def one(cfg):
        K = kinds.KINDS[cfg[0]]
        return K.contents().flatmap(lambda c: st.tuples(
            st.just(cfg), st.just(c), st.integers(0, 140), st.tuples(*[
                gen.seqs(weighted(
                    (3, st.tuples(st.just('u'), st.integers(0, 30))),
                    (3, st.tuples(st.just('i'), st.integers(0, 20),
                                  weighted((5, st.just(c)),
                                           (1, K.contents())))),
                    *([(1, st.just(('opt',)))] if 'key' in cfg[0] else [])),
                    1, 3, 1.6).map(tuple) for _ in 'ab']),
            st.booleans()))
    return kinds.configs().flatmap(one)


def entry(case, ctx):
    cfg, content, n, txns, swap = case
    kind = kinds.kind(cfg)
    setup = []
    if kind.name == 'topic':
        setup = [('addf', j, e) for j, e in enumerate((6, 5, 1))]
    setup += [('i', 100 + i, content) for i in range(n)]
    rounds = []
    for k, ops in enumerate(txns):
        # removals from either end, additions past the others
        out = []
        for op in ops:
            if op[0] == 'u':
                out.append(('u', 100 + (2 * op[1] + k if op[1] < 20 else
                                        n - 1 - 2 * (op[1] - 20) - k)))
            elif op[0] == 'i':
                out.append(('i', 100 + n + 2 * op[1] + k
                            if op[1] < 14 else 100 + 2 * op[1] + k, op[2]))
            else:
                out.append(op)
        rounds.append((tuple(out), 'any', 'retry'))
    check((cfg, setup, [(tuple(rounds), int(swap))],
           [('i', 100, content), ('u', 101), ('u', 102 + n)]), ctx)


# -- transactions on one entry that has shrunk --------------------------------

SHRUNK = (
    'A value, keyword, filter or word that up to 140 documents had and at '
    'most three still have, while the other contents of these documents '
    'stay; then one round of two transactions: one mostly takes it from the '
    'documents that have it, the other mostly gives it to others. Same '
    'oracle. Non-trivial: both commit without conflict.')


def shrunk_cases():
    def one(cfg):
        K = kinds.KINDS[cfg[0]]
        take = st.tuples(st.sampled_from(['i', 'i', 'u']), st.just('kept'),
                         st.integers(0, 2))
        give = st.tuples(st.just('i'), st.sampled_from(['other', 'new']),
                         st.integers(0, 140))
        anyop = st.tuples(
            st.sampled_from('iiu'), st.sampled_from(['kept', 'other', 'new']),
            st.integers(0, 140))
        return st.tuples(
            st.just(cfg), K.contents(), K.contents(), st.integers(8, 140),
            st.integers(0, 3),
            gen.seqs(weighted((6, take), (1, anyop)), 1, 3, 1.6).map(tuple),
            gen.seqs(weighted((6, give), (1, anyop)), 1, 2, 1.2).map(tuple),
            st.booleans())
    return kinds.configs().flatmap(one)


def shrunk(case, ctx):
    cfg, a, b, n, keep, take, give, swap = case
    kind = kinds.kind(cfg)
    if kind.name in ('okapi', 'cosine', 'keyword', 'cikeyword') and (
            len(set(a)) > 1):
        # the same without a part
        b = tuple(x for x in a if x != a[-1])
    keep = min(keep, n)
    setup = []
    if kind.name == 'topic':
        setup = [('addf', j, e) for j, e in enumerate((1, 0, 11))]
    setup += [('i', 100 + i, a) for i in range(n)]
    setup += [('i', 100 + i, b) for i in range(keep, n)]

    def ops(these):
        out = []
        for op in these:
            has = op[1] == 'kept'
            ref = (100 + op[2] % max(keep, 1) if has else
                   100 + keep + op[2] % max(n - keep, 1)
                   if op[1] == 'other' else 300 + op[2])
            out.append(('u', ref) if op[0] == 'u' else
                       ('i', ref, b if has else a))
        return tuple(out)
    rounds = ((ops(take), 'any', 'retry'), (ops(give), 'any', 'retry'))
    check((cfg, setup, [(rounds, int(swap))],
           [('i', 100, a), ('u', 101), ('u', 300)]), ctx)


# -- overlapping transactions ------------------------------------------------

STAGGERED = (
    'Three workers that begin, change, read, commit or abort transactions in '
    'a generated interleaving, so that transactions span several others and '
    'start from different snapshots. Workers keep to documents of their own, '
    'but for one that all share. Oracle: a transaction that reads sees its '
    'own snapshot with its own changes; after each commit a new connection '
    'sees the state of some order of the transaction and those committed '
    'since its snapshot; only conflict errors are accepted. Non-trivial: a '
    'transaction commits changes after another one, begun later, has '
    'committed changes.')


def staggered_cases():
    def one(cfg):
        K = kinds.KINDS[cfg[0]]
        kw = {'filters': False} if cfg[0] == 'topic' else {'clear': False}
        op = K.ops(bulk=False, **kw)
        event = st.tuples(st.integers(0, 2), weighted(
            (8, st.tuples(st.just('op'), op, st.integers(0, 5))),
            (1, st.just(('read',))), (5, st.just(('commit',))),
            (1, st.just(('abort',)))))
        setup = gen.seqs(weighted(
            (6, K.ops(clear=False)),
            (2, st.tuples(st.just('bi'), gen.refs, gen.bulk_sizes,
                          K.contents(), st.integers(0, 1)))), 0, 10, 5)
        return st.tuples(st.just(cfg), setup, gen.seqs(event, 4, 50, 20))
    return kinds.configs().flatmap(one)


SHARED = 0      # the document all workers use


class Worker:
    def __init__(self, db, state):
        self.conn, self.tm = db.open()
        self.tm.begin()
        self.ix = self.conn.root()['ix']
        self.start, self.ops, self.since = state, [], []


def staggered(case, ctx):
    from ZODB.POSException import ConflictError
    cfg, setup, events = case
    kind = kinds.kind(cfg)
    with Database() as db:
        conn, tm = db.open()
        conn.root()['ix'] = ix = kind.make()
        for op in setup:
            kind.run(ix, op)
        tm.commit()
        db.drop(conn, tm)
        state = kind.save()
        active = {}
        owner = {}      # of other documents than the shared one
        shared = kind.did(SHARED)

        def end(n):
            w = active.pop(n)
            db.drop(w.conn, w.tm)

        def commit(n):
            nonlocal state
            w = active[n]
            try:
                w.tm.commit()
            except ConflictError:
                ctx.label('conflict')
                return end(n)
            end(n)
            # last, or else somewhere among those since its snapshot
            orders = [(state, [w.ops])]
            for i in range(len(w.since) - 1, -1, -1):
                orders.append((w.start,
                               w.since[:i] + [w.ops] + w.since[i:]))
            orders += [(w.start, list(p)) for p in itertools.islice(
                itertools.permutations(w.since + [w.ops]), 24)]
            fits(db, kind, orders, n == 1)
            state = kind.save()
            ctx.nontrivial(w.ops and any(w.since))
            ctx.label('merged', w.ops and any(w.since))
            for other in active.values():
                other.since.append(w.ops)

        for n, ev in events:
            if n not in active:
                active[n] = Worker(db, state)
            w = active[n]
            if ev[0] == 'op':
                op = ev[1]
                if op[0] in ('i', 'u', 'bi', 'bu') and (
                        op[1] != SHARED or ev[2]):
                    op = own(op, n)
                    if op[1] == SHARED:
                        op = op[:1] + (op[1] + 3,) + op[2:]
                kind.restore(w.start)
                for ops in w.ops:
                    kind.mstep(ops)
                steps = elementary(kind, [op])
                if not all(step[0] in 'iu' for step in steps):
                    steps = [s for o in steps for s in (
                        [o] if o[0] in 'iu' else kind.expand(o))]
                for step in steps:
                    if (step[0] in 'iu' and step[1] != shared
                            and owner.setdefault(step[1], n) != n):
                        continue
                    kind.step(w.ix, step)
                    w.ops.append(step)
            elif ev[0] == 'read':
                kind.restore(w.start)
                for step in w.ops:
                    kind.mstep(step)
                kind.verify(w.ix, 'in a transaction')
                ctx.label('read amid others', w.since)
            elif ev[0] == 'commit':
                commit(n)
            else:
                end(n)
        for n in sorted(active):
            commit(n)
    ctx.label(kind.name)


def fits(db, kind, orders, cold):
    """Which of some (state, [steps]) explains the committed state?"""
    conn, tm = db.open()
    if cold:
        # (otherwise with the cache of an earlier use of the connection)
        conn.cacheMinimize()
    ix = conn.root()['ix']
    first = ''
    for start, txns in orders:
        kind.restore(start)
        for steps in txns:
            for step in steps:
                kind.mstep(step)
        if kind.name == 'topic':
            # (known finding topic-same-document)
            d = kind.did(SHARED)
            for fid, (e, ids) in kind.filters.items():
                (ids.add if d in ix.search([fid], 'or') else ids.discard)(d)
        d = same(kind.observe(ix), kind.expected())
        if not d:
            break
        first = first or d
    else:
        fail('%s index: after a commit the state does not fit any order of '
             'the transactions %r: %s', kind.name, orders[0], first)
    db.drop(conn, tm)


def topic_same_document():
    """Two transactions index one document that moves between filters."""
    from ZODB.POSException import ConflictError
    from zope.index.topic import TopicIndex
    from zope.index.topic.filter import PythonFilteredSet
    with Database() as db:
        conn, tm = db.open()
        conn.root()['ix'] = ix = TopicIndex()
        ix.addFilter(PythonFilteredSet('even', 'context % 2 == 0'))
        ix.addFilter(PythonFilteredSet('odd', 'context % 2 == 1'))
        tm.commit()
        two = [db.open(), db.open()]
        for n, (conn, tm) in enumerate(two):
            tm.begin()
            conn.root()['ix'].index_doc(1, n)
        for conn, tm in two:
            try:
                tm.commit()
            except ConflictError:
                return ''
        conn, tm = db.open()
        ix = conn.root()['ix']
        return 'in both' if list(ix.search(['even', 'odd'])) else ''


PROP = Prop('C21', RULE, [
    Sub('schedules', cases, check, 3000, rule=RULE),
    Sub('entry', entry_cases, entry, 3000, rule=ENTRY),
    Sub('shrunk', shrunk_cases, shrunk, 3000, rule=SHRUNK),
    Sub('staggered', staggered_cases, staggered, 3000, rule=STAGGERED)],
            known=[Known(
                'topic-same-document',
                'two concurrent transactions index the same document in a '
                'topic index with contents that satisfy different filters: '
                'both commit and the document is in both filters',
                topic_same_document)],
            assumptions=[
                'topic indexes: which filters hold a document that several '
                'transactions index concurrently is left open (known '
                'finding), and a transaction that changes filters does only '
                'that',
                'transactions of one round share at most one document: '
                'under snapshots, updates without effect do not conflict',
                'connections with MVCC snapshots, as in ZODB 5 and later',
                'transactions are interleaved at whole-transaction '
                'granularity: with snapshots, only the order of commits '
                'matters'])
