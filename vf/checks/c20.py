"""C20 Indexes persist: commits last, aborts leave nothing."""
import pickle

from hypothesis import strategies as st

from vf import gen, kinds
from vf.checks._zodb import Database
from vf.core import Prop, Sub
from vf.gen import weighted

RULE = (
    'An index of any kind in a ZODB database; operations interleaved at '
    'generated points with commits, aborts, savepoint rollbacks, eviction of '
    'all cached objects, reopening (losing what is uncommitted), pickling, '
    'and reading on another connection that keeps its cache. Oracle: a model '
    'whose state is saved at commits and restored at aborts, compared after '
    'every such event and in between, on the working connection and on new ones; the other '
    'connection sees the state it last synchronized to. Non-trivial: operations follow a commit and are '
    'aborted or committed, with documents in the index.')


def cases():
    def one(cfg):
        K = kinds.KINDS[cfg[0]]
        op = weighted(
            (12, K.ops()),
            (4, st.just(('commit',))),
            (4, st.tuples(st.just('abort'), st.integers(0, 2))),
            (2, st.just(('look',))),
            (2, st.just(('evict',))), (1, st.just(('reopen',))),
            (1, st.just(('pickle',))),
            (1, st.just(('read',))), (2, st.just(('sync',))),
            (1, st.tuples(st.just('savepoint'),
                          gen.seqs(K.ops(bulk=False), 1, 4, 2).map(tuple),
                          st.booleans())))
        return st.tuples(st.just(cfg), gen.seqs(op, 3, 60, 24))
    return kinds.configs().flatmap(one)


def check(case, ctx):
    cfg, ops = case
    kind = kinds.kind(cfg)
    with Database() as db:
        conn, tm = db.open()
        conn.root()['ix'] = kind.make()
        tm.commit()
        saved = kind.save()
        reader, rtm = db.open()
        rtm.begin()
        seen = saved
        changed = commits = 0

        def read(where):
            mine = kind.save()
            kind.restore(seen)
            kind.verify(reader.root()['ix'], where)
            kind.restore(mine)

        for op in ops:
            ix = conn.root()['ix']
            if op[0] == 'read':
                ctx.label('old snapshot', seen is not saved)
                read('the snapshot of another connection')
            elif op[0] == 'sync':
                ctx.label('new snapshot', seen is not saved)
                rtm.begin()
                seen = saved
                read('another connection, synchronized')
            elif op[0] == 'commit':
                tm.commit()
                saved = kind.save()
                commits += 1
                fresh(db, kind, 'a new connection after a commit')
                ctx.nontrivial(commits > 1 and changed and len(kind.docs) > 1)
                changed = 0
            elif op[0] == 'abort':
                tm.abort()
                kind.restore(saved)
                # (looking may hide what is remembered wrongly)
                if op[1]:
                    kind.verify(ix, 'after an abort')
                if op[1] == 2:
                    conn.cacheMinimize()
                    kind.verify(ix, 'after an abort, reloaded')
                ctx.nontrivial(commits and changed and len(kind.docs) > 1)
                ctx.label('aborted changes', changed)
                changed = 0
            elif op[0] == 'look':
                kind.verify(ix, 'in a transaction')
            elif op[0] == 'evict':
                # unmodified objects are reloaded, modified ones kept
                conn.cacheMinimize()
                kind.verify(ix, 'after a cache eviction')
                ctx.label('evicted with changes', changed)
            elif op[0] == 'reopen':
                db.drop(conn, tm)
                conn, tm = db.open()
                kind.restore(saved)
                changed = 0
                kind.verify(conn.root()['ix'], 'reopened')
            elif op[0] == 'pickle':
                kind.verify(pickle.loads(pickle.dumps(ix)), 'unpickled')
            elif op[0] == 'savepoint':
                sp = tm.savepoint()
                here = kind.save()
                for o in op[1]:
                    kind.run(ix, o)
                if op[2]:
                    sp.rollback()
                    kind.restore(here)
                    ix = conn.root()['ix']
                    kind.verify(ix, 'after a rollback')
                else:
                    tm.savepoint()
                    conn.cacheMinimize()
                    kind.verify(ix, 'after a savepoint')
                    changed += 1
                ctx.label('savepoint')
            else:
                kind.run(ix, op)
                changed += 1
        kind.verify(conn.root()['ix'], 'at the end')
        tm.commit()
        fresh(db, kind, 'a new connection at the end')
        rtm.begin()
        kind.verify(reader.root()['ix'], 'another connection at the end')
        copy = pickle.loads(pickle.dumps(conn.root()['ix']))
        kind.verify(copy, 'unpickled at the end')
    ctx.label(kind.name)


def fresh(db, kind, where):
    conn, tm = db.open()
    # nothing from the cache of an earlier use of the connection
    conn.cacheMinimize()
    kind.verify(conn.root()['ix'], where)
    db.drop(conn, tm)


# -- something else instead ---------------------------------------------------

RETRIED = (
    'A few operations on a small index, looked at and aborted, then a few '
    'others of the same shape, without evicting anything. Oracle: the model. '
    'Non-trivial: both changed an index with documents.')


def retry_cases():
    def one(cfg):
        K = kinds.KINDS[cfg[0]]
        if cfg[0] in ('field', 'topic'):
            content = K.contents()
        else:
            content = st.lists(st.integers(0, 8), min_size=1,
                               max_size=2).map(tuple)
        op = weighted((9, st.tuples(st.just('i'), st.integers(0, 4), content)),
                      (3, st.tuples(st.just('u'), st.integers(0, 4))),
                      (1, K.ops(bulk=False)))
        some = st.lists(op, min_size=1, max_size=2)
        return st.tuples(
            st.just(cfg), st.lists(op, max_size=3),
            st.lists(st.tuples(some, some, st.integers(0, 3)), min_size=1,
                     max_size=5))
    return kinds.configs().flatmap(one)


def retry_check(case, ctx):
    cfg, setup, rounds = case
    kind = kinds.kind(cfg)
    with Database() as db:
        conn, tm = db.open()
        conn.root()['ix'] = ix = kind.make()
        for op in setup:
            kind.run(ix, op)
        tm.commit()
        saved = kind.save()
        for a, b, mode in rounds:
            for op in a:
                kind.run(ix, op)
            kind.verify(ix, 'in a transaction')
            first = kind.save()
            tm.abort()
            kind.restore(saved)
            for op in b:
                kind.run(ix, op)
            ctx.nontrivial(saved != first and saved != kind.save() and
                           kind.docs)
            kind.verify(ix, 'after an abort and other changes')
            if mode:
                tm.commit()
                saved = kind.save()
            else:
                tm.abort()
                kind.restore(saved)
        kind.verify(ix, 'at the end')
        fresh(db, kind, 'a new connection at the end')
    ctx.label(kind.name)


# -- failing storages --------------------------------------------------------

FAULTS = (
    'The same, on a storage which fails at a generated load during an '
    'operation or a query (after all cached objects were evicted), once or '
    'from then on, or at the commit. Oracle: a failed operation or commit, '
    'aborted, leaves nothing, on the same connection and on a new one; a '
    'query on a failing storage (of an index with small trees) fails or '
    'gives the right answer, and repeated, it gives the right answer. Non-trivial: a failure was raised '
    'in an operation on an index with documents.')


class Broken(Exception):
    """What a lost connection to a storage raises."""


class Trip:
    """Make the n-th load of a connection fail, or the next store."""

    def __init__(self, conn):
        self.storage = conn._normal_storage
        self.left = None
        self.once = False
        self.store_left = None
        self.load = self.storage.load
        self.store = self.storage.store
        self.storage.load = self._load
        self.storage.store = self._store

    def _load(self, oid, *a):
        if self.left is not None:
            if self.left == 0:
                if self.once:
                    self.left = None
                raise Broken('load')
            self.left -= 1
        return self.load(oid, *a)

    def _store(self, *a):
        if self.store_left is not None:
            if self.store_left == 0:
                raise Broken('store')
            self.store_left -= 1
        return self.store(*a)

    def arm(self, n):
        # 0, 1, ...: from that load on; -1, -2, ...: only that load
        self.once = n < 0
        self.left = -1 - n if n < 0 else n

    def off(self):
        self.left = self.store_left = None


def fault_cases():
    def one(arg):
        cfg, bulk = arg
        K = kinds.KINDS[cfg[0]]
        n = st.sampled_from([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10, 14, 20])
        if not bulk:
            n = n.flatmap(lambda n: st.sampled_from([n, -1 - n]))
        step = weighted(
            (8, st.tuples(st.just('op'), K.ops(bulk=False), n)),
            (3, st.tuples(st.just('query'), n)),
            (2, st.tuples(st.just('commit'),
                          gen.seqs(K.ops(bulk=False), 1, 4, 2).map(tuple),
                          n.map(lambda n: -1 - n if n < 0 else n))))
        return st.tuples(st.just(cfg), gen.seqs(K.ops(bulk=bulk), 2, 30, 10),
                         gen.seqs(step, 1, 12, 6), st.just(bulk))
    return st.tuples(kinds.configs(), st.booleans()).flatmap(one)


def fault_check(case, ctx):
    # When BTrees' set operations fail to load a bucket that is not the first
    # of its tree, they take this for the end of the tree. So what is found
    # while the storage fails is compared only where no tree has two buckets.
    cfg, setup, steps, bulk = case
    kind = kinds.kind(cfg)
    with Database() as db:
        conn, tm = db.open()
        conn.root()['ix'] = ix = kind.make()
        for op in setup:
            kind.run(ix, op)
        tm.commit()
        trip = Trip(conn)
        saved = kind.save()
        for step in steps:
            ix = conn.root()['ix']
            conn.cacheMinimize()
            failed = False
            if step[0] == 'op':
                trip.arm(step[2])
                try:
                    kind.run(ix, step[1])
                except Broken:
                    failed = True
                trip.off()
                if failed:
                    ctx.nontrivial(len(saved) and kind.docs)
            elif step[0] == 'query':
                trip.arm(step[1])
                try:
                    if bulk:
                        kind.observe(ix)
                    else:
                        kind.verify(ix, 'on a failing storage')
                except Broken:
                    ctx.label('failed query')
                trip.off()
                kind.verify(ix, 'after a failed query')
            else:
                for op in step[1]:
                    kind.run(ix, op)
                trip.store_left = step[2]
                try:
                    tm.commit()
                except Broken:
                    failed = True
                    ctx.label('failed commit')
                trip.off()
            if failed:
                tm.abort()
                kind.restore(saved)
                kind.verify(ix, 'after a failure')
                conn.cacheMinimize()
                kind.verify(ix, 'after a failure, reloaded')
                fresh(db, kind, 'a new connection after a failure')
            else:
                tm.commit()
                saved = kind.save()
        kind.verify(conn.root()['ix'], 'at the end')
        fresh(db, kind, 'a new connection at the end')
    ctx.label(kind.name)


# -- the history of a database -----------------------------------------------

HISTORY = (
    'An index in a FileStorage (in a scratch directory) with commits, undo '
    'of the last transactions, packing, closing and opening the file again, '
    'historical connections and copying the index by export and import. '
    'Oracle: the model states of the commits. Non-trivial: a past state '
    'that differs from the last one was read or restored.')


def history_cases():
    def one(cfg):
        K = kinds.KINDS[cfg[0]]
        step = weighted(
            (5, st.tuples(st.just('commit'),
                          gen.seqs(K.ops(), 1, 5, 2.5).map(tuple))),
            (2, st.tuples(st.just('undo'), st.integers(1, 3))),
            (1, st.just(('pack',))), (1, st.just(('restart',))),
            (2, st.tuples(st.just('at'), st.integers(0, 20))),
            (1, st.just(('copy',))))
        return st.tuples(st.just(cfg), gen.seqs(step, 2, 16, 7))
    return kinds.configs().flatmap(one)


def history_check(case, ctx):
    import base64
    import io
    import os
    import shutil
    import tempfile

    import transaction
    from ZODB.DB import DB
    from ZODB.FileStorage import FileStorage
    cfg, steps = case
    kind = kinds.kind(cfg)
    ram = '/dev/shm'
    tmp = tempfile.mkdtemp(
        prefix='c20-', dir=ram if os.access(ram, os.W_OK) else None)
    db = None

    def start():
        nonlocal db
        db = DB(FileStorage(os.path.join(tmp, 'data.fs')))
        tm = transaction.TransactionManager()
        return db.open(transaction_manager=tm), tm

    def look(where, conn):
        kind.verify(conn.root()['ix'], where)
    try:
        conn, tm = start()
        conn.root()['ix'] = kind.make()
        tm.commit()
        # states[i] is that after the transaction tids[i]
        states, tids = [kind.save()], [db.lastTransaction()]
        past = list(zip(tids, states))       # as seen since the last pack
        for step in steps:
            if step[0] == 'commit':
                for op in step[1]:
                    kind.run(conn.root()['ix'], op)
                tm.commit()
                if db.lastTransaction() != past[-1][0]:
                    states.append(kind.save())
                    tids.append(db.lastTransaction())
                    past.append((tids[-1], states[-1]))
            elif step[0] == 'undo':
                n = min(step[1], len(states) - 1)
                if not n:
                    continue
                ids = [base64.encodebytes(t).rstrip()
                       for t in reversed(tids[-n:])]
                db.undoMultiple(ids, tm.get())
                tm.commit()
                ctx.nontrivial(states[-1] != states[-1 - n])
                ctx.label('undo')
                del states[-n:], tids[-n:]
                kind.restore(states[-1])
                tm.begin()
                look('after undoing %d transactions' % n, conn)
                past.append((db.lastTransaction(), states[-1]))
                # (what was undone cannot be undone again by these ids)
                states, tids = states[-1:], [db.lastTransaction()]
            elif step[0] == 'pack':
                db.pack()
                conn.cacheMinimize()
                look('after packing', conn)
                states, tids, past = states[-1:], tids[-1:], past[-1:]
            elif step[0] == 'restart':
                conn.close()
                db.close()
                conn, tm = start()
                look('after a restart', conn)
            elif step[0] == 'at':
                tid, state = past[-1 - step[1] % len(past)]
                old = db.open(at=tid, transaction_manager=(
                    transaction.TransactionManager()))
                kind.restore(state)
                look('as of an earlier transaction', old)
                ctx.nontrivial(state != past[-1][1])
                ctx.label('earlier state', state != past[-1][1])
                old.close()
                kind.restore(past[-1][1])
            else:
                f = io.BytesIO()
                conn.exportFile(conn.root()['ix']._p_oid, f)
                f.seek(0)
                conn.root()['copy'] = conn.importFile(f)
                tm.commit()
                states, tids = states[-1:], [db.lastTransaction()]
                past.append((tids[-1], states[-1]))
                kind.verify(conn.root()['copy'], 'an imported copy')
                ctx.label('imported')
        look('at the end', conn)
        conn.close()
    finally:
        if db is not None:
            db.close()
        shutil.rmtree(tmp)
    ctx.label(kind.name)


PROP = Prop('C20', RULE, [
    Sub('storage', cases, check, 5000, rule=RULE),
    Sub('retried', retry_cases, retry_check, 2500, rule=RETRIED),
    Sub('faults', fault_cases, fault_check, 3000, rule=FAULTS),
    Sub('history', history_cases, history_check, 1500, rule=HISTORY)],
            assumptions=[
                'DemoStorage and FileStorage stand for any storage: a crash is equivalent '
                'to reopening without the uncommitted transaction',
                'expressions of stored filters are not changed in place'])
