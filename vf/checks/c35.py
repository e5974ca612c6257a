"""C35 Updates stay local."""
from hypothesis import strategies as st

from vf import gen, kinds
from vf.checks._zodb import Database
from vf.core import Prop, Sub, expect, fail
from vf.gen import weighted

RULE = (
    'A small field, keyword or topic index (up to about 25 documents, so that '
    'no bucket splits) in a database, with lasting documents of every content '
    'used; then two transactions from one snapshot that index new documents '
    'or remove documents, each of its own. Oracle: both commit without a '
    'conflict error, and the index answers as the model does. Non-trivial: '
    'both change the index.')


def configs():
    def one(cfg):
        name, f, idmap, extra = cfg
        if name == 'topic':
            # membership must not depend on the document id
            extra = tuple(e for e in extra if e != 5) or (0,)
        if 'key' in name:
            extra = (extra[0], extra[1] if extra[1] in (None, 1, 2) else None)
        return (name, f, idmap, extra)
    return kinds.configs(['field', 'keyword', 'cikeyword', 'topic']).map(one)


def cases():
    def one(cfg):
        K = kinds.KINDS[cfg[0]]
        content = K.contents()
        op = st.tuples(weighted((3, st.just('i')), (1, st.just('u'))),
                       st.integers(0, 5), st.integers(0, 4))
        return st.tuples(
            st.just(cfg), st.lists(content, min_size=2, max_size=5),
            st.tuples(*[gen.seqs(op, 1, 5, 2.5).map(tuple) for _ in 'ab']),
            st.booleans())
    return configs().flatmap(one)


def check(case, ctx):
    from ZODB.POSException import ConflictError
    cfg, pool, txns, swap = case
    kind = kinds.kind(cfg)

    def content(c):
        return pool[c % len(pool)]

    def own(ops, k):
        """Documents of transaction k: (add, content) for each."""
        return {gen.BULK + 30 + 10 * k + doc: (what == 'i', content(c))
                for what, doc, c in ops}

    def steps(docs):
        out = []
        for ref, (add, c) in docs.items():
            out += kind.expand(('i', ref, c) if add else ('u', ref))
        return out

    with Database() as db:
        conn, tm = db.open()
        conn.root()['ix'] = ix = kind.make()
        n = 0
        for c in range(len(pool)):
            for k in (0, 1):
                kind.run(ix, ('i', gen.BULK + n, content(c)))
                n += 1
        # documents that the transactions may find
        for ops, k in zip(txns, (0, 1)):
            for ref, (add, c) in own(ops, k).items():
                if not add:
                    kind.run(ix, ('i', ref, c))
        tm.commit()
        opened = []
        for k in (0, 1):
            conn, tm = db.open()
            tm.begin()
            for step in steps(own(txns[k], k)):
                kind.step(conn.root()['ix'], step)
            opened.append((k, conn, tm))
        both = all(conn._registered_objects for k, conn, tm in opened)
        for k, conn, tm in opened[::-1 if swap else 1]:
            try:
                tm.commit()
            except ConflictError as e:
                fail('%s index: transactions about different documents and '
                     'different or lasting contents conflict: %s',
                     kind.name, e)
            for step in steps(own(txns[k], k)):
                kind.mstep(step)
        conn, tm = db.open()
        conn.cacheMinimize()
        kind.verify(conn.root()['ix'], 'after both transactions')
    ctx.nontrivial(both)
    ctx.label(kind.name)


# -- what an update writes ----------------------------------------------------

WRITES = (
    'A field, keyword or text index with hundreds or thousands of documents '
    'of varied, short contents, in a database. Then a few updates of single '
    'documents, each committed on its own (objects are evicted in between). '
    'Oracle: a commit stores at most 60 objects, none larger than 9000 '
    'bytes, however many documents there are. Non-trivial: more than 1500 '
    'documents.')


def big_cases():
    def one(cfg):
        K = kinds.KINDS[cfg[0]]
        content = gen.valrefs if cfg[0] == 'field' else st.lists(
            st.integers(0, 20), max_size=6).map(tuple)
        op = weighted((3, st.tuples(st.just('i'), st.integers(0, 2400),
                                    content, st.integers(0, 5))),
                      (1, st.tuples(st.just('u'), st.integers(0, 2400))))
        return st.tuples(st.just(cfg), st.sampled_from([400, 1600, 2400]),
                         st.lists(content, min_size=1, max_size=4),
                         gen.seqs(op, 1, 6, 4))
    return kinds.configs(['field', 'keyword', 'cikeyword', 'okapi',
                          'cosine']).flatmap(one)


def big_check(case, ctx):
    cfg, n, pool, ops = case
    name, f, (ids, base, stride), extra = cfg
    if 'key' in name:
        extra = (extra[0], None)
    kind = kinds.kind((name, f, (ids, base, 1), extra))
    stored = []
    with Database() as db:
        conn, tm = db.open()
        conn.root()['ix'] = ix = kind.make()
        for i in range(n):
            kind.step(ix, ('i', kind.did(gen.BULK + i),
                           kind.content(pool[i % len(pool)], i % 97)))
        tm.commit()
        storage = conn._normal_storage
        store = storage.store

        def record(oid, serial, data, *args):
            stored.append(len(data))
            return store(oid, serial, data, *args)
        storage.store = record
        for op in ops:
            conn.cacheMinimize()
            ix = conn.root()['ix']
            d = kind.did(gen.BULK + op[1])
            if op[0] == 'i':
                kind.step(ix, ('i', d, kind.content(op[2], op[3])))
            else:
                kind.step(ix, ('u', d))
            del stored[:]
            tm.commit()
            expect(len(stored) <= 60 and max(stored, default=0) <= 9000,
                   '%s index of %d documents: %r stores %d objects, the '
                   'largest has %d bytes', kind.name, n, op, len(stored),
                   max(stored, default=0))
    ctx.nontrivial(n > 1500)
    ctx.label(kind.name)


PROP = Prop('C35', RULE, [
    Sub('merge', cases, check, 4000, rule=RULE),
    Sub('writes', big_cases, big_check, 160, rule=WRITES)],
    assumptions=[
        'Text indexes keep the documents of a word in plain mappings, which '
        'BTrees does not merge: concurrent updates of one bucket of words '
        'conflict (the sources say so).',
        'The buckets of topic filters are not trees: they grow with the '
        'documents.'])
