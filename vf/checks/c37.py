"""C37 What is interrupted leaves nothing behind."""
import dis
import os
import pickle
import sys

from hypothesis import strategies as st

from vf import gen, kinds
from vf.checks._zodb import Database
from vf.core import Prop, Sub
from vf.gen import weighted


class Interrupt(KeyboardInterrupt):
    """Not an Exception, as from a signal."""


class Short(MemoryError):
    """An Exception, as from anything that failed."""


# The codes an exception can come from (before those of an exception handler's
# entry and exit, the interpreter would get into disorder).
CODES = {code for name, code in dis.opmap.items() if name.startswith(
    ('LOAD', 'STORE', 'DELETE', 'CALL', 'BINARY', 'BUILD', 'COMPARE',
     'CONTAINS', 'GET_ITER', 'FOR_ITER', 'RETURN', 'UNPACK', 'LIST_APPEND'))}


class Tracer:
    """Count the steps (lines, or byte codes) of the package, and raise an
    exception before one of them."""

    def __init__(self, opcodes, error):
        import zope.index
        self.home = os.path.dirname(zope.index.__file__) + os.sep
        self.opcodes = opcodes
        self.error = error
        self.event = 'opcode' if opcodes else 'line'

    def _call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.home):
            return None
        frame.f_trace_opcodes = self.opcodes
        return self._step

    def _step(self, frame, event, arg):
        if (event == self.event and
                frame.f_code.co_code[frame.f_lasti] in CODES):
            if self.count == self.at:
                sys.settrace(None)
                self.raised = True
                raise self.error('interrupted')
            self.count += 1
        return self._step

    def run(self, at, f, *args):
        """(whether it was interrupted, the number of steps)"""
        self.count = 0
        self.at = at
        self.raised = False
        sys.settrace(self._call)
        try:
            f(*args)
        except self.error:
            if not self.raised:
                raise
        finally:
            sys.settrace(None)
        return self.raised, self.count

    def interrupt(self, where, f, *args):
        """Interrupt after this part (in thousandths) of the steps."""
        return self.run(where, f, *args)[0]


HOW = st.tuples(st.booleans(), st.booleans())


def tracer(how):
    return Tracer(how[0], Interrupt if how[1] else Short)


# -- updates -----------------------------------------------------------------

RULE = (
    'An index of any kind in a ZODB database, all of whose updates are '
    'interrupted before a generated line or byte code of the package by an '
    'exception (one a signal raises, or one of a failed allocation), and '
    'aborted, at up to 16 points one after another, with nothing evicted. Oracle: the model of the committed '
    'operations, on the same connection, at once or after other changes, and '
    'on a new one. Non-trivial: an update of an index with documents was '
    'interrupted.')


def update_cases():
    def one(cfg):
        K = kinds.KINDS[cfg[0]]
        op = K.ops(bulk=False)
        step = st.tuples(
            weighted((8, op),
                     (4, st.tuples(st.just('i'), st.integers(0, 5),
                                   K.contents())),
                     (3, st.tuples(st.just('u'), st.integers(0, 5)))),
            st.integers(0, 999), st.integers(1, 16), HOW, st.integers(0, 2),
            weighted((4, st.just(())),
                     (1, st.lists(op, min_size=1, max_size=2).map(tuple))),
            weighted((4, st.just(())), (1, st.just((None,))),
                     (2, st.lists(op, min_size=1, max_size=3).map(tuple))))
        return st.tuples(st.just(cfg), gen.seqs(K.ops(), 1, 24, 9),
                         gen.seqs(step, 1, 16, 7),
                         st.sampled_from([None, None, 1, 2, 3, 5]))
    return kinds.configs().flatmap(one)


def steps_of(kind, ix, op, how):
    """The number of steps an operation takes, on a copy."""
    copy = kind.prepare(pickle.loads(pickle.dumps(ix)))
    t = tracer(how)
    return t.run(-1, lambda: kind.run(copy, op, model=False))[1]


def update_check(case, ctx):
    cfg, setup, steps, cutoff = case
    kind = kinds.kind(cfg)
    with Database() as db:
        conn, tm = db.open()
        conn.root()['ix'] = ix = kind.make()
        if cutoff and kind.name in ('okapi', 'cosine'):
            # the postings of a word get a tree sooner
            kind.base(ix).DICT_CUTOFF = cutoff
        for op in setup:
            kind.run(ix, op)
        tm.commit()
        saved = kind.save()
        for op, where, points, how, look, before, after in steps:
            n = None
            for p in range(points):
                for o in before:
                    kind.run(ix, o)
                if n is None:
                    n = steps_of(kind, ix, op, how)
                done = tracer(how).interrupt(
                    (where + p * 1000 // points) % 1000 * n // 1000,
                    lambda: kind.run(ix, op, model=False))
                tm.abort()
                kind.restore(saved)
                if done:
                    ctx.nontrivial(kind.docs)
                    ctx.label('byte code' if how[0] else 'line')
            if look:
                kind.verify(ix, 'after an interrupted %r' % (op,))
            if look == 2:
                conn.cacheMinimize()
                kind.verify(ix, 'after an interrupted %r, reloaded' % (op,))
            for o in after:
                # (None: the same again)
                kind.run(ix, op if o is None else o)
                ctx.label('tried again', o is None)
            if after:
                tm.commit()
                saved = kind.save()
        kind.verify(ix, 'at the end')
        tm.abort()
        conn.cacheMinimize()
        kind.verify(ix, 'at the end, reloaded')
    ctx.label(kind.name)


# -- queries -----------------------------------------------------------------

QUERIES = (
    'Queries, sorts and counts of an index of any kind, in memory or in a '
    'database, interrupted in the same way. Oracle: the model, afterwards, '
    'without aborting anything, and after further updates. Non-trivial: a '
    'query of an index with documents was interrupted.')


def query_cases():
    def one(cfg):
        K = kinds.KINDS[cfg[0]]
        stop = st.tuples(st.integers(0, 99), st.integers(0, 999), HOW)
        step = st.tuples(gen.seqs(stop, 1, 12, 6).map(tuple),
                         st.lists(K.ops(bulk=False), max_size=2).map(tuple))
        return st.tuples(st.just(cfg), st.booleans(),
                         gen.seqs(K.ops(), 1, 20, 8), gen.seqs(step, 1, 8, 4))
    return kinds.configs().flatmap(one)


def queries(kind, ix):
    """Calls that query the index."""
    def call(f, *args, **kw):
        def q():
            result = f(*args, **kw)
            return result if result is None else list(result)
        out.append(q)
    out = []
    if kind.name == 'field':
        vs = kind.probes()
        for lo, hi in zip(vs, vs[1:] + vs[:1]):
            call(ix.apply, (lo, None))
            call(ix.apply, (min(lo, hi, key=gen.skey), hi))
        ids = sorted(kind.docs) + [kind.did(0), kind.did(1)]
        for k in range(4):
            call(ix.sort, ids, reverse=bool(k % 2), limit=[None, 2][k // 2])
            call(ix.sort, ids[::3], limit=k + 1)
    elif 'keyword' in kind.name:
        kws = kind.probes()[:8]
        for i, a in enumerate(kws):
            for b in kws[i:]:
                call(ix.search, [a, b], ['and', 'or'][i % 2])
        call(ix.apply, {'query': kws, 'operator': 'or'})
    elif kind.name == 'topic':
        fids = sorted(kind.filters)
        for op in 'and', 'or':
            for a in fids:
                for b in fids:
                    call(ix.search, [a, b], op)
            call(ix.apply, {'query': fids, 'operator': op})
    else:
        b = kind.base(ix)
        for w in kind.probes():
            call(b.search, w)
            call(b.search_phrase, w + ' apple')
        for g in 'app*', 'w0*', 'p*', 'f?g':
            call(b.search_glob, g)
        for q in kinds.QUERIES:
            if kind.extra:
                call(ix.apply, q)
                call(ix.apply, 'zebra OR p* OR app* OR ' + q)
    out.append(ix.documentCount if hasattr(ix, 'documentCount')
               else lambda: None)
    return out


def query_check(case, ctx):
    cfg, stored, setup, steps = case
    kind = kinds.kind(cfg)
    with Database() as db:
        ix = kind.make()
        for op in setup:
            kind.run(ix, op)
        if stored:
            conn, tm = db.open()
            conn.root()['ix'] = ix
            tm.commit()
        for stops, ops in steps:
            calls = queries(kind, ix)
            # (counted on a copy that has not seen the query)
            fresh = queries(kind, kind.prepare(
                pickle.loads(pickle.dumps(ix))))
            for which, where, how in stops:
                q = calls[which % len(calls)]
                n = tracer(how).run(-1, fresh[which % len(calls)])[1]
                done = tracer(how).interrupt(where * n // 1000, q)
                ctx.nontrivial(done and kind.docs)
            kind.verify(ix, 'after an interrupted query')
            for op in ops:
                kind.run(ix, op)
        kind.verify(ix, 'at the end')
        if stored:
            tm.commit()
            conn.cacheMinimize()
            kind.verify(ix, 'at the end, reloaded')
    ctx.label(kind.name)


PROP = Prop('C37', RULE, [
    Sub('updates', update_cases, update_check, 5000, rule=RULE),
    Sub('queries', query_cases, query_check, 2400, rule=QUERIES)],
            assumptions=[
                'an exception can come before any line or byte code of the '
                'package; inside BTrees and persistent it is not injected'])
