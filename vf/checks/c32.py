"""C32 Indexes share no state with other indexes, copies, callers or threads."""
import copy
import pickle
import sys
import threading

from hypothesis import strategies as st

from vf import gen, kinds, query
from vf.checks import _text
from vf.checks._zodb import Database
from vf.core import Prop, Sub, Violation, expect
from vf.gen import weighted
from vf.obs import close, idlist, scores

RULE = (
    'Two to five indexes, of one kind or of several, made at any time of a '
    'generated history that switches between them, some of them copies (by '
    'pickling or deep copying) of others taken in the middle; the lists, '
    'sets and dicts passed in are changed by the caller after each call; all '
    'in memory, or each in a database of its own (with equal oids). '
    'Oracle: one model per index; at every step an index other than the one '
    'changed, and at the end all of them, must agree with their models. '
    'Non-trivial: an index that had documents was copied, and both sides '
    'changed later, or two indexes of one kind both had documents.')
TEXT = (
    'Two or three text indexes with different pipelines, ranking methods and '
    'families, in memory or each in a database of its own (with equal oids), '
    'with interleaved operations and queries of all forms. Oracle: the '
    'boolean meaning and the word scores of each one\'s own reference word '
    'lists. Non-trivial: a query that some index answers with a document is '
    'answered differently by two indexes with equal documents or ids.')
THREADS = (
    'Two to four copies of one filled index, as threads have with a '
    'connection each; each thread runs its own generated operations and all '
    'observations of its kind, under a generated schedule that switches '
    'between threads at chosen lines of zope.index (a trace function hands '
    'over a token, so runs are repeatable). Oracle: one model per thread. '
    'Non-trivial: there were at least 20 switches between threads.')


def cases():
    def one(cfgs):
        n = len(cfgs)
        ops = [kinds.KINDS[c[0]].ops() for c in cfgs]

        def step(i):
            return st.tuples(st.just('op'), st.just(i), st.integers(0, 9),
                             ops[i])
        anyop = st.integers(0, n - 1).flatmap(step)
        fork = st.tuples(st.just('fork'), st.integers(0, 9),
                         st.sampled_from(['pickle', 'deepcopy', 'state']))
        new = st.tuples(st.just('new'), st.integers(0, n - 1))
        return st.tuples(st.just(cfgs), gen.seqs(
            weighted((14, anyop), (2, fork), (1, new)), 1, 40, 16),
            weighted((5, st.just(False)), (2, st.just(True))))
    cfg = kinds.configs()
    same = cfg.map(lambda c: (c,))
    two = st.tuples(cfg, cfg)
    return weighted((4, same), (3, two), (1, st.tuples(cfg, cfg, cfg))
                    ).flatmap(one)


class Caller:
    """Runs operations with arguments that change after the call."""

    def __init__(self, kind):
        self.kind = kind

    def value(self, content):
        k = self.kind
        v = k.__class__.value(k, content)
        if k.name in ('keyword', 'cikeyword'):
            self.n = getattr(self, 'n', 0) + 1
            if self.n % 3 == 0:
                v = k.family.OO.Set(content)
            elif self.n % 7 == 0:
                v = k.family.OO.TreeSet(content)
        elif isinstance(v, dict):
            v = dict(v)
        self.given.append(v)
        return v

    def __call__(self, ix, op):
        k = self.kind
        k.value = self.value
        self.given = []
        try:
            for step in k.expand(op):
                k.step(ix, step)
                k.mstep(step)
                for v in self.given:
                    self.spoil(v)
                del self.given[:]
        finally:
            del k.value

    def spoil(self, v):
        """Change an argument in place."""
        if isinstance(v, list):
            v[:] = v[1:] + v[:1] * 2
        elif isinstance(v, dict):
            for k in list(v):
                v[k] = 5
            v['spoiled'] = 1
        elif hasattr(v, 'clear'):
            new = self.kind.kw(len(v) % 7)
            v.clear()
            (v.add if isinstance(v, set) else v.insert)(new)


class Instance:
    """An index, its model, and maybe a database of its own."""

    def __init__(self, n, cfg, dbs, ix=None, of=None):
        self.n, self.cfg = n, cfg
        self.kind = kinds.kind(cfg)
        if of is None:
            ix = self.kind.make()
        else:
            self.kind.restore(of.kind.save())
            self.kind.ever = dict(of.kind.ever)
        self.conn = None
        if dbs is not None:
            dbs.append(Database(plain=True))
            self.conn, self.tm = dbs[-1].open()
            self.conn.root()['ix'] = ix
        self._ix = ix
        self.run = Caller(self.kind)
        self.forked = self.changed = False
        self.origin = of

    @property
    def ix(self):
        return self._ix if self.conn is None else self.conn.root()['ix']

    def commit(self):
        if self.conn is not None:
            self.tm.commit()
            self.conn.cacheMinimize()

    def verify(self, where):
        self.kind.verify(self.ix, 'index %d, %s' % (self.n, where))


def clone(ix, how):
    if how == 'deepcopy':
        return copy.deepcopy(ix)
    return pickle.loads(pickle.dumps(ix, 2 if how == 'state' else 4))


def check(case, ctx):
    dbs = [] if case[2] else None
    try:
        check_copies(case, ctx, dbs)
    finally:
        for db in dbs or ():
            db.close()


def check_copies(case, ctx, dbs):
    cfgs, steps, stored = case
    groups = [[Instance(i, c, dbs)] for i, c in enumerate(cfgs)]
    every = [g[0] for g in groups]
    if len(cfgs) == 1:
        groups[0].append(Instance(1, cfgs[0], dbs))
        every.append(groups[0][1])
    for s in steps:
        if s[0] == 'op':
            group = groups[s[1]]
            inst = group[s[2] % len(group)]
            inst.run(inst.ix, s[3])
            inst.changed = True
            if s[2] % 3 == 0:
                inst.commit()
            other = every[(s[2] + inst.n) % len(every)]
            if other is not inst:
                other.verify('after an operation on index %d' % inst.n)
            continue
        if len(every) >= 5:
            continue
        if s[0] == 'fork':
            inst = every[s[1] % len(every)]
            new = Instance(len(every), inst.cfg, dbs, clone(inst.ix, s[2]),
                           inst)
            inst.changed = False
            inst.forked = new.forked = bool(inst.kind.docs)
            ctx.label('copied', new.forked)
        else:
            new = Instance(len(every), cfgs[s[1]], dbs)
        every.append(new)
        next(g for g in groups if g[0].cfg == new.cfg).append(new)
    for inst in every:
        inst.commit()
        inst.verify('at the end')
    full = [i.cfg[0] for i in every if i.kind.docs]
    ctx.nontrivial(
        len(full) > len(set(full)) or
        any(i.origin and i.forked and i.changed and i.origin.changed
            for i in every))
    ctx.label(cfgs[0][0])
    ctx.label('databases', stored)


# -- text indexes with different pipelines -----------------------------------

def texts():
    member = gen.families.flatmap(lambda f: st.tuples(
        _text.ranks, st.just(f), _text.pipelines, gen.idmaps(f)))
    step = weighted(
        (8, st.tuples(st.integers(0, 5), query.ops(bulk=False))),
        (3, st.tuples(st.just('ask'), query.queries(slices=True))))
    return query.narrow(st.tuples(
        st.lists(member, min_size=2, max_size=3), gen.seqs(step, 2, 30, 14),
        st.lists(query.queries(slices=True), min_size=1, max_size=4),
        st.booleans()))


def check_texts(case, ctx):
    members, steps, queries, stored = case
    boths = [_text.Both(*m) for m in members]
    dbs, conns = [], []
    try:
        if stored:
            for b in boths:
                dbs.append(Database(plain=True))
                conns.append(dbs[-1].open())
                conns[-1][0].root()['ix'] = b.ix
                conns[-1][1].commit()
        for s in steps:
            if s[0] == 'ask':
                ask(boths, s[1], ctx)
                continue
            # 3 and above: the same document for all
            for b in boths if s[0] >= 3 else [boths[s[0] % len(boths)]]:
                b.run(s[1])
            for conn, tm in conns if s[0] % 2 else ():
                tm.commit()
                conn.cacheMinimize()
        for q in queries:
            ask(boths, q, ctx)
        for b in boths:
            for w in sorted(b.model.vocabulary())[:4]:
                got = scores(b.ix.index.search(w))
                want = b.model.word(w)
                expect(set(got) == set(want) and all(
                    close(got[d], want[d]) for d in got),
                    'word %r: %r instead of %r', w, got, want)
    finally:
        for db in dbs:
            db.close()
    ctx.label('databases', stored)


def ask(boths, q, ctx):
    from zope.index.text.parsetree import ParseError
    q = query.concrete(q, {i: ws for b in boths
                           for i, ws in b.model.docs.items()})
    s = query.text(q)
    answers = []
    for n, b in enumerate(boths):
        try:
            want = set(query.Evaluation(b.model, b.pipeline).run(q))
        except query.Rejected:
            want = None
        try:
            got = set(idlist(b.ix.apply(s), 'query %r' % s))
        except ParseError:
            got = None
        expect(got == want, 'query %r of index %d (of %d) answers %r instead '
               'of %r', s, n, len(boths), got, want)
        answers.append(want)
    ctx.nontrivial(any(answers) and
                   any(a != answers[0] for a in answers))


# -- threads -----------------------------------------------------------------

def threads():
    def one(cfg):
        K = kinds.KINDS[cfg[0]]
        return st.tuples(
            st.just(cfg), gen.seqs(K.ops(), 0, 12, 5),
            st.lists(gen.seqs(K.ops(bulk=False), 0, 6, 3),
                     min_size=2, max_size=4),
            st.lists(weighted((6, st.integers(1, 12)), (2, st.integers(1, 60)),
                              (1, st.integers(1, 1500))),
                     min_size=1, max_size=12))
    return kinds.configs().flatmap(one)


class Scheduler:
    """Runs functions in threads, one at a time, switching at lines of
    zope.index after generated numbers of them."""

    def __init__(self, runs):
        self.runs = runs
        self.at = 0
        self.left = runs[0]
        self.switches = 0
        self.turn = []
        self.alive = []
        self.errors = []

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if 'zope/index' not in name or frame.f_code.co_name == '<module>':
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == 'line':
            self.left -= 1
            if self.left <= 0:
                self.at += 1
                self.left = self.runs[self.at % len(self.runs)]
                self.handover()
        return self.line

    def handover(self):
        me = self.current
        if len(self.alive) < 2:
            return
        nxt = self.alive[(self.alive.index(me) + 1) % len(self.alive)]
        self.switches += 1
        self.current = nxt
        self.turn[nxt].release()
        self.turn[me].acquire()

    def body(self, n, f):
        self.turn[n].acquire()
        try:
            sys.settrace(self.trace)
            try:
                f()
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.errors.append((n, e))
        i = self.alive.index(n)
        self.alive.remove(n)
        if self.alive:
            self.current = self.alive[i % len(self.alive)]
            self.turn[self.current].release()

    def run(self, fs):
        ts = []
        for n, f in enumerate(fs):
            self.turn.append(threading.Semaphore(0))
            self.alive.append(n)
            ts.append(threading.Thread(target=self.body, args=(n, f),
                                       daemon=True))
        for t in ts:
            t.start()
        self.current = 0
        self.turn[0].release()
        for t in ts:
            t.join()
        if self.errors:
            n, e = self.errors[0]
            if isinstance(e, Violation):
                raise Violation('thread %d: %s' % (n, e)) from e
            raise e


def check_threads(case, ctx):
    cfg, setup, each, runs = case
    base = Instance(0, cfg, None)
    for op in setup:
        base.kind.run(base.ix, op)
    data = pickle.dumps(base.ix, 4)
    insts = [Instance(n, cfg, None, pickle.loads(data), base)
             for n in range(len(each))]

    def body(inst, ops):
        def f():
            for op in ops:
                inst.kind.run(inst.ix, op)
            inst.verify('running in a thread')
        return f
    sched = Scheduler(runs)
    sched.run([body(i, ops) for i, ops in zip(insts, each)])
    for i in insts:
        i.verify('after the threads ended')
    base.verify('after the threads of its copies ended')
    ctx.nontrivial(sched.switches >= 20)
    ctx.label(cfg[0])


PROP = Prop('C32', RULE, [
    Sub('copies', cases, check, 4000, rule=RULE),
    Sub('text', texts, check_texts, 2500, rule=TEXT),
    Sub('threads', threads, check_threads, 1500, rule=THREADS)],
            assumptions=['threads never share one index object (they have a '
                         'ZODB connection each); switches only between lines '
                         'of Python code of zope.index'])
