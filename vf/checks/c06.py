"""C06 Topic sets follow their filters; queries combine them exactly."""
from hypothesis import strategies as st

from vf import gen
from vf.core import Prop, Sub, expect
from vf.gen import refs, weighted
from vf.kinds import EXPRS, Topic, holds
from vf.obs import diff, idlist, raises

RULE = (
    'Histories of adding, replacing, deleting and clearing filters (Python '
    'expressions that hold, fail or are broken, and custom filters), changing '
    'expressions, and indexing, reindexing and unindexing objects on a '
    'TopicIndex, with every query form; compared with per-filter reference '
    'sets computed by reference predicates. Non-trivial: some document '
    'leaves a filter by reindexing, or a filter is cleared or replaced while '
    'it has documents, and some query answer is not empty.')

exprs = st.integers(0, len(EXPRS) - 1)
fids = st.integers(0, 4)
queries = st.tuples(st.sampled_from(['search', 'apply', 'dict', 'dict1',
                                     'tuple', 'str']),
                    st.lists(st.integers(0, 9), max_size=4).map(tuple),
                    st.sampled_from(['and', 'or']))


def ops():
    return weighted(
        (12, st.tuples(st.just('i'), refs, Topic.contents())),
        (3, st.tuples(st.just('u'), refs)),
        (1, st.tuples(st.just('bi'), refs, gen.bulk_sizes, Topic.contents(),
                      st.integers(0, 2))),
        (1, st.tuples(st.just('bu'), refs, gen.bulk_sizes)),
        (2, st.tuples(st.just('addf'), fids, exprs,
                      st.sampled_from(['py', 'py', 'custom']))),
        (1, st.tuples(st.just('delf'), fids)),
        (1, st.just(('clf',))),
        (1, st.tuples(st.just('clear1'), fids)),
        (2, st.tuples(st.just('setexpr'), fids, exprs)),
        (1, st.just(('c',))),
        (2, st.tuples(st.just('q'), queries)))


def strategy():
    return gen.families.flatmap(lambda f: st.tuples(
        st.just(f), gen.idmaps(f), Topic.extras(),
        gen.seqs(ops(), 1, 50, 16),
        st.lists(queries, min_size=3, max_size=8)))


def custom_filter(f, fid, e):
    """A filter that is not built on the package's base class."""
    class Custom:
        def __init__(self):
            self.e = e
            self.ids = gen.fam(f).IF.TreeSet()

        def clear(self):
            self.ids.clear()

        def getId(self):
            return fid

        def index_doc(self, docid, context):
            if holds(self.e, context, docid):
                self.ids.insert(docid)
            elif docid in self.ids:
                self.ids.remove(docid)

        def unindex_doc(self, docid):
            if docid in self.ids:
                self.ids.remove(docid)

        def getIds(self):
            return self.ids

        def setExpression(self, expr):
            self.e = [x for x, _ in EXPRS].index(expr)

        def getExpression(self):
            return EXPRS[self.e][0]
    return Custom()


def check(case, ctx):
    f, idmap, initial, ops_, final = case
    kind = Topic(('topic', f, idmap, initial))
    ix = kind.make()
    # the objects that are in the index
    real = {}
    ix.clear()
    for fid, (e, ids) in kind.filters.items():
        real[fid] = kind.filter(fid, e)
        ix.addFilter(real[fid])
    flags = set()

    def query(form, which, op):
        if not kind.filters:
            return
        names = sorted(kind.filters)
        q = [names[j % len(names)] for j in which]
        if form == 'str':
            q = q[:1] or names[:1]
            if op == 'and':
                got = ix.apply(q[0])
            else:
                got = ix.apply({'operator': op, 'query': q[0]})
        elif form == 'apply':
            got, op = ix.apply(q), 'and'
        elif form == 'tuple':
            got = ix.search(tuple(q), operator=op)
        elif form == 'dict':
            got = ix.apply({'operator': op, 'query': q})
        elif form == 'dict1':
            got, op = ix.apply({'query': tuple(q)}), 'and'
        else:
            got = ix.search(q, op)
        sets = [kind.filters[x][1] for x in q]
        if not sets:
            want = set()
        elif op == 'or':
            want = set().union(*sets)
        else:
            want = set.intersection(*sets)
        what = '%s query %r (%s)' % (op, q, form)
        got = idlist(got, what)
        expect(set(got) == want, '%s: %s', what, diff(got, want))
        if want:
            flags.add('answer')
            ctx.label('combined', len(set(q)) > 1)

    def filters():
        for fid, fl in real.items():
            want = kind.filters[fid][1]
            got = idlist(fl.getIds(), 'filter %s' % fid)
            expect(set(got) == want, 'filter %s (%s): %s', fid,
                   fl.getExpression(), diff(got, want))

    for op in ops_:
        name = op[0]
        fid = 'f%d' % op[1] if len(op) > 1 and name in (
            'addf', 'delf', 'clear1', 'setexpr') else None
        had = bool(fid in kind.filters and kind.filters[fid][1])
        if name == 'addf':
            fl = (custom_filter(f, fid, op[2]) if op[3] == 'custom' else
                  kind.filter(fid, op[2]))
            ix.addFilter(fl)
            real[fid] = fl
            kind.filters[fid] = [op[2], set()]
            if had:
                flags.add('replaced')
        elif name == 'delf':
            if fid in kind.filters:
                ix.delFilter(fid)
                del kind.filters[fid], real[fid]
            else:
                r = raises(KeyError, ix.delFilter, fid)
                expect(not r, 'delFilter of an unknown filter %s', r)
        elif name == 'clear1':
            if fid in kind.filters:
                real[fid].clear()
                kind.filters[fid][1] = set()
                if had:
                    flags.add('cleared')
        elif name == 'setexpr':
            if fid in kind.filters:
                real[fid].setExpression(EXPRS[op[2]][0])
                kind.filters[fid][0] = op[2]
                ctx.label('expression changed')
        elif name == 'q':
            query(*op[1])
        elif name == 'c':
            ix.clear()
            kind.mstep(('c',))
            real.clear()
        else:
            for step in kind.expand(op):
                before = [set(v[1]) for v in kind.filters.values()]
                kind.step(ix, step)
                kind.mstep(step)
                if step[0] == 'i' and any(
                        step[1] in b and step[1] not in v[1] for b, v in
                        zip(before, kind.filters.values())):
                    flags.add('left')
            if name == 'clf' and real:
                flags.add('cleared')
        filters()
    for q in final:
        query(*q)
    kind.verify(ix)
    ctx.label('left by reindexing', 'left' in flags)
    ctx.nontrivial('answer' in flags and
                   flags & {'left', 'cleared', 'replaced'})


LARGE = (
    'Up to 80 filters, up to 3000 documents, changes and removals, and '
    'queries of up to 100 filters. Same oracle. Non-trivial: a query of more '
    'than 4 filters finds some but not all documents.')


def large_cases():
    query = st.tuples(gen.logint(1, 100), gen.seeds,
                      st.sampled_from(['and', 'or']))
    return gen.families.flatmap(lambda f: st.tuples(
        st.just(f), gen.largeids(f), gen.logint(1, 80), gen.logint(1, 3000),
        gen.seeds, st.integers(0, 5), st.integers(0, 5),
        st.lists(query, min_size=2, max_size=8)))


def large_check(case, ctx):
    from zope.index.topic import TopicIndex
    from zope.index.topic.filter import PythonFilteredSet
    f, (base, stride), nf, n, seed, again, gone, queries = case
    n = min(n, max(5, 30000 // nf))
    ix = TopicIndex(*gen.fams(f))
    rules = {}
    for i in range(nf):
        p = 1 + gen.noise(seed, i) % 9
        rules['f%d' % i] = p, gen.noise(seed, i, 1) % p
        p, r = rules['f%d' % i]
        ix.addFilter(PythonFilteredSet('f%d' % i, 'context %% %d != %d' % (
            p, r) if i % 3 else 'context %% %d == %d' % (p, r),
            *gen.fams(f)))
    sets = {name: set() for name in rules}

    def index(d, v):
        ix.index_doc(d, v)
        for name, (p, r) in rules.items():
            if (v % p == r) != bool(int(name[1:]) % 3):
                sets[name].add(d)
            else:
                sets[name].discard(d)

    docs = [base + k * stride for k in range(n)]
    for k, d in enumerate(docs):
        index(d, gen.noise(seed, k) % 2520)
    for k in range(0, n, again * 3 or n):
        index(docs[k], gen.noise(seed + 1, k) % 2520)
    for k in range(1, n, gone + 1 if gone else n):
        ix.unindex_doc(docs[k])
        for s in sets.values():
            s.discard(docs[k])
    for size, salt, op in queries:
        q = ['f%d' % (gen.noise(salt, j) % nf) for j in range(size)]
        if op == 'or':
            want = set().union(*[sets[x] for x in q])
        else:
            want = set.intersection(*[sets[x] for x in q])
        got = idlist(ix.search(q, op), 'search')
        expect(set(got) == want, '%s query of %d filters %r...: %s', op,
               size, q[:9], diff(got, want))
        ctx.nontrivial(len(set(q)) > 4 and 0 < len(want) < n)
    for name, want in sets.items():
        got = idlist(ix.search(name), name)
        expect(set(got) == want, 'filter %s: %s', name, diff(got, want))


def bad_strategy():
    return st.tuples(
        gen.families, st.lists(Topic.contents(), max_size=4),
        st.one_of(
            st.tuples(st.just('op'), st.text(max_size=4).filter(
                lambda s: s not in ('and', 'or')),
                st.lists(st.integers(0, 2), max_size=2).map(tuple)),
            st.tuples(st.just('type'),
                      st.one_of(st.integers(), st.none(),
                                st.sets(st.sampled_from(['f0', 'f1'])),
                                st.binary(max_size=2), st.floats(0, 1)),
                      st.sampled_from(['and', 'or']))))


def bad_check(case, ctx):
    f, docs, bad = case
    kind = Topic(('topic', f, ([1, 2], 0, 1), (0, 1, 6)))
    ix = kind.make()
    for d, c in enumerate(docs):
        ix.index_doc(d, kind.content(c, 0))
    if bad[0] == 'op':
        q = ['f%d' % j for j in bad[2]]
        r = raises(TypeError, ix.search, q, bad[1])
        expect(not r, 'operator %r %s instead of raising TypeError', bad[1],
               r)
        r = raises(TypeError, ix.apply, {'query': q, 'operator': bad[1]})
        expect(not r, 'operator %r %s instead of raising TypeError', bad[1],
               r)
    else:
        r = raises(TypeError, ix.search, bad[1], bad[2])
        expect(not r, 'query %r %s instead of raising TypeError', bad[1], r)
    ctx.label(bad[0])
    ctx.nontrivial(bool(docs))


PROP = Prop('C06', RULE, [
    Sub('history', strategy, check, 6000, rule=RULE),
    Sub('large', large_cases, large_check, 400, rule=LARGE),
    Sub('rejected', bad_strategy, bad_check, 600,
        rule='Unknown operators and queries that are no list, tuple or '
             'string; non-trivial: documents are indexed.'),
], assumptions=['queries name existing filters (others are ignored)'])
