"""C03 Keyword search is exact after any history."""
from hypothesis import strategies as st

from vf import gen
from vf.core import Prop, Sub, expect
from vf.gen import refs, weighted
from vf.obs import diff, idlist, raises

RULE = (
    'Histories of index/reindex/unindex/clear and bulk operations on a '
    'KeywordIndex (32/64 bit; keywords of one orderable type given as list, '
    'tuple, set, BTree set or iterator), with and/or queries in every accepted '
    'form after some steps and at the end, compared with a dict of keyword '
    'sets. Non-trivial: some query has a non-empty answer that leaves out a '
    'document, and the history changes the keywords of a document.')

kwrefs = weighted((6, st.integers(0, 6)), (1, st.integers(0, 60)))
contents = st.tuples(
    st.sampled_from(['list', 'tuple', 'set', 'OOSet', 'iter', 'TreeSet',
                     'dictkeys']),
    st.lists(kwrefs, max_size=6).map(tuple))
forms = st.sampled_from(['search', 'apply', 'dict', 'dict1', 'one', 'Set',
                         'searchdefault', 'iter'])
queries = st.tuples(forms, st.lists(weighted((9, kwrefs),
                                             (1, st.just(9999))),
                                    max_size=4).map(tuple),
                    st.sampled_from(['and', 'or']))


def ops():
    return weighted(
        (12, st.tuples(st.just('i'), refs, contents)),
        (4, st.tuples(st.just('u'), refs)),
        (2, st.tuples(st.just('bi'), refs, gen.bulk_sizes, contents,
                      st.integers(0, 2))),
        (1, st.tuples(st.just('bu'), refs, gen.bulk_sizes)),
        (2, st.tuples(st.just('q'), queries)),
        (1, st.just(('c',))),
    )


def strategy():
    return gen.families.flatmap(lambda f: st.tuples(
        st.just(f), gen.idmaps(f),
        st.one_of(st.tuples(st.just('str'),
                            st.lists(st.text(max_size=4), max_size=7)),
                  gen.valuespaces()),
        gen.seqs(ops(), 1, 60, 16),
        st.lists(queries, min_size=3, max_size=8)))


def wrap(f, name, seq):
    fam = gen.fam(f)
    if name == 'tuple':
        return tuple(seq)
    if name == 'set':
        return set(seq)
    if name == 'OOSet':
        return fam.OO.Set(seq)
    if name == 'TreeSet':
        return fam.OO.TreeSet(seq)
    if name == 'iter':
        return iter(list(seq))
    if name == 'dictkeys':
        return dict.fromkeys(seq).keys()
    return list(seq)


def ask(ix, f, form, words, op):
    """Put a query in one of the accepted forms; returns (result, op)."""
    words = list(words)
    if form == 'search':
        return ix.search(words, op), op
    if form == 'searchdefault':
        return ix.search(tuple(words)), 'and'
    if form == 'apply':
        return ix.apply(words), 'and'
    if form == 'dict':
        return ix.apply({'query': words, 'operator': op}), op
    if form == 'dict1':
        return ix.apply({'query': tuple(words)}), 'and'
    if form == 'Set':
        return ix.search(gen.fam(f).OO.Set(words), operator=op), op
    if form == 'iter':
        return ix.search(iter(words), op), op
    assert form == 'str'
    return (ix.apply(words[0]) if op == 'and' else
            ix.apply({'query': words[0], 'operator': op})), op


def answer(model, words, op):
    if not words:
        return set()
    if op == 'or':
        return {d for d, k in model.items() if any(w in k for w in words)}
    return {d for d, k in model.items() if all(w in k for w in words)}


def check(case, ctx):
    from zope.index.keyword import KeywordIndex
    f, idmap, space, ops_, final = case
    ix = KeywordIndex(*gen.fams(f))
    model = {}
    flags = {'narrow': False, 'changed': False}

    def index(d, how, kws):
        ix.index_doc(d, wrap(f, how, kws))
        old = model.get(d)
        if kws:
            model[d] = set(kws)
        else:
            model.pop(d, None)
        if old is not None and old != model.get(d):
            flags['changed'] = True

    def query(form, kwr, op):
        words = [gen.val(space, j) for j in kwr]
        if form == 'one':
            words = words[:1] or [gen.val(space, 0)]
            form = 'str' if isinstance(words[0], str) else 'search'
        got, op = ask(ix, f, form, words, op)
        what = '%s query %r (%s)' % (op, words, form)
        want = answer(model, words, op)
        got = idlist(got, what)
        expect(set(got) == want, '%s: %s', what, diff(got, want))
        if want and len(want) < len(model):
            flags['narrow'] = True
        ctx.label('and of several', op == 'and' and len(set(words)) > 1
                  and bool(want))
        ctx.label('or of several', op == 'or' and len(set(words)) > 1
                  and bool(want))
        ctx.label('>=64 hits', len(want) >= 64)

    for o in ops_:
        if o[0] == 'i':
            index(gen.did(idmap, o[1]), o[2][0],
                  [gen.val(space, j) for j in o[2][1]])
        elif o[0] == 'u':
            d = gen.did(idmap, o[1])
            ix.unindex_doc(d)
            if model.pop(d, None):
                flags['changed'] = True
        elif o[0] == 'bi':
            s = max(o[1], gen.BULK)
            for k in range(o[2]):
                kws = [gen.val(space, j) for j in o[3][1]]
                if o[4]:
                    kws.append(gen.val(space, 20 + (k * o[4]) % 7))
                index(gen.did(idmap, s + k), o[3][0], kws)
        elif o[0] == 'bu':
            s = max(o[1], gen.BULK)
            for k in range(o[2]):
                ix.unindex_doc(gen.did(idmap, s + k))
                model.pop(gen.did(idmap, s + k), None)
        elif o[0] == 'c':
            ix.clear()
            model.clear()
        else:
            query(*o[1])
    for q in final:
        query(*q)
    counts = {}
    for k in model.values():
        for w in k:
            counts[w] = counts.get(w, 0) + 1
    words = sorted(counts, key=gen.skey)
    for w in words[:12]:
        got = idlist(ix.search([w], 'or'), repr(w))
        want = answer(model, [w], 'or')
        expect(set(got) == want, 'or query %r: %s', [w], diff(got, want))
    for r in list(range(8)) + [gen.BULK, gen.BULK + 30]:
        d = gen.did(idmap, r)
        expect(bool(ix.has_doc(d)) == (d in model),
               'has_doc(%r) is %r', d, ix.has_doc(d))
    ctx.label('threshold crossed', any(c >= 64 for c in counts.values()))
    ctx.label('kind ' + space[0])
    ctx.nontrivial(flags['narrow'] and flags['changed'])


# -- many keywords -------------------------------------------------------------

LARGE = (
    'Up to 3000 documents, up to 400 keywords in a document, and queries of '
    'up to 400 keywords, also those of a document (magnitudes equally likely; '
    'at most 20000 keywords in all), with changes and removals. Same oracle. '
    'Non-trivial: a query of more than 8 keywords finds some but not all '
    'documents.')


def large_cases():
    query = st.tuples(st.integers(0, 3), gen.seeds, gen.logint(1, 400),
                      st.sampled_from(['and', 'or']))
    return gen.families.flatmap(lambda f: st.tuples(
        st.just(f), gen.largeids(f), gen.logint(2, 3000), gen.logint(1, 400),
        gen.logint(1, 3000), gen.seeds, st.integers(0, 5), st.integers(0, 5),
        st.lists(query, min_size=2, max_size=8)))


def large_check(case, ctx):
    from zope.index.keyword import KeywordIndex
    f, (base, stride), n, per, vocab, seed, again, gone, queries = case
    n = min(n, max(2, 20000 // per))
    ix = KeywordIndex(*gen.fams(f))
    model = {}

    def index(k, salt):
        # smaller numbers are more frequent
        count = gen.noise(salt, k) % per + 1
        kws = {'k%d' % (gen.noise(salt, k, j) % (
            1 + gen.noise(salt, j, k) % vocab)) for j in range(count)}
        ix.index_doc(base + k * stride, sorted(kws))
        model[base + k * stride] = kws

    for k in range(n):
        index(k, seed)
    for k in range(0, n, again * 3 or n):
        index(k, seed + 1)
    for k in range(1, n, gone + 1 if gone else n):
        ix.unindex_doc(base + k * stride)
        del model[base + k * stride]
    docs = list(model)
    for how, salt, size, op in queries:
        if how:
            # keywords of a document, how - 1 of them replaced
            words = sorted(model[docs[salt % len(docs)]])
            start = salt % len(words)
            words = (words[start:] + words[:start])[:size]
            for j in range(how - 1):
                words[(salt + j) % len(words)] = 'k%d' % (
                    gen.noise(salt, j) % (vocab + 1))
        else:
            words = ['k%d' % (gen.noise(salt, j) % (vocab + 2))
                     for j in range(size)]
        want = answer(model, words, op)
        got = idlist(ix.search(words, op), 'search')
        expect(set(got) == want, '%s query of %d keywords %r: %s', op,
               len(words), words[:8], diff(got, want))
        ctx.nontrivial(len(words) > 8 and 0 < len(want) < len(model))
        ctx.label('and of >8 found', op == 'and' and len(set(words)) > 8
                  and bool(want))


# -- rejected queries and documents ------------------------------------------

def bad_strategy():
    return st.tuples(
        gen.families, st.lists(st.lists(st.integers(0, 4), max_size=3)
                               .map(tuple), max_size=5),
        st.one_of(
            st.tuples(st.just('op'),
                      st.one_of(st.sampled_from(
                          ['AND', 'OR', 'not', '', 'nor', 'an', 'andor']),
                          st.text(max_size=4).filter(
                              lambda s: s not in ('and', 'or')),
                          st.none(), st.integers(0, 2)),
                      st.lists(st.integers(0, 5), max_size=3).map(tuple),
                      st.booleans()),
            st.tuples(st.just('str'), st.text(max_size=4),
                      st.integers(0, 6))))


def bad_check(case, ctx):
    from zope.index.keyword import KeywordIndex
    f, docs, bad = case
    ix = KeywordIndex(*gen.fams(f))
    for d, kws in enumerate(docs):
        ix.index_doc(d, ['k%d' % j for j in kws])
    if bad[0] == 'op':
        q = ['k%d' % j for j in bad[2]]
        if bad[3]:
            r = raises(TypeError, ix.apply, {'query': q, 'operator': bad[1]})
        else:
            r = raises(TypeError, ix.search, q, bad[1])
        expect(not r, 'query %r with operator %r %s instead of raising '
               'TypeError', q, bad[1], r)
    else:
        r = raises(TypeError, ix.index_doc, bad[2], bad[1])
        expect(not r, 'index_doc(%r, %r) %s instead of raising TypeError',
               bad[2], bad[1], r)
    ctx.nontrivial(any(docs))
    ctx.label(bad[0])


PROP = Prop('C03', RULE, [
    Sub('history', strategy, check, 6000, rule=RULE),
    Sub('large', large_cases, large_check, 900, rule=LARGE),
    Sub('rejected', bad_strategy, bad_check, 800,
        rule='Unknown operators and strings as keywords; non-trivial: the '
             'index is not empty.'),
], assumptions=['keywords of an index are mutually orderable'])
