"""C22 Queries are read-only and their results are independent."""
import copy

from hypothesis import strategies as st

from vf import gen, kinds, query
from vf.checks.c15 import shape
from vf.core import Prop, Sub, expect, fail
from vf.kinds import same

RULE = (
    'After a history on any index kind, every way to query it is used with '
    'generated query objects (strings, lists, tuples, dictionaries with '
    'operators, id sets to sort, parse trees): asked twice the answer is the '
    'same, the query object is as before, and all observations of the index '
    'stay the same. Then the result is changed (ids removed, added, cleared) '
    'and the index observed again; and the index is updated, also while '
    'iterating over a kept result, which must keep its contents. '
    'Non-trivial: a result with at least one id was changed and another kept '
    'while updates changed the index.')


def cases():
    def one(cfg):
        K = kinds.KINDS[cfg[0]]
        kinds_of = st.lists(st.tuples(st.integers(0, 50), st.integers(0, 50),
                                      st.integers(0, 7)),
                            min_size=3, max_size=10)
        return st.tuples(st.just(cfg), gen.seqs(K.ops(), 1, 20, 8),
                         kinds_of, gen.seqs(K.ops(bulk=False), 1, 8, 4),
                         st.lists(query.queries(), min_size=1, max_size=3))
    return kinds.configs().flatmap(one)


def ways(kind, ix, picks, texts):
    """[(description, function returning a result, query objects)]"""
    out = []

    def add(what, fn, *objs):
        out.append((what, lambda: fn(*objs), objs))

    probes = kind.probes() if hasattr(kind, 'probes') else []
    for a, b, k in picks:
        if kind.name == 'field':
            ids = [kind.did(a % 9), kind.did(b % 9), kind.did(k)]
            if k < 2 or not probes:
                q = (None, None)
            else:
                q = tuple(sorted([probes[a % len(probes)],
                                  probes[b % len(probes)]],
                                 key=gen.skey))
            add('apply', ix.apply, q)
            cls = [list, tuple, kind.family.IF.Set, kind.family.IF.TreeSet,
                   list, set, kind.family.IF.TreeSet][k % 7]
            ids = cls(ids)
            add('sort', lambda x, k=k: list(ix.sort(x, bool(k % 2),
                                                    k // 2 or None)), ids)
        elif kind.name in ('keyword', 'cikeyword'):
            q = [probes[a % len(probes)], probes[b % len(probes)]][:1 + k % 2]
            op = ['and', 'or'][k // 2 % 2]
            if k % 3 == 0 and isinstance(q[0], str):
                add('search string', lambda x, op=op: ix.search(x, op), q[0])
                add('apply string', ix.apply, q[0])
            q = [list, tuple, list][k % 3](q)
            add('search', lambda x, op=op: ix.search(x, op), q)
            add('apply', ix.apply, list(q))
            add('apply dict', ix.apply, {'query': list(q), 'operator': op})
            add('apply dict', ix.apply, {'query': list(q)})
        elif kind.name == 'topic':
            fids = sorted(kind.filters)
            if not fids:
                continue
            q = [fids[a % len(fids)], fids[b % len(fids)]][:1 + k % 2]
            op = ['and', 'or'][k // 2 % 2]
            add('search', lambda x, op=op: ix.search(x, op), q)
            add('search', lambda x, op=op: ix.search(x, op), tuple(q))
            add('search string', lambda x, op=op: ix.search(x, op), q[0])
            add('apply', ix.apply, list(q))
            add('apply dict', ix.apply, {'query': list(q), 'operator': op})
            add('apply dict', ix.apply, {'operator': op, 'query': q[0]})
        else:
            b_ = kind.base(ix)
            w = probes[a % len(probes)]
            v = probes[b % len(probes)]
            add('search', b_.search, w)
            add('search', b_.search, [w, v][:1 + k % 2])
            add('search_phrase', b_.search_phrase, [w, v][:1 + k % 2])
            add('search_glob', b_.search_glob, w[:1 + k % 3] + '*')
            add('search_glob', b_.search_glob, w)
            if kind.extra:
                add('apply', ix.apply, w)
                add('apply', ix.apply, '%s OR %s' % (w, v))
                add('apply', ix.apply, '%s AND %s' % (w, v))
                add('apply', ix.apply, '%s -%s' % (w, v))
                add('apply', ix.apply, w[:1] + '*')
    if kind.name in ('okapi', 'cosine'):
        from zope.index.text.parsetree import ParseError
        from zope.index.text.queryparser import QueryParser
        b_ = kind.base(ix)
        for q in texts:
            try:
                tree = QueryParser(b_.lexicon).parseQuery(query.text(q))
            except ParseError:
                continue
            add('executeQuery', lambda t: t.executeQuery(b_), tree)
    return out


def freeze(obj):
    if hasattr(obj, 'nodeType'):
        return shape(obj)
    if hasattr(obj, 'keys') and not isinstance(obj, dict):
        return list(obj.keys())
    return copy.deepcopy(obj)


def content(rs):
    """What a result holds, in order."""
    if rs is None:
        return None
    if hasattr(rs, 'items'):
        return list(rs.items())
    return list(rs)


def spoil(rs, k):
    """Change a result; whether there was something to change."""
    if rs is None:
        return False
    ids = list(rs)
    extra = 77777
    if hasattr(rs, 'items'):
        if k % 3 == 0:
            rs.clear()
        elif k % 3 == 1:
            for d in ids:
                rs[d] = 12345.0
            rs[extra] = 1.0
        else:
            for d in ids[::2]:
                del rs[d]
            rs[extra] = 2.0
    elif isinstance(rs, list):
        del rs[:]
    elif k % 3 == 0:
        rs.clear()
    elif k % 3 == 1:
        rs.insert(extra)
    else:
        for d in ids[::2]:
            rs.remove(d)
        rs.insert(extra)
    return bool(ids)


def check(case, ctx):
    cfg, ops, picks, updates, texts = case
    kind = kinds.kind(cfg)
    ix = kind.make()
    for op in ops:
        kind.run(ix, op)
    before = kind.observe(ix)
    spoiled = kept_some = False
    todo = ways(kind, ix, picks, texts)
    kept = []
    for n, (what, fn, objs) in enumerate(todo):
        frozen = [freeze(o) for o in objs]
        one = fn()
        first = content(one)
        two = fn()
        expect(content(two) == first, '%s %s %r asked twice: %r, then %r',
               kind.name, what, frozen, first, content(two))
        expect(content(one) == first, '%s %s %r: the result changed when '
               'asked again', kind.name, what, frozen)
        now = [freeze(o) for o in objs]
        expect(now == frozen, '%s %s changed its query %r to %r', kind.name,
               what, frozen, now)
        spoiled |= spoil(one, n)
        expect(content(two) == first, '%s %s %r: changing a result changes '
               'another', kind.name, what, frozen)
        three = fn()
        expect(content(three) == first, '%s %s %r: after changing the result '
               'the answer is %r instead of %r', kind.name, what, frozen,
               content(three), first)
        kept.append((what, frozen, three, first))
    d = same(kind.observe(ix), before)
    expect(not d, '%s: after queries and changes to their results: %s',
           kind.name, d)
    # updates while one result is iterated over, others just kept
    loops = [k for k in kept if k[3]]
    todo = [step for op in updates for step in kind.expand(op)]
    if loops:
        what, frozen, rs, first = loops[len(updates) % len(loops)]
        seen = []
        try:
            for item in rs.items() if hasattr(rs, 'items') else rs:
                seen.append(item)
                d = item[0] if isinstance(item, tuple) else item
                step = ('u', d) if len(seen) % 2 else (
                    todo.pop(0) if todo else ('u', d))
                if step[0] == 'delf':
                    continue
                kind.step(ix, step)
                kind.mstep(step)
        except RuntimeError as e:
            fail('%s %s %r: iterating over the result while updating the '
                 'index raises %r', kind.name, what, frozen, e)
        expect(seen == first, '%s %s %r: iterating over the result while '
               'updating the index gives %r instead of %r', kind.name, what,
               frozen, seen, first)
        kept_some = True
    for op in updates:
        kind.run(ix, op)
    for what, frozen, rs, first in kept:
        expect(content(rs) == first, '%s %s %r: updating the index changed '
               'the result from %r to %r', kind.name, what, frozen, first,
               content(rs))
    kind.verify(ix, 'at the end')
    ctx.nontrivial(spoiled and kept_some)
    ctx.label(kind.name, spoiled)


PROP = Prop('C22', RULE, [Sub('readonly', cases, check, 4000, rule=RULE)],
            assumptions=['sort() is a lazy iterator: it is read at once'])
