"""C23 A rejected call leaves the index as it was."""
from hypothesis import strategies as st

from vf import gen, kinds
from vf.core import Prop, Sub, expect
from vf.gen import weighted
from vf.kinds import same

RULE = (
    'Histories on every index kind with rejected calls in between: ids '
    'outside the family or not integers, values that cannot be compared with '
    'the indexed ones, keyword lists with such values or given as a string, '
    'iterators, normalizers, texts and pipeline elements that raise, '
    'malformed queries of every sort, for known and unknown documents. '
    'Oracle: all observations before and after the call are the same, and '
    'the index keeps agreeing with the model through later operations. '
    'Non-trivial: a call for a known document, or one that fails half way '
    'through a list, raises while documents are indexed.')


class Stop(Exception):
    """Raised by arguments."""


class Raises:
    """A sequence whose iteration raises after some items."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items) + 1

    def __iter__(self):
        yield from self.items
        raise Stop()

    def __getitem__(self, i):
        if i < len(self.items):
            return self.items[i]
        raise Stop()


class Touchy:
    """A value that cannot be compared or hashed."""

    def __lt__(self, other):
        raise Stop()
    __le__ = __gt__ = __ge__ = __eq__ = __lt__
    __hash__ = None

    def lower(self):
        return self


class NoLower(str):
    def lower(self):
        raise Stop()


class Element:
    """A pipeline element that refuses some words."""

    def process(self, lst):
        if any(w == 'refuse' for w in lst):
            raise Stop()
        return lst

    processGlob = process


def bad_ids(f):
    ids = ['x', None, 1.5, (1,), 2**63, -2**63 - 1, [1], '1', 2**200]
    if f != 64:
        ids += [2**31, -2**31 - 1, 2**32 + 1]
    return ids


def kwargs_of(kind):
    """A keyword of another type than those in the index."""
    return {'str': 17, 'int': 'w', 'tuple': 17}[kind.extra[0]]


def bad_calls(kind, ix, ref, content, n):
    """[(description, function)] of calls that must not change anything."""
    d = kind.did(ref)
    value = kind.value(kind.content(content, 0))
    ids = bad_ids(kind.f)
    bad = ids[n % len(ids)]
    out = [('index_doc(%r)' % (bad,), lambda: ix.index_doc(bad, value)),
           ('unindex_doc(%r)' % (bad,), lambda: ix.unindex_doc(bad))]
    if kind.name == 'field':
        other = 17 if kind.extra[0] in ('str', 'bytes', 'tuple') else 'w'
        # (refused only while there is a value to compare with)
        if any(v is not None for x, v in kind.docs.items() if x != d):
            for v in other, Touchy(), 1j, object():
                out.append(('index_doc(%r, %r)' % (d, v),
                            lambda v=v: ix.index_doc(d, v)))
                out.append(('apply((%r, None))' % v,
                            lambda v=v: ix.apply((v, None))))
        for q in (None, None), [None, None], (None,), (1, 2, 3), None, 'ab', 5:
            if q != (None, None):
                out.append(('apply(%r)' % (q,), lambda q=q: ix.apply(q)))
        for ids_, limit in ([d], 0), ([d], -1), (['x'], None), (None, None):
            out.append(('sort(%r, limit=%r)' % (ids_, limit),
                        lambda i=ids_, m=limit: list(ix.sort(i, limit=m))))
    elif kind.name in ('keyword', 'cikeyword'):
        kws = list(kind.content(content, 0))
        other = kwargs_of(kind)
        out.append(('index_doc(%r, string)' % d,
                    lambda: ix.index_doc(d, 'a string')))
        out.append(('index_doc(%r, 5)' % d, lambda: ix.index_doc(d, 5)))
        out.append(('index_doc(%r, raising)' % d,
                    lambda: ix.index_doc(d, Raises(kws))))
        seqs = [kws + [kind.kw(1), NoLower('q')]] if kind.ci else []
        if set(kind.docs) - {d}:
            # refused if there is a keyword to compare with
            seqs += [kws + [kind.kw(0), other], [other, kind.kw(3)] + kws,
                     kws + [kind.kw(2), object()], kws + [Touchy()],
                     [Touchy()] + kws]
        for s in seqs:
            out.append(('index_doc(%r, %r)' % (d, s),
                        lambda s=s: ix.index_doc(d, s)))
            out.append(('search(%r)' % s, lambda s=s: ix.search(s)))
        for q in ({'query': kws, 'operator': 'xor'}, {'operator': 'or'}, 5,
                  None, {'query': None}, Raises(kws)):
            out.append(('apply(%r)' % q, lambda q=q: ix.apply(q)))
        out.append(('search(%r, nand)' % kws,
                    lambda: ix.search(kws, 'nand')))
        out.append(('search(%r, None)' % kws, lambda: ix.search(kws, None)))
    elif kind.name == 'topic':
        fids = sorted(kind.filters)
        for q in (5, None, {'query': 5}, {'operator': 'or'}, {1: 2},
                  {'query': fids, 'operator': 'nand'}):
            out.append(('apply(%r)' % q, lambda q=q: ix.apply(q)))
        out.append(('search(%r, xor)' % fids,
                    lambda: ix.search(fids, 'xor')))
        out.append(('delFilter(unknown)', lambda: ix.delFilter('unknown')))
        out.append(('delFilter(None)', lambda: ix.delFilter(object())))
    else:
        text = kind.value(kind.content(content, 0))
        b = kind.base(ix)
        for t in (5, [text, 5], [5], Raises([text]), 'w refuse ' + text,
                  [text, 'refuse'], b'bytes', [text, None], 1.5, 0, False):
            out.append(('index_doc(%r, %r)' % (d, t),
                        lambda t=t: ix.index_doc(d, t)))
        for t in 5, 'refuse', [5], None, 0, False:
            out.append(('search(%r)' % (t,), lambda t=t: b.search(t)))
            out.append(('search_phrase(%r)' % (t,),
                        lambda t=t: b.search_phrase(t)))
        for p in '*', '?x', '*app', 5, None:
            out.append(('search_glob(%r)' % (p,),
                        lambda p=p: b.search_glob(p)))
        out.append(('get_words(%r)' % (bad,), lambda: b.get_words(bad)))
        if kind.extra:
            for q in ('', 'apple AND', '(apple', '-apple', 'the', '*x',
                      'apple OR )', 5, None, 'NOT apple', 'refuse',
                      'apple AND refuse', ')(', '"', '(' * 3000):
                out.append(('apply(%r)' % (q if q != '(' * 3000 else '((',),
                            lambda q=q: ix.apply(q)))
    return out


def cases():
    def one(cfg):
        K = kinds.KINDS[cfg[0]]
        bad = st.tuples(st.just('bad'), st.integers(0, 9), K.contents(),
                        st.integers(0, 60), st.integers(0, 11))
        return st.tuples(st.just(cfg), gen.seqs(
            weighted((3, K.ops()), (2, bad)), 2, 26, 11))
    return kinds.configs().flatmap(one)


def check(case, ctx):
    cfg, ops = case
    kind = kinds.kind(cfg)
    if kind.name in ('okapi', 'cosine'):
        from zope.index.text.lexicon import Lexicon
        from vf.textmodel import make_pipeline
        ix = kind.make(Lexicon(*(make_pipeline('default') + (Element(),))))
    else:
        ix = kind.make()
    for op in ops:
        if op[0] != 'bad':
            kind.run(ix, op)
            continue
        _, ref, content, n, m = op
        calls = bad_calls(kind, ix, ref, content, m)
        what, fn = calls[n % len(calls)]
        before = kind.observe(ix)
        try:
            fn()
        except Exception as e:
            raised = e
        else:
            raised = None
        now = kind.observe(ix)
        d = same(now, before)
        if raised is None and d and kind.name == 'field' and (
                'index_doc' in what):
            # taken after all
            return
        expect(not d, '%s index: %s %s, and then %s', kind.name, what,
               'raises %r' % raised if raised else 'returns', d)
        ctx.label(kind.name + (' raises' if raised else ' returns'))
        ctx.nontrivial(raised is not None and kind.docs and
                       'index_doc' in what)
    kind.verify(ix, 'at the end')


PROP = Prop('C23', RULE, [Sub('rejected', cases, check, 8000, rule=RULE)])
