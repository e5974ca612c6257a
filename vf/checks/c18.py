"""C18 Statistics are exact after any history."""
from hypothesis import strategies as st

from vf import gen, kinds
from vf.checks import _large
from vf.core import Prop, Sub, expect

RULE = (
    'Histories with many reindexings (same, different, no content), removals '
    'of known and unknown ids, clearing and bulk operations on field, '
    'keyword, case-insensitive keyword, okapi and cosine indexes (directly '
    'and through TextIndex), both families; documentCount() and wordCount() '
    'are compared after every elementary operation with counts of a dict '
    'model. Non-trivial: the history reindexes or removes a known document '
    'and some word is shared by documents.')

NAMES = ['field', 'keyword', 'cikeyword', 'okapi', 'cosine']


def words(kind):
    if isinstance(kind, kinds.Field):
        return list(kind.docs.values())
    return [w for ws in kind.docs.values() for w in set(ws)]


def check(case, ctx):
    cfg, ops = case
    kind = kinds.kind(cfg)
    ix = kind.make()
    again = False
    for n, op in enumerate(ops):
        steps = kind.expand(op)
        for k, step in enumerate(steps):
            if step[0] in 'iu' and step[1] in kind.docs:
                again = True
            kind.step(ix, step)
            kind.mstep(step)
            if k < 3 or k == len(steps) - 1:
                compare(kind, ix, op, ctx, again)
        if op[0] == 'c':
            expect(ix.documentCount() == 0 and ix.wordCount() == 0,
                   'after clearing: %r documents, %r words',
                   ix.documentCount(), ix.wordCount())
            ctx.label('cleared')
    ctx.label(kind.name)


def compare(kind, ix, op, ctx, again):
    ws = words(kind)
    nd, nw = len(kind.docs), len(set(ws))
    got = ix.documentCount()
    expect(got == nd, 'after %r: documentCount() is %r instead of %d', op,
           got, nd)
    got = ix.wordCount()
    expect(got == nw, 'after %r: wordCount() is %r instead of %d', op, got,
           nw)
    ctx.nontrivial(again and nw < len(ws))


PROP = Prop('C18', RULE, [
    Sub('counts', lambda: kinds.histories(NAMES, avg=18, hi=60), check, 6000,
        rule=RULE),
    Sub('large', lambda: _large.collections(['or'], lo=0, hi=0),
        _large.check_counts, 500, rule=_large.RULE + ' Oracle: the counts of the model, also while all documents are removed; non-trivial: documents changed.')])
