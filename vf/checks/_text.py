"""Common parts of the checks on text indexes."""
from hypothesis import strategies as st

from vf import gen, query
from vf.gen import weighted
from vf.textmodel import TextModel, make_pipeline

pipelines = st.sampled_from(['default', 'default', 'default', 'nostop',
                             'single', 'html', 'plain', 'stem'])
ranks = st.sampled_from(['okapi', 'cosine'])


def ranking(rank):
    if rank == 'okapi':
        from zope.index.text.okapiindex import OkapiIndex
        return OkapiIndex
    from zope.index.text.cosineindex import CosineIndex
    return CosineIndex


def make(rank, f, pipeline, default=False):
    from zope.index.text.lexicon import Lexicon
    from zope.index.text.textindex import TextIndex
    if default:
        return TextIndex()
    lex = Lexicon(*make_pipeline(pipeline))
    if f == 33:
        # the other ways to make one
        if rank == 'okapi':
            return TextIndex(lex)
        return TextIndex(index=ranking(rank)(lex))
    return TextIndex(lex, ranking(rank)(lex, *gen.fams(f)))


class Both:
    """A text index and its model."""

    def __init__(self, rank, f, pipeline, idmap, default=False):
        self.pipeline, self.idmap = pipeline, idmap
        self.ix = make(rank, f, pipeline, default)
        self.model = TextModel(rank)
        self.again = False        # a document was reindexed or removed

    def run(self, op):
        for step in query.expand(self.idmap, op):
            self.step(step)

    def step(self, step):
        ix, model = self.ix, self.model
        if step[0] == 'i':
            if step[1] in model.docs:
                self.again = True
            ix.index_doc(step[1], query.render(step[2]))
            model.index(step[1], query.doc_words(step[2], self.pipeline))
        elif step[0] == 'u':
            if step[1] in model.docs:
                self.again = True
            ix.unindex_doc(step[1])
            model.unindex(step[1])
        else:
            ix.clear()
            model.clear()


def histories(avg=12, hi=40, pipelines=pipelines, more=(), **kw):
    """(rank, family, pipeline, idmap, [op])"""
    ops = query.ops(**kw)
    if more:
        ops = weighted((20, ops), *more)
    return gen.families.flatmap(lambda f: st.tuples(
        ranks, st.just(f), pipelines, gen.idmaps(f),
        gen.seqs(ops, 1, hi, avg)))
