"""C10 Okapi scores equal the documented BM25 formula."""
from vf.checks import _large, _scores, _text
from vf.core import Prop, Sub

RULE = (
    'Histories (indexing, reindexing, removing, clearing, bulk and very '
    'repetitive documents) on Okapi indexes of both families and six '
    'pipelines; the score of every word in every document is compared with '
    'the BM25 formula evaluated by a reference model from its own word '
    'lists. Non-trivial: a word in some but not all documents is scored '
    'after a reindexing or removal.')

PROP = Prop('C10', RULE, [
    Sub('formula', lambda: _scores.cases('okapi'), _scores.check, 6000,
        rule=RULE),
    Sub('extreme', lambda: _scores.extreme('okapi'), _scores.check_extreme,
        1200, rule=_scores.EXTREME),
    Sub('large', lambda: _large.collections(['or'], _text.st.just('okapi'), 0, 0),
        _large.check_words, 500, rule=_large.RULE + ' Oracle: the reference model; non-trivial: several documents and words.')],
    assumptions=['relative tolerance 1e-5 (32-bit float storage)'])
