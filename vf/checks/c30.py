"""C30 Indexes sharing a lexicon do not affect each other."""
from hypothesis import strategies as st

from vf import gen, kinds
from vf.core import Prop, Sub, expect
from vf.gen import weighted
from vf.kinds import same

RULE = (
    'Two or three text indexes of any ranking method and family share one '
    'lexicon and receive interleaved histories (index, reindex, unindex, '
    'bulk, clear, queries, and words only the lexicon knows). Each must agree '
    'with its own model after every few steps and, at the end, with an index '
    'that received the same operations with a lexicon of its own. '
    'Non-trivial: two indexes hold documents with a common word and one of '
    'them knows a word the other does not.')


def cases():
    def member(name):
        return gen.families.flatmap(lambda f: st.tuples(
            st.just(name), st.just(f), gen.idmaps(f), st.booleans()))
    members = st.lists(st.sampled_from(['okapi', 'cosine']).flatmap(member),
                       min_size=2, max_size=3)
    op = weighted(
        (10, st.tuples(st.integers(0, 2), kinds.Okapi.ops())),
        (1, st.tuples(st.just('lex'), st.sampled_from(
            ['apple', 'new1', 'app0 fig0', 'w0031 w0032', 'pear pear']))),
        (1, st.just(('look',))))
    return st.tuples(members, gen.seqs(op, 2, 40, 14))


def check(case, ctx):
    from zope.index.text.lexicon import Lexicon

    from vf.textmodel import make_pipeline
    cfgs, ops = case
    lexicon = Lexicon(*make_pipeline('default'))
    ks = [kinds.kind(cfg) for cfg in cfgs]
    ixs = [k.make(lexicon) for k in ks]
    own = [k.make() for k in ks]

    def look(where):
        for i, k in enumerate(ks):
            d = same(k.observe(ixs[i]), k.expected())
            expect(not d, '%s: index %d (%s): %s', where, i, k.name, d)

    common = alone = False
    for op in ops:
        if op[0] == 'look':
            look('meanwhile')
        elif op[0] == 'lex':
            lexicon.sourceToWordIds(op[1])
        else:
            i = op[0] % len(ks)
            for step in ks[i].expand(op[1]):
                ks[i].step(ixs[i], step)
                ks[i].step(own[i], step)
                ks[i].mstep(step)
            vocab = [{w for ws in k.docs.values() for w in ws} for k in ks]
            common |= bool(vocab[0] & vocab[1])
            alone |= vocab[0] != vocab[1]
    look('at the end')
    for i, k in enumerate(ks):
        d = same(k.observe(ixs[i]), k.observe(own[i]))
        expect(not d, 'index %d (%s) and one with its own lexicon: %s', i,
               k.name, d)
    expect(lexicon.wordCount() == len(set(lexicon.words())) ==
           len(set(lexicon.wids())), 'the lexicon counts %r words, has %d '
           'words and %d wids', lexicon.wordCount(),
           len(set(lexicon.words())), len(set(lexicon.wids())))
    ctx.label('3 indexes', len(ks) == 3)
    ctx.nontrivial(common and alone)


PROP = Prop('C30', RULE, [Sub('sharing', cases, check, 5000, rule=RULE)])
