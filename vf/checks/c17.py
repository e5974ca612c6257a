"""C17 Text pipeline elements split, normalize and filter exactly."""
from hypothesis import strategies as st

from vf import gen
from vf.core import Prop, Sub, expect
from vf.gen import weighted
from vf.stopwords import STOP
from vf.textmodel import split, split_glob, strip_markup

RULE = (
    'Lists of strings (any Unicode, letters of many scripts, digits, '
    'combining characters, punctuation, markup and entity fragments, '
    'wildcards, stop words and near misses) through every element, singly and '
    'chained. Oracle: hand-written character loops (no regular expressions) '
    'and a stop word list copied from the documentation of the original; '
    'processing a list must equal concatenating the results of its pieces, '
    'and the input must be unchanged. Non-trivial: at least two words come '
    'out and something was removed or changed.')

_frag = st.sampled_from([
    'foo', 'Bar', 'the', 'The', 'THE', 'of', 'a', 'i', 'x', '7', '_', '__a',
    ' ', ' ', ' ', '\n', '-', "'", '.', '<b>', '</b>', '<', '>', '<a href="x">',
    '&amp;', '&nbsp;', '&', ';', '&x', '&#38;', '&1;', '<!-- c -->', '*', '?',
    'fo*', '?x', '**', '\xe9', '\xc9cole', '\u0301', '\u65e5\u672c', '\u0660',
    '\xb2', '\u2028', '\xa0', '\x00', '\xdf', '\u03b1', '\u0410', '\ufb01',
    '\U0001d400', '\u200d', 'and', 'or', 'not', "don't", 'x_y', '\xaa', '\xb5',
    'stop', 'tha', 'thee', 'ofs', '\x1f', '<\n>', '<<b>>', '&am p;', '&LT;'])
_piece = weighted((7, gen.seqs(_frag, 0, 10, 4).map(''.join)),
                  (2, st.text(max_size=10)),
                  (1, _frag))
NAMES = ['split', 'glob', 'case', 'stop', 'single', 'html', 'htmlglob']


def cases():
    return st.tuples(gen.seqs(_piece, 0, 6, 2.5),
                     st.lists(st.sampled_from(NAMES), min_size=1, max_size=3),
                     st.booleans())


def element(name):
    from zope.index.text import lexicon as L
    from zope.index.text.htmlsplitter import HTMLWordSplitter
    return {'split': lambda: L.Splitter().process,
            'glob': lambda: L.Splitter().processGlob,
            'case': lambda: L.CaseNormalizer().process,
            'stop': lambda: L.StopWordRemover().process,
            'single': lambda: L.StopWordAndSingleCharRemover().process,
            'html': lambda: HTMLWordSplitter().process,
            'htmlglob': lambda: HTMLWordSplitter().processGlob}[name]()


def oracle(name, lst):
    out = []
    for s in lst:
        if name == 'split':
            out += split(s)
        elif name == 'glob':
            out += split_glob(s)
        elif name == 'case':
            out.append(s.lower())
        elif name == 'stop':
            out += [] if s in STOP else [s]
        elif name == 'single':
            # (whether U+00FF counts as a single 8-bit character is left
            # open: the documentation does not say)
            out += [] if s in STOP or (len(s) == 1 and ord(s) < 256) else [s]
        elif name == 'html':
            out += split(strip_markup(s.lower()))
        else:
            out += split_glob(strip_markup(s.lower()))
    return out


def check(case, ctx):
    pieces, names, alltext = case
    for name in NAMES:
        one(name, pieces, ctx)
    lst = pieces
    for name in names:
        lst = one(name, lst, ctx)
    if alltext:
        one('single', oracle('split', pieces), ctx)
        one('stop', oracle('case', oracle('split', pieces)), ctx)


def one(name, lst, ctx):
    if name == 'single':
        lst = [w for w in lst if w != '\xff']
    fn = element(name)
    before = list(lst)
    got = list(fn(lst))
    want = oracle(name, before)
    expect(got == want, '%s: %r gives %r instead of %r', name, lst, got, want)
    expect(lst == before, '%s modifies its input %r', name, before)
    apart = []
    for s in lst:
        apart += list(fn([s]))
    expect(apart == want, '%s: pieces of %r processed one by one give %r',
           name, lst, apart)
    ctx.nontrivial(len(want) > 1 and want != before)
    ctx.label(name, bool(want) and want != before)
    return want


# -- long texts --------------------------------------------------------------

LONG = (
    'Lists of up to 2000 pieces of up to 30000 characters, put together from '
    'the same fragments. Same oracle. Non-trivial: more than 1000 characters '
    'or 200 pieces.')
FRAGS = ['foo', 'Bar', 'the', 'The', 'x', '7', '_', ' ', ' ', ' ', '\n', '-',
         "'", '.', '<b>', '<', '>', '<a href="x">', '&amp;', '&', ';', '*',
         '?', 'fo*', '\xe9', '\u0301', '\u65e5', '\xa0', '\xdf', '&am p;']


def long_cases():
    return st.tuples(gen.logint(1, 2000), gen.logint(1, 8000), gen.seeds,
                     st.integers(1, len(FRAGS)),
                     st.lists(st.sampled_from(NAMES), min_size=1, max_size=3))


def long_check(case, ctx):
    n, length, seed, few, names = case
    n = min(n, max(1, 20000 // length))
    lst = []
    for k in range(n):
        m = 1 + gen.noise(seed, k) % length
        lst.append(''.join(
            FRAGS[gen.noise(seed, k, j) % few if few < 5 else
                  gen.noise(seed, k, j) % len(FRAGS)] for j in range(m)))
    big = n > 200 or max(map(len, lst)) > 1000
    for name in names:
        lst = one(name, lst, ctx)
    ctx.nontrivial(big)


# -- all stop words, all characters ------------------------------------------

def table_cases():
    return st.tuples(
        st.sampled_from(list(range(0x34)) + [0xe0, 0x10f]), st.booleans())


def table_check(case, ctx):
    """Every character of a block of the code space; every stop word."""
    block, upper = case
    # the blocks up to U+10FFFF
    chars = [chr(c) for c in range(block * 4096,
                                   min((block + 1) * 4096, 0x110000))
             if not 0xd800 <= c < 0xe000]
    for c in chars:
        for name in ('split', 'glob', 'html', 'htmlglob'):
            text = 'a' + c + 'b' + c
            got = list(element(name)([text]))
            want = oracle(name, [text])
            expect(got == want, '%s: %r gives %r instead of %r', name, text,
                   got, want)
    words = sorted(STOP)
    if upper:
        words = [w.upper() for w in words] + [w + 's' for w in words]
    for name in 'stop', 'single':
        got = list(element(name)(words))
        expect(got == oracle(name, words), '%s keeps the wrong words: %r',
               name, got)
    ctx.nontrivial(bool(chars))


PROP = Prop('C17', RULE, [
    Sub('elements', cases, check, 16000, rule=RULE),
    Sub('long', long_cases, long_check, 400, rule=LONG),
    Sub('tables', table_cases, table_check, 240, 1500, rule=RULE)],
    assumptions=["the 8-bit character U+00FF is excluded for the single "
                 "character remover"])
