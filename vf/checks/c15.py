"""C15 The query parser implements exactly the documented grammar."""
from hypothesis import strategies as st

from vf import gen, query
from vf.core import Prop, Sub, expect, fail
from vf.gen import weighted
from vf.textmodel import make_pipeline, normalize

RULE = (
    'Query strings: arbitrary text, text over the characters that matter '
    '(quotes, parentheses, hyphens, wildcards, white space, key words in any '
    'case) and printed syntax trees, some damaged; parsed by new and by '
    'reused parsers over six pipelines. Oracle: a tokenizer and recursive '
    'parser written from the documented grammar give the expected tree '
    '(shape, node types, words), ignored terms and positive terms, or '
    'ParseError. Non-trivial: at least two operators or parentheses, and '
    'the query parses. (deep) queries nested to depths up to 4000 either '
    'give the right tree or ParseError.')


# -- the oracle --------------------------------------------------------------

class Bad(Exception):
    pass


def tokenize(s):
    """[(kind, token)] by the documented grammar."""
    out, i, n = [], 0, len(s)

    def stretch(i):
        j = i
        while j < n and not (s[j].isspace() or s[j] in '()"'):
            j += 1
        return j

    while i < n:
        c = s[i]
        if c in '()':
            out.append((c, c))
            i += 1
            continue
        if c.isspace():
            i += 1
            continue
        # an optional hyphen, then a quoted string or a stretch
        k = i + 1 if c == '-' else i
        if k < n and s[k] == '"':
            close = s.find('"', k + 1)
            if close >= 0:
                out.append(('ATOM', s[i:close + 1]))
                i = close + 1
                continue
        j = stretch(k)
        if j == k:
            # nothing after the hyphen: the hyphen itself is a stretch;
            # a stray quote is skipped
            j = stretch(i)
            if j == i:
                i += 1
                continue
        tok = s[i:j]
        up = tok.upper()
        out.append((up if up in ('AND', 'OR', 'NOT') else 'ATOM', tok))
        i = j
    return out


class Oracle:
    def __init__(self, s, pipeline):
        self.toks = tokenize(s) + [('EOF', '')]
        self.pipeline = pipeline
        self.i = 0
        self.ignored = []

    def parse(self):
        tree = self.or_()
        if self.kind() != 'EOF' or tree is None:
            raise Bad()
        return tree

    def kind(self):
        return self.toks[self.i][0]

    def eat(self, kind):
        if self.kind() == kind:
            self.i += 1
            return True
        return False

    def or_(self):
        parts = [self.and_()]
        while self.eat('OR'):
            parts.append(self.and_())
        parts = [p for p in parts if p is not None]
        if len(parts) > 1:
            return ('OR', parts)
        return parts[0] if parts else None

    def and_(self):
        pos, nots = [], []

        def add(node, negate):
            if node is None:
                return
            if negate:
                nots.append(('NOT', node))
            else:
                pos.append(node)

        add(self.term(), False)
        while True:
            if self.eat('AND'):
                add(*reversed((self.eat('NOT'), self.term())))
            elif self.eat('NOT'):
                add(self.term(), True)
            else:
                break
        if not pos:
            # a NOT with nothing to exclude from: only stop words
            return None
        both = pos + nots
        return both[0] if len(both) == 1 else ('AND', both)

    def term(self):
        if self.eat('('):
            tree = self.or_()
            if not self.eat(')'):
                raise Bad()
            return tree
        if self.kind() != 'ATOM':
            raise Bad()
        pos, nots = [], []
        while self.kind() == 'ATOM':
            tok = self.toks[self.i][1]
            self.i += 1
            words = normalize(tok, self.pipeline, glob=True)
            if not words:
                self.ignored.append(tok)
                continue
            if len(words) > 1:
                node = ('PHRASE', words)
            elif '*' in words[0] or '?' in words[0]:
                node = ('GLOB', words[0])
            else:
                node = ('ATOM', words[0])
            if tok[0] == '-':
                nots.append(('NOT', node))
            else:
                pos.append(node)
        if not pos:
            if nots:
                raise Bad()
            return None
        both = pos + nots
        return both[0] if len(both) == 1 else ('AND', both)


def terms(tree):
    if tree[0] == 'NOT':
        return []
    if tree[0] in ('AND', 'OR'):
        return [t for n in tree[1] for t in terms(n)]
    return [tree[1]]


def shape(node):
    """A parse tree as nested tuples."""
    kind = node.nodeType()
    value = node.getValue()
    if kind == 'NOT':
        return ('NOT', shape(value))
    if kind in ('AND', 'OR'):
        return (kind, [shape(v) for v in value])
    if kind == 'PHRASE':
        return (kind, list(value))
    return (kind, value)


# -- query strings -----------------------------------------------------------

_pieces = st.sampled_from([
    'foo', 'bar', 'x', 'the', 'of', 'and', 'AND', 'or', 'OR', 'not', 'NOT',
    'And', 'oR', 'nOt', '(', ')', '(', ')', '"', '"', '-', '-', ' ', ' ', ' ',
    '  ', '\t', '\n', '*', '?', 'foo*', 'b?r', '*x', 'foo-bar', 'a.b',
    '"foo bar"', '-foo', '-"', '-(', 'ANDY', 'nott', "don't", '\u3000', '\xa0',
    '\x1c', '\xe9', 'FOO', 'Bar', '...', '<b>', '&amp;', '"the"', '""',
    '-the', 'foo bar', '--foo', '_', '\x00', '"a b c"', "AND-NOT"])


def strings():
    return weighted(
        (6, gen.seqs(_pieces, 0, 16, 6).map(''.join)),
        (6, gen.seqs(_pieces, 0, 14, 6).map(' '.join)),
        (8, query.queries().map(query.text)),
        (4, st.tuples(query.queries().map(query.text), st.integers(0, 60),
                      st.integers(0, 3), _pieces).map(damage)),
        (1, st.text(max_size=30)))


def damage(t):
    s, pos, n, new = t
    pos %= len(s) + 1
    return s[:pos] + new + s[pos + n:]


def cases():
    return st.tuples(
        st.sampled_from(['default', 'default', 'nostop', 'single', 'html',
                         'plain', 'stem']),
        st.booleans(), gen.seqs(strings(), 1, 8, 4))


def check(case, ctx):
    from zope.index.text.lexicon import Lexicon
    from zope.index.text.queryparser import QueryParser
    pipeline, reuse, queries = case
    lex = Lexicon(*make_pipeline(pipeline))
    lex.sourceToWordIds('foo bar apple pear')
    parser = QueryParser(lex)
    words = list(lex.words())
    for s in queries:
        if not reuse:
            parser = QueryParser(lex)
        one(s, pipeline, parser, ctx)
    expect(list(lex.words()) == words, 'parsing changed the lexicon')
    ctx.label('reused parser', reuse)


def one(s, pipeline, parser, ctx):
    from zope.index.text.parsetree import ParseError
    oracle = Oracle(s, pipeline)
    try:
        want = oracle.parse()
    except Bad:
        want = None
    for how in 'parseQuery', 'parseQueryEx':
        try:
            got = getattr(parser, how)(s)
        except ParseError:
            got = None
        except Exception as e:
            fail('%s(%r) raises %r', how, s, e)
        if want is None:
            expect(got is None, '%s(%r) returns %r instead of raising '
                   'ParseError', how, s, got)
            continue
        expect(got is not None, '%s(%r) raises ParseError; expected %r', how,
               s, want)
        if how == 'parseQueryEx':
            got, ignored = got
            expect(list(ignored) == oracle.ignored, 'query %r: ignored terms '
                   '%r instead of %r', s, ignored, oracle.ignored)
        expect(list(parser.getIgnored()) == oracle.ignored, 'query %r: '
               'getIgnored() is %r instead of %r', s, parser.getIgnored(),
               oracle.ignored)
        expect(shape(got) == want, 'query %r: tree %r instead of %r', s,
               shape(got), want)
        expect(list(got.terms()) == terms(want), 'query %r: terms %r instead '
               'of %r', s, got.terms(), terms(want))
    nops = sum(k != 'ATOM' for k, _ in oracle.toks) - 1
    ctx.label('parses', want is not None)
    ctx.label('rejected', want is None)
    ctx.nontrivial(want is not None and nops >= 2)
    ctx.label('ignored terms', want is not None and bool(oracle.ignored))
    ctx.label('NOT', want is not None and 'NOT' in repr(want))


# -- deep nesting ------------------------------------------------------------

def deep_cases():
    return st.tuples(
        st.one_of(st.integers(1, 60), st.integers(1, 60),
                  st.integers(60, 400), st.integers(400, 4000)),
        st.sampled_from(['(', '(foo AND (', '((', '(foo OR ', '(foo NOT (',
                         '(foo AND NOT (', '(the OR (', 'foo (']),
        st.sampled_from(['foo', 'foo', 'foo bar', 'foo -bar', 'the', '']),
        st.sampled_from([0, 0, 0, 0, -1, 1]))


def deep_check(case, ctx):
    from zope.index.text.lexicon import Lexicon
    from zope.index.text.parsetree import ParseError
    from zope.index.text.queryparser import QueryParser
    n, opener, middle, extra = case
    lex = Lexicon(*make_pipeline('default'))
    s = opener * n + (middle or '') + ')' * (n * opener.count('(') + extra)
    try:
        want = Oracle(s, 'default').parse()
    except Bad:
        want = None
    except RecursionError:
        want = 'deep'
    parser = QueryParser(lex)
    try:
        tree = parser.parseQuery(s)
    except ParseError:
        # a limit on the depth is allowed, but not below the usual
        expect(want is None or want == 'deep' or n > 60,
               'query %r raises ParseError; expected %r', s, want)
        ctx.label('rejected')
    except Exception as e:
        fail('nesting %d times %r raises %s', n, opener, type(e).__name__)
    else:
        expect(want is not None, 'query %r parses', s[:200])
        if want != 'deep':
            expect(shape(tree) == want, 'query %r: %r', s[:200], tree)
            ctx.nontrivial(n > 5)
    # the parser is still usable
    expect(shape(parser.parseQuery('foo bar')) == (
        'AND', [('ATOM', 'foo'), ('ATOM', 'bar')]), 'parser broken afterwards')


# -- long queries ------------------------------------------------------------

LONG = (
    'Flat or bracketed queries of up to 3000 tokens, and tokens of up to 3000 '
    'characters or words. Oracle: the parser of the check. Non-trivial: more '
    'than 60 tokens, or a phrase of more than 60 words.')
FLAT = ['foo', 'bar', 'the', 'x1', 'foo*', '-bar', '"foo bar"', '-"the x"',
        'a.b', '\xe9', 'Foo', '"of"', '...', '(foo OR the)', '(x -y "z z")']


def long_cases():
    return st.tuples(
        st.sampled_from(['default', 'nostop', 'html', 'plain']),
        gen.logint(1, 3000), gen.seeds,
        st.sampled_from([('OR',), ('AND',), ('',), ('', 'AND'), ('', 'OR'),
                         ('NOT', 'and not', 'AND', '', 'or'),
                         ('or', 'AND NOT')]),
        weighted((2, st.just(())), (1, st.tuples(
            st.sampled_from(['q', 'h', 'w', 'g']), gen.logint(1, 3000)))),
        weighted((8, st.just('')), (1, st.sampled_from(
            [')', ' OR', '"', '(', ' -x']))))


def long_check(case, ctx):
    from zope.index.text.lexicon import Lexicon
    from zope.index.text.queryparser import QueryParser
    pipeline, n, seed, seps, extra, end = case
    out = []
    for k in range(n):
        if k:
            out.append(seps[gen.noise(seed, k) % len(seps)])
        word = FLAT[gen.noise(seed, k, 1) % len(FLAT)]
        if word[0] == '-' and (not k or seps != ('',)):
            word = 'foo ' + word
        out.append(word)
    if extra:
        kind, m = extra
        ws = ['w%d' % (gen.noise(seed, j) % 50) for j in range(m)]
        word = {'q': '"%s"' % ' '.join(ws), 'h': '-'.join(ws),
                'w': 'w' * m, 'g': 'w' + '*' * m}[kind]
        out.insert(1 + gen.noise(seed, 2) % len(out), word)
    parser = QueryParser(Lexicon(*make_pipeline(pipeline)))
    one(' '.join(out) + end, pipeline, parser, ctx)
    ctx.nontrivial(n > 60 or extra and extra[1] > 60)
    ctx.label('>1000 tokens', n > 1000)


PROP = Prop('C15', RULE, [
    Sub('grammar', cases, check, 16000, rule=RULE),
    Sub('long', long_cases, long_check, 600, rule=LONG),
    Sub('deep', deep_cases, deep_check, 800, rule=RULE)],
    assumptions=['words containing U+0130 and upper-case sigma are drawn '
                 'rarely and only from arbitrary text'])
