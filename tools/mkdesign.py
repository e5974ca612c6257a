"""Write DESIGN.md from tools/design_head.md, properties.jsonl, the RULE texts of
the checks and the notes below (python3 tools/mkdesign.py, in /verif)."""
import ast
import glob
import json

# id -> (bounds and cost, why this reaches what the tests cannot)
N = {
 'C01': ('Histories of up to ~50 operations (bulk ones index up to 300 documents, so that BTrees split), six kinds of orderable values; ~10 s.',
  'The tests index a fixed list of eight documents; errors in the reverse map or in open-ended ranges need reindexing with equal, None or boundary values.'),
 'C02': ('Up to ~700 ids sorted, limits 1..n+3 and below 1, all container types, all branches of the algorithm chosen by sizes and limit (labels count them); ~15 s. Which of equal-valued ids come first is not fixed.',
  'Three algorithms (forward, n-best, timsort) are chosen by ratios of sizes; the tests reach each once, with distinct integers.'),
 'C03': ('Up to ~50 operations, up to 300 documents per bulk operation, all query forms; ~10 s.', 'Tests use one small fixture; wrong intersections need overlapping posting lists on both sides of the set/tree-set threshold.'),
 'C04': ('Normalizers generated from six shapes and any return type; ~10 s.', 'Tests know only lower-casing with ASCII words.'),
 'C05': ('Thresholds from -1 to 10**9 changed up to 20 times per history; ~20 s.', 'Tests call optimize() once.'),
 'C06': ('12 expressions (true, false, raising, broken, unbound) and custom filters, any order of filter and document operations; ~10 s.', 'Tests index nine documents once and never reindex.'),
 'C07': ('Five pipelines, both ranking methods, query trees of depth up to 4; ~20 s. Words with U+0130 are left out (known finding).', 'Tests use one fixture and fixed queries; stop words in deep positions and NOT-combinations are not covered.'),
 'C08': ('Word ids of all four encoding lengths; a 20000-word vocabulary; ~20 s.', 'Tests use single-unit ids only, where prefixes cannot occur.'),
 'C09': ('Vocabularies of up to ~30 arbitrary words, patterns of up to ~12 characters; ~15 s. Patterns with many stars are short (the regular expression backtracks; speed is not part of the property).', 'Tests have a handful of ASCII words.'),
 'C10': ('Frequencies up to 10**4, up to 300 documents; scores compared with relative tolerance 1e-5 (32-bit floats); ~15 s.', 'Tests check rank order of three documents.'),
 'C11': ('As C10; ~15 s.', 'Tests compare one hand-computed example, without reindexing.'),
 'C12': ('Trees of depth up to 4 with repeated words and phrases; ~20 s.', 'Tests check scores of one- and two-word queries.'),
 'C13': ('As C07, plus bulk operations; ~15 s. No model is involved: only the code itself, rebuilt.', 'Nothing in the tests compares histories.'),
 'C14': ('Sequences of up to ~20 pairs, lengths below 2**31; ~60 s (an eighth of the cases also run under AddressSanitizer/UBSan in a ninth worker). Reference counts are compared exactly for every argument and every element.', 'Leaks and use-after-free are invisible to value comparisons, and error paths of the C code are not run at all by the tests.'),
 'C15': ('Strings of up to ~40 tokens, nesting up to 4000; ~25 s.', 'Tests parse a few dozen fixed strings.'),
 'C16': ('Up to ~25 operations, five standard pipelines and custom elements; ~10 s. Ids are only required to be positive and distinct.', 'Tests add two or three words.'),
 'C17': ('All of Unicode in strings of up to ~30 characters; ~15 s.', 'Tests have a dozen ASCII strings.'),
 'C18': ('Counts compared after every single step of histories of up to ~50 operations; ~15 s.', 'Counter drift needs particular combinations of reindexing and removal.'),
 'C19': ('The marked id is a unique integer, searched for in the pickle opcode by opcode; ~15 s.', 'Stale entries answer no query until something else resurrects them.'),
 'C20': ('Up to ~60 operations and transaction events on a DemoStorage database; failures at generated loads of operations and queries and at stores of commits; a FileStorage with undo, pack, restarts, historical connections; ~80 s.', 'There is no database in the unit tests: forgetting _p_changed or storing a plain mutable object is invisible.'),
 'C21': ('2-3 concurrent transactions, several rounds; ~30 s. Transactions of a round touch at most one document in common (see assumptions).', 'No test has two connections.'),
 'C22': ('All query forms of every index kind; ~20 s.', 'Tests never modify a result and look again.'),
 'C23': ('About 40 kinds of rejected calls; ~15 s.', 'Tests assert the exception and discard the index.'),
 'C24': ('Ids anywhere in 64 bits, windows at both ends; ~20 s.', 'The 64-bit tests repeat the 32-bit ones with small ids.'),
 'C25': ('Lists of up to 40 integers, all four lengths; ~18 s.', 'The self-synchronization the phrase search relies on is not tested at all.'),
 'C26': ('All parameters, unary parts of up to 40 bits; ~13 s.', 'Tests use ranges and m>0.'),
 'C27': ('Capacities up to 100, up to 60 operations; ~14 s.', 'Tests do not mix pops and additions.'),
 'C28': ('Up to 10 mappings of up to 200 entries; ~7 s.', 'Tests have two or three tiny mappings.'),
 'C29': ('All 15 subsets of old counters, repeated downgrades, pickled or live; ~14 s.', 'Tests upgrade one counter of an empty index at a time.'),
 'C30': ('2-3 indexes, up to 40 interleaved operations; ~20 s.', 'No test shares a lexicon.'),
 'C37': ('Every line and byte code of the package is a possible point; inside BTrees and persistent none is. Up to 16 interrupted updates per history; ~35 s.', 'Tests let every call end.'),
 'C38': ('700 to 2500 documents, up to 3000 words, values or keywords; ~16 s. Most queries need less than half of what is allowed, so that other ways to write the same code pass.', 'Tests use tiny indexes in memory.'),
 'C36': ('Up to four hand-overs per history, half of the cases starting in either configuration; ~40 s.', 'A test run uses one configuration.'),
 'C35': ('Two transactions of up to five updates; indexes of up to 2400 documents (largest stored object seen: 4 kB of 9 kB allowed); ~25 s. Splits of buckets are left out, as BTrees does not merge them.', 'Tests never commit.'),
 'C34': ('All kinds, pickle protocols 0-5, up to 40 operations before and 20 after; ~35 s. The released version is a copy in `release/` of the pinned commit with the fixes.', 'No test has data of another version.'),
 'C33': ('Cutoffs from -1 to 10**9, up to 600 documents; ~20 s.', 'Tests convert one word, in memory.'),
 'C32': ('Up to 5 indexes, 40 operations; 2-4 threads under generated line schedules; ~25 s.', 'No test has two filled indexes of a kind, copies of one, or threads.'),
 'C31': ('As C12 without patterns, many repeated words; ~15 s.', 'Tests have a single document.'),
}

MISSED = '''c20-swallow c09-glob-oov c13-cosine-idf-cache c14-early-decref
c19-keyword-partial c30-gap c11-weight-int c13-cutoff-reindex
c21-field-compact c07-dedupe c31-doc-count c21-last-posting c32-kept-argument c32-parser-cache
c32-filter-default c01-batched c08-long-phrase c28-capacity c02-none-lazy
c20-glob-cache c23-remove-first c28-sort-argument c06-same-object
c16-piece-cache c37-glob-partial c37-convert-clear c38-glob-all'''.split()

rules, more = {}, {}
for fn in sorted(glob.glob('vf/checks/c[0-9]*.py')):
    cid = 'C' + fn[-5:-3]
    for n in ast.parse(open(fn).read()).body:
        name = getattr(getattr(n, 'targets', [None])[0], 'id', '')
        if not (isinstance(n, ast.Assign) and name.isupper()):
            continue
        try:
            text = ast.literal_eval(n.value)
        except ValueError:
            continue
        if name == 'RULE':
            rules[cid] = text
        elif isinstance(text, str) and 'on-trivial' in text:
            more.setdefault(cid, []).append((name.lower(), text))
# rules shared by several checks
for n in ast.parse(open('vf/checks/_large.py').read()).body:
    if isinstance(n, ast.Assign) and n.targets[0].id == 'RULE':
        large = ast.literal_eval(n.value)
for fn in sorted(glob.glob('vf/checks/c[0-9]*.py')):
    if '_large' in open(fn).read():
        more.setdefault('C' + fn[-5:-3], []).append(('large', large))
for c, w in (('C10', 'BM25'), ('C11', 'cosine')):
    rules.setdefault(c, 'Histories on %s indexes of both families and six '
                     'pipelines; the score of every word in every document '
                     'is compared with the formula evaluated by a reference '
                     'model.' % w)
out = [open('tools/design_head.md').read().rstrip(), '', '## Properties', '']
for line in open('properties.jsonl'):
    p = json.loads(line)
    b, why = N[p['id']]
    out += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '',
            '*Decided by:* ' + rules[p['id']], '']
    for name, text in more.get(p['id'], ()):
        out += ['* *%s:* %s' % (name, text), '']
    out += [
            '*Bounds and cost of the quick tier:* ' + b, '',
            '*Beyond the tests:* ' + why, '']
out += [open('tools/design_tail.md').read().rstrip(), '',
        '## Planted bugs and the checks that catch them', '',
        'Each is in `/verif/seeded/<id>`; validated (demonstration, tests) and '
        'tried with `tools/seed.py`. All are caught by the quick check of '
        'their own property; those marked * were missed when first tried and '
        'led to the strengthening described above.', '',
        '| bug | check | needs |', '|---|---|---|']
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d))
    bid = d.split('/')[1]
    out.append('| %s%s | %s | %s |' % (
        bid, '*' if bid in MISSED else '', m['property'],
        m['needs'].replace('|', '/')))
out.append('')
open('DESIGN.md', 'w').write('\n'.join(out))
