"""Writes /verif/properties.jsonl.  One call of P(...) per property."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
ROWS = []
B = 'src/zope/index/'


def P(id, title, statement, over, quant, tests, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    ROWS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=tests,
        anchors=dict(files=[B + f for f in files],
                     mechanism=[dict(name=n, where=B + w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=B + w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))


FI, FS = 'field/index.py', 'field/sorting.py'
KW, TO, TF = 'keyword/index.py', 'topic/index.py', 'topic/filter.py'
BI, OK, CO, LX = 'text/baseindex.py', 'text/okapiindex.py', 'text/cosineindex.py', 'text/lexicon.py'
TI, QP, PT, SO = 'text/textindex.py', 'text/queryparser.py', 'text/parsetree.py', 'text/setops.py'
WC, RC, HS, SD, CC = 'text/widcode.py', 'text/ricecode.py', 'text/htmlsplitter.py', 'text/stopdict.py', 'text/okascore.c'
NB = 'nbest.py'

P('C01', 'Field range search is exact after any history',
  'After any sequence of indexing, reindexing, unindexing and clearing, a field index range query (min, max) returns exactly the ids of the documents whose current value lies between min and max inclusive, None at an end meaning open-ended and None as a stored value sorting below everything else. A query that is not a tuple of length two raises TypeError.',
  ['histories', 'inputs'], 'every sequence of index/reindex/unindex/clear over any mutually orderable values (None included) and any document ids of the family, and every query range',
  'The unit tests index ten fixed integers and run a handful of ranges; reindexing into shared, emptied and re-created value buckets, multi-bucket trees, None, strings, tuples and 64-bit ids are combinations they never reach.',
  [FI], [('index_doc/unindex_doc keep the value->docids and docid->value maps in step', FI), ('apply: union of the value buckets in the range', FI)],
  [('forward map', 'value -> set of docids', FI), ('reverse map', 'docid -> value', FI)], ['FieldIndex.apply'])

P('C02', 'Field sort returns the right documents in value order',
  'Sorting a collection of document ids by a field index yields each indexed id among them exactly once, in ascending (or, if reversed, descending) order of their current values, skips ids that are not indexed, and with a limit n yields n of the smallest (or largest) instead. The outcome does not depend on how many ids are passed, their container type, the limit or the kind of orderable values stored, None included; a limit below 1 raises ValueError.',
  ['inputs', 'histories', 'configurations'], 'every indexed population, every collection of ids (set, tree set, list, mapping; duplicates; unindexed ids), every limit and direction, for the field index and any other index using the sorting mixin',
  'The tests force the internal strategies with private switches on five documents; which strategy runs really depends on sizes and limits, and their agreement over all populations is not tested.',
  [FS, FI], [('strategy choice lazy / n-best / full sort', FS), ('skip of unindexed ids', FS)], observe=['FieldIndex.sort'])

P('C03', 'Keyword search is exact after any history',
  'After any sequence of indexing, reindexing, unindexing and clearing, a keyword index answers an "and" query with exactly the documents whose current keywords include all queried keywords and an "or" query with exactly those that include at least one. A string query means that one keyword, a dictionary query carries its own operator ("and" by default), an empty query matches nothing, unknown operators and a string given as a document\'s keywords raise TypeError; indexing a document with no keywords removes it.',
  ['histories', 'inputs'], 'every history of index/reindex/unindex/clear with any orderable keywords and every query and operator',
  'Tests use five documents with fixed German keywords; incremental difference computation on reindexing, and keywords shared by more documents than the representation threshold, are covered by single examples only.',
  [KW], [('reindex by keyword difference', KW), ('search: multiunion / smallest-first intersection', KW)],
  [('forward map', 'keyword -> docids', KW), ('reverse map', 'docid -> keywords', KW)], ['KeywordIndex.search', 'KeywordIndex.apply', 'KeywordIndex.has_doc'])

P('C04', 'Keyword normalization applies alike to documents and queries',
  'An index with a normalizer (the case-insensitive index, or any subclass that overrides the normalization hook) answers every query as if the plain keyword index had been given the normalized keywords on both sides. In particular, changing the letter case of indexed or queried keywords never changes a case-insensitive answer, and a document whose keywords all normalize away is not in the index.',
  ['inputs', 'histories', 'configurations'], 'every history and query, with any normalizer that maps a sequence of keywords to a sequence of keywords (dropping, merging or splitting some)',
  'Tests try one mixed-case example; normalizers that merge or drop keywords, on first indexing and on reindexing, are not tried.',
  [KW], [('normalize() called in index_doc and in search', KW)], observe=['CaseInsensitiveKeywordIndex.search', 'KeywordIndex.normalize'])

P('C05', 'Keyword storage tuning never changes answers',
  'Whatever value the tree threshold has, however it is changed during the life of a keyword index, and whenever optimize() is called, the index gives the same answers and statistics as an index that was never tuned.',
  ['configurations', 'histories'], 'every threshold value (per index, changed at any time), every placement of optimize() in a history',
  'Tests convert one keyword once in each direction; growth and shrinkage across the threshold in the middle of histories with several keywords is not covered.',
  [KW], [('Set -> TreeSet conversion while indexing', KW), ('optimize() converts both ways', KW)], observe=['KeywordIndex.optimize', 'KeywordIndex.tree_threshold'])

P('C06', 'Topic sets follow their filters, and topic queries combine them exactly',
  'After any history, each topic filter holds exactly the documents whose most recent indexing since the filter was added (or cleared) satisfied the filter\'s expression, an expression that fails counting as not satisfied, and unindexed documents being in none. "or" and "and" queries over existing filter ids return exactly the union and the intersection of those sets, and clearing filters empties them but keeps them in place.',
  ['histories', 'inputs'], 'every sequence of adding, replacing, deleting and clearing filters, changing expressions, indexing, reindexing and unindexing objects, and every query',
  'Tests index each object once under three fixed expressions; reindexing an object under changed attributes, or changing filters in between, is not covered.',
  [TO, TF], [('filters re-evaluated by index_doc', TF), ('search over selected filters', TO)], observe=['TopicIndex.search', 'TopicIndex.apply', 'PythonFilteredSet.getIds'])

P('C07', 'Boolean text queries match exactly the right documents',
  'After any history of indexing, reindexing, unindexing and clearing, a text index query built from words, phrases, prefix patterns, AND, OR, NOT, hyphens and parentheses returns exactly the documents whose normalized words satisfy the boolean expression. Stop words in a query neither match nor exclude anything, and the result does not depend on the letter case of words and operators nor on the ranking method.',
  ['inputs', 'histories'], 'every document collection and history, every well-formed query, both ranking methods, default and custom pipelines',
  'The query-engine tests use five tiny documents and a dozen fixed queries on a never-modified index.',
  [TI, QP, PT, BI, SO, LX], [('parse tree execution', PT), ('weighted set operations', SO), ('inverted index maintenance', BI), ('query parser', QP)], observe=['TextIndex.apply'])

P('C08', 'Phrase search finds exactly the documents containing the phrase',
  'A phrase search returns a document if and only if the phrase\'s words, after normalization, occur in it one directly after another in the given order. This holds whatever ids the lexicon gave to those words, however large the vocabulary, and whatever other words the document contains.',
  ['inputs', 'histories', 'configurations'], 'every document text, every phrase, every assignment of word ids up to 28 bits, after any history',
  'Phrase tests use vocabularies of a few words, so word ids never need more than one code unit, and never use words with ids of mixed encoded length.',
  [BI, WC], [('substring match on the encoded word-id string', BI), ('self-synchronizing encoding', WC)],
  [('encoded word list', 'docid -> encoded word ids', BI)], ['BaseIndex.search_phrase', 'TextIndex.apply'])

P('C09', 'Glob search matches exactly the words the pattern describes',
  'For any pattern that does not start with a wildcard, glob lookup yields exactly the vocabulary words matched by the whole pattern, * standing for any characters, ? for exactly one and every other character for itself, and a glob search returns exactly the documents containing such a word. A pattern starting with a wildcard raises QueryError.',
  ['inputs', 'histories'], 'every vocabulary (any word characters a pipeline may let through) and every pattern',
  'Tests look up two or three patterns among a handful of ASCII words; characters that are special to the regular-expression matcher behind it are not tried.',
  [LX, BI], [('pattern translated to a regular expression over a key range', LX), ('search_glob', BI)], observe=['Lexicon.globToWordIds', 'BaseIndex.search_glob'])

P('C10', 'Okapi scores equal the documented BM25 formula',
  'For every word and every document containing it, the Okapi index\'s score equals TF*IDF by the documented formula (k1=1.2, b=0.75), computed from the documents currently indexed: their number, how many contain the word, how often this one does, its length and the mean length. Documents not containing the word get no score.',
  ['inputs', 'histories'], 'every document collection reached by any history of indexing, reindexing, unindexing and clearing',
  'Tests check fixed numbers on a few small static collections; statistics such as total length drifting over updates are only touched by single examples.',
  [OK, BI, CC], [('running total of document lengths', OK), ('frequencies and document lengths kept per document', OK), ('scoring loop', CC)],
  [('total document length', 'sum of word counts of all documents', OK)], ['OkapiIndex.search'])

P('C11', 'Cosine scores equal the documented formula',
  'For every word and every document containing it, the cosine index\'s score equals the documented cosine measure (document weights 1+log f normalized by the document vector length, times log(1+N/f(t))), computed from the documents currently indexed. Documents not containing the word get no score.',
  ['inputs', 'histories'], 'every document collection reached by any history of indexing, reindexing, unindexing and clearing',
  'Tests check one static three-document collection; weights after reindexing with changed counts are not covered.',
  [CO, BI], [('per-document normalized weights', CO), ('reindex touches only changed weights', BI)], observe=['CosineIndex.search'])

P('C12', 'Query scores combine word scores as the query says',
  'The score of a document for a query is the sum, over the parts of the query that it matches, of the scores of their words, phrase words and pattern-matched words, a repeated word counting each time; an alternative that the document does not match contributes nothing, and excluded terms change only which documents appear. The text index returns this sum divided by the weight the ranking index computes for the query\'s positive terms.',
  ['inputs', 'histories'], 'every query tree and document collection, both ranking methods',
  'Tests check a few fixed query/score pairs to four decimals.',
  [TI, PT, SO, BI], [('weighted union and intersection', SO), ('normalization by query weight', TI), ('terms() of a parse tree', PT)], observe=['TextIndex.apply', 'BaseIndex.search_phrase', 'BaseIndex.search_glob', 'BaseIndex.query_weight'])

P('C13', 'A text index depends only on its current documents',
  'After any history of indexing, reindexing, unindexing and clearing, a text index gives the same matches, the same scores, the same per-document word lists and the same statistics as a new index into which only the currently indexed documents, with their last texts, were put in any order.',
  ['histories'], 'every history over any documents, both ranking methods, both id families',
  'Tests compare a few fixed update sequences; residue of earlier texts (counts, weights, lengths, representation switches at ten documents per word) depends on long histories.',
  [BI, OK, CO], [('incremental reindexing', BI), ('dict/tree switch for per-word maps', BI), ('clear resets all state', OK)], observe=['BaseIndex.search', 'TextIndex.apply', 'BaseIndex.get_words'])

P('C14', 'The C scoring extension equals the Python scorer and is memory safe',
  'For every input the compiled scoring routine produces the same scores as the documented formula in Python, and an index using it answers like the pure-Python configuration. It never corrupts memory or changes the reference counts of its arguments, whether it returns or raises, and malformed input makes it raise an ordinary exception.',
  ['inputs', 'configurations'], 'every list of (docid, frequency) pairs, length mapping, idf and mean length, including malformed ones and containers that raise; every document collection',
  'The tests check that the module imports and run the same few examples with and without it; reference counting and error paths are not observable there.',
  [CC, OK], [('score()', CC), ('PURE_PYTHON switch', OK)], observe=['zope.index.text.okascore.score', 'OkapiIndex.search'])

P('C15', 'The query parser implements exactly the documented grammar',
  'Every query string either parses or raises ParseError, nothing else; strings in the documented grammar parse to the tree the grammar prescribes (NOT applying to the term that follows it, a stray double quote being ignored), and strings outside it, as well as queries left without a positive word, raise ParseError. The list of ignored terms after a parse is exactly the terms that normalized to nothing in that query, in order, and a tree\'s terms are exactly its words outside NOT.',
  ['inputs', 'configurations'], 'every string (arbitrary text as typed by users) and every token sequence, for any lexicon pipeline, on new and reused parsers',
  'Some forty fixed query strings are tested against expected trees.',
  [QP, PT], [('tokenizer', QP), ('recursive descent', QP), ('terms()', PT)], observe=['QueryParser.parseQuery', 'QueryParser.parseQueryEx', 'QueryParser.getIgnored'])

P('C16', 'A lexicon is a stable one-to-one map between words and ids',
  'Each distinct word ever taken from source text gets exactly one positive id that never changes, different words get different ids, id-to-word and word-to-id lookups invert each other, and the word count is the number of such words. Looking up search terms, patterns or unknown words never adds words (unknown words map to 0, unknown ids raise KeyError), and a text given as one string or as a list of its pieces means the same.',
  ['histories', 'inputs', 'configurations'], 'every sequence of source texts and lookups, every pipeline',
  'Tests index one or two short texts per lexicon.',
  [LX], [('id allocation', LX), ('two inverse maps', LX)], [('word map / id map', 'word -> id, id -> word', LX)], ['Lexicon.sourceToWordIds', 'Lexicon.termToWordIds', 'Lexicon.get_word', 'Lexicon.get_wid', 'Lexicon.wordCount'])

P('C17', 'Text pipeline elements split, normalize and filter exactly',
  'The splitter yields exactly the maximal runs of word characters in order (for patterns, also keeping wildcards that follow a word character); the HTML splitter does so on the lower-cased text after replacing tags and entities by blanks; the case normalizer lower-cases; the stop-word removers drop exactly the listed stop words (and single 8-bit characters). Elements never reorder or merge words across input pieces, and do not modify their input.',
  ['inputs'], 'every list of strings, any Unicode text, any markup-like text',
  'Tests use about ten fixed strings.',
  [LX, HS, SD], [('regular expressions', LX), ('markup removal', HS), ('stop word table', SD)], observe=['Splitter', 'HTMLWordSplitter', 'CaseNormalizer', 'StopWordRemover', 'StopWordAndSingleCharRemover'])

P('C18', 'Statistics are exact after any history',
  'After any history, the document count of a field, keyword or text index is the number of documents currently indexed (for keyword indexes, those with at least one keyword), and its word count is the number of distinct values, keywords or words that occur in those documents. Both are zero after clearing.',
  ['histories'], 'every sequence of indexing, reindexing (same, different or no content), unindexing (known and unknown ids) and clearing on every index kind and family',
  'Counters are maintained incrementally; tests check them after one or two operations.',
  [FI, KW, BI, TI, OK], [('incremental length counters', BI), ('document counters', KW), ('document counters', FI)], observe=['documentCount', 'wordCount'])

P('C19', 'Unindexing removes every trace of a document',
  'After a document is unindexed, no query returns it, no stored state of the index refers to its id any more, and the index answers as if it had never been indexed. Unindexing an unknown id changes nothing.',
  ['histories', 'inputs'], 'every index kind, every history before and after, every document',
  'Tests unindex one document and look at one private map; "no references" is a statement about all state after all histories.',
  [FI, KW, TO, TF, BI, OK], [('unindex_doc', BI), ('unindex_doc', KW), ('unindex_doc', FI), ('unindex_doc', TF)], observe=['unindex_doc', 'pickled state'])

P('C20', 'Indexes persist: commits last, aborts leave nothing',
  'When an index is stored in a ZODB database, everything done to it in a committed transaction is seen by every later connection, and everything done in an aborted transaction is gone from it: queries, sorting and statistics then answer from exactly the committed operations. Pickling and unpickling an index preserves its answers in the same way.',
  ['histories', 'crash_points'], 'every index kind, every placement of commits, aborts and reopenings in a history (abort or reopening standing for a crash before or after a commit)',
  'The tests never store an index in a database; a change that is visible in memory but not registered for storage is invisible to them.',
  [FI, KW, TO, TF, BI, OK, CO, TI, LX], [('Persistent base classes and BTrees', FI), ('re-assignment of changed plain dicts', BI), ('filter sets kept in a persistent set', TF), ('lexicon word count unloaded before use', LX)], observe=['ZODB connection', 'pickle'])

P('C21', 'Concurrent transactions conflict or merge correctly, never corrupt',
  'When several transactions change the same stored index concurrently, each either commits or fails with a conflict error, and the stored index then answers as if the committed transactions had run one after another. No update of a committed transaction is lost, and the index stays consistent for later updates.',
  ['schedules', 'histories'], 'every interleaving of two or three transactions (taken at the same snapshot, committed in any order, retried on conflict), updating different documents that share values, keywords or words, and at most one document in common',
  'There is no test with more than one connection; counters and sets rely on automatic conflict resolution whose result depends on the schedule.',
  [FI, KW, TF, BI, LX, OK], [('Length counters merge', BI), ('set and tree conflict resolution', KW), ('word id allocation', LX)], observe=['ZODB commits'])

P('C22', 'Queries are read-only and their results are independent',
  'Running a query, sort or count never changes what the index answers afterwards and never modifies the query object passed in. A returned result set or mapping is independent of the index: changing it does not change the index, and updating the index (even while iterating over the result) does not change it.',
  ['inputs', 'histories'], 'every index kind and state, every query, including repeated use of one query object',
  'Tests run each query once on a throw-away index.',
  [FI, KW, TO, TI, SO, BI], [('fresh result sets', KW), ('score normalization writes into the result', TI), ('query dictionaries', TO)], observe=['apply', 'search', 'sort'])

P('C23', 'A rejected call leaves the index as it was',
  'When indexing or a query raises because of its arguments (an id outside the family\'s range or not an integer, values or texts the index cannot take, malformed queries), the index afterwards gives the same answers, scores and statistics as before the call.',
  ['inputs', 'histories'], 'every index kind and state, every kind of rejected argument',
  'Tests check that the exception is raised and then throw the index away.',
  [FI, KW, BI, OK, TO], [('order of updates in index_doc', FI), ('order of updates in index_doc', BI), ('order of updates in reindexing', OK)], observe=['index_doc', 'apply'])

P('C24', 'Both id families behave alike and yield combinable results',
  'An index of the 64-bit family answers like one of the 32-bit family for the same operations, and keeps doing so when all document ids are moved anywhere within the 64-bit range. Every result is a set or mapping of the index\'s own family, with ids in ascending order, so that it can be combined with other results of that family.',
  ['configurations', 'histories', 'inputs'], 'every index kind, history and query, every range of ids including negative and extreme ones',
  'The 64-bit tests repeat the 32-bit ones with small ids.',
  [FI, KW, TO, BI, SO, PT, FS], [('family attribute used for all containers', BI), ('set operations of the family', SO)], observe=['apply', 'search', 'sort'])

P('C25', 'Word-id encoding is lossless and self-synchronizing',
  'Decoding an encoded list of integers of at most 28 bits gives the list back, encodings of lists concatenate, each integer takes ceil(bits/7) code units, and integers of more than 28 bits are refused. An encoded list occurs inside another encoded list only at a position where an integer\'s encoding starts.',
  ['inputs'], 'every list of non-negative integers below 2**28',
  'Tests encode single integers, at strides, and never check searching.',
  [WC], [('tables for up to 14 bits', WC), ('arithmetic for 15 to 28 bits', WC)], observe=['widcode.encode', 'widcode.decode'])

P('C26', 'Rice coding is lossless',
  'For every parameter from 0 to 16, decoding a Rice-coded list of positive integers gives the list back, appending values one by one equals encoding the list, and the bit array behind it reads back exactly the bits written, also after pickling. Delta-encoding an ascending list and decoding it gives the list back.',
  ['inputs'], 'every parameter 0..16, every list of integers >= 1, every strictly ascending list of integers',
  'The delta test uses only ranges, whose differences are all equal, and the parameter 0 is never used.',
  [RC], [('unary/binary split', RC), ('delta decoding', RC)], observe=['ricecode.encode', 'ricecode.encode_deltas', 'ricecode.decode_deltas', 'BitArray'])

P('C27', 'N-best keeps exactly the best-scoring items',
  'After any sequence of additions and removals of the smallest, the N-best chooser holds, after each addition, the N best-scoring of the items it held before and the new one, each with its own score, and returns them largest score first. Removing the smallest returns a lowest-scoring held pair, adding many equals adding each, the length never exceeds the capacity, and misuse raises ValueError or IndexError.',
  ['histories', 'inputs'], 'every capacity and every sequence of add, addmany and pop_smallest with any (also equal) scores',
  'Tests run a few fixed sequences.',
  [NB], [('sorted parallel lists', NB)], observe=['NBest'])

P('C28', 'Mass weighted union and intersection equal the pointwise sums',
  'For any list of (mapping, weight) pairs, the mass union maps every id in any mapping, and the mass intersection every id in all of them, to the sum of weight times value. The outcome does not depend on the order of the list or the sizes and types of the mappings, and the inputs are unchanged.',
  ['inputs'], 'every list of (bucket or tree, weight) pairs, of any length, with empty and repeated mappings, in both families',
  'Tests try a few fixed pairs and triples.',
  [SO, NB], [('smallest-first intersection', SO), ('merge of the two smallest', SO)], observe=['mass_weightedUnion', 'mass_weightedIntersection'])

P('C29', 'Data stored by old versions is upgraded correctly on first update',
  'A text index stored without counter objects (as releases before 3.5.1 did) gives, after its next document is added (or the next removal that changes the old counter), exactly the counts and scores of an index built with current code, whichever operation triggers the upgrade and whichever of its counters are old.',
  ['histories', 'configurations'], 'every index state, every subset of counters in the old format, every first operation and later history',
  'Tests upgrade nearly empty indexes, one counter at a time.',
  [BI, OK, LX], [('opportunistic upgrade of counters', BI), ('opportunistic upgrade of total length', OK)], observe=['documentCount', 'wordCount', 'search'])

P('C30', 'Indexes sharing a lexicon do not affect each other',
  'Any number of text indexes may share one lexicon: each gives the same answers, scores and statistics as if it had a lexicon of its own, whatever words the others add, remove or query, and clearing one leaves the others untouched.',
  ['histories', 'configurations'], 'every interleaving of operations on two or three indexes of any ranking method sharing a lexicon',
  'No test shares a lexicon between populated indexes.',
  [BI, LX, TI], [('out-of-vocabulary filtering per index', BI), ('append-only lexicon', LX)], observe=['TextIndex.apply', 'BaseIndex.search'])

P('C31', 'The query weight bounds document scores',
  'For every query without wildcards, the query weight computed from its positive terms is an upper bound on every document score the query produces, so scores returned by the text index are greater than 0 and at most 1.',
  ['inputs', 'histories'], 'every document collection and every wildcard-free query, repeated terms included, both ranking methods',
  'Tests only check single-term weights on a one-document index.',
  [OK, CO, TI], [('query_weight', OK), ('query_weight', CO)], observe=['query_weight', 'TextIndex.apply'])

P('C32', 'Indexes share no state with other indexes, copies, callers or threads',
  'Every index answers from its own history alone: creating, filling, clearing, querying or upgrading any other index of any kind, a pickled or deep copy of the index taken at any time, changing the lists, sets and dicts that were passed in after the call, and threads working on copies of their own at the same time never change its answers, scores, statistics or order.',
  ['histories', 'schedules', 'configurations'], 'every interleaving of histories on any number of indexes of all kinds, copied at any point, and every interleaving of threads that have an index each',
  'Tests use one index at a time and throw arguments away; state shared by way of a class, module, default argument or kept argument is invisible to them.',
  [BI, LX, FI, KW, TO], [('instances are independent', BI), ('pipeline and vocabulary per lexicon', LX)], observe=['FieldIndex.apply', 'KeywordIndex.search', 'TopicIndex.search', 'TextIndex.apply'])

P('C33', 'How postings are stored never changes text answers',
  'Whether a text index keeps the documents of a word in a small mapping inside its bucket or in a tree of its own, whatever the size at which it changes over (DICT_CUTOFF, changed at any time), and whenever the objects are stored, evicted and loaded again, all results, scores and statistics stay those of the indexed documents.',
  ['configurations', 'histories'], 'every cutoff (changed at any time), every history in which words gain and lose documents, with commits and evictions anywhere',
  'Tests convert one word once; words that shrink below the cutoff, grow again or are loaded from a database in between are not covered.',
  [BI, OK, CO], [('dict -> IFBTree conversion while indexing', BI), ('removal from either form', BI)], observe=['BaseIndex.search', 'TextIndex.apply', 'documentCount', 'wordCount'])

P('C34', 'What the released version stored stays usable',
  'An index of any kind that the released version of the package stored (pickled, or in a database), after any history, is loaded by the current code with all its documents, answers, scores and statistics, takes every further update, and can be stored again. Stored word-id codes are decoded to the same ids, and lists are encoded to the same bytes.',
  ['histories', 'configurations'], 'every index state that the released version can reach and store, in every kind of index and family, and every later history',
  'Tests create all data with the code that reads it: a change of what is stored that reader and writer make together passes them and breaks every existing database.',
  [FI, KW, TO, TF, BI, OK, CO, LX, WC, RC], [('meaning of the stored maps', BI), ('word-id code', WC), ('persistent counters', FI)], observe=['unpickled indexes', 'widcode.decode'])

P('C35', 'Updates stay local',
  'Two concurrent transactions that index new documents into a field, keyword or topic index, or remove documents, each documents of its own, with values and keywords that other documents keep, both commit without a conflict as long as no bucket of the small index splits or empties. And in a field, keyword or text index of any size, indexing or removing one short document stores a bounded number of objects of bounded size.',
  ['schedules', 'histories'], 'every pair of such transactions on every small field, keyword or topic index, in either order of commit; every update of a single document in an index of any size',
  'There are no connections and no stored sizes in the tests: a counter or a cache kept as a plain attribute of the index passes all of them, and makes all concurrent updates conflict.',
  [FI, KW, TO, TF, BI, OK], [('Length objects for counters', FI), ('BTrees for all maps', KW)], observe=['commits'])

P('C36', 'The compiled and the pure-Python configuration are interchangeable',
  'With PURE_PYTHON set (BTrees, persistent and the Okapi scorer all in Python, as on PyPy) every index answers, sorts, counts and scores as it does with the C extensions, after every history of updates and queries; and an index that one of the two configurations stored, at any point of a history, is loaded by the other with all its documents, answers, scores and statistics, and takes every further update there.',
  ['configurations', 'histories'], 'every history on an index of any kind and family, in either configuration, with the index handed over to the other configuration at any points',
  'A test run uses one configuration. The tests of the pure-Python scorer check one formula on one tiny index, and nothing ever carries an index from one configuration to the other.',
  [FI, KW, TO, TF, BI, OK, CO, LX], [('family-independent maps and sets', FI), ('Python scorer beside the C scorer', OK)], observe=['unpickled indexes', 'FieldIndex.apply', 'KeywordIndex.search', 'TextIndex.apply'])

P('C37', 'What is interrupted leaves nothing behind',
  'When an update of an index stored in a database is interrupted anywhere in the code of the package, by a signal, a timeout or a failed allocation, aborting the transaction takes the index back to exactly the committed operations, on the same connection as on any other, and later updates build on these. A query, sort or count that is interrupted anywhere changes nothing at all, without anything being aborted.',
  ['fault points', 'histories'], 'every point of every update or query at which an exception can arrive, after every history, followed by every history',
  'Tests let every call come to its end. State that is changed before the database knows of it, filled step by step, or put back at the end of a query is seen only when the call stops in between.',
  [FI, KW, TO, TF, BI, OK, CO, LX], [('postings in plain dicts inside a bucket', BI), ('no state kept between calls', LX)], observe=['FieldIndex.apply', 'KeywordIndex.search', 'TopicIndex.search', 'TextIndex.apply'])

P('C38', 'Queries stay local',
  'A query, sort or lookup in a stored index of any size loads, beyond a small constant number of objects, only such as hold its answer, or the postings of the values, words or filters that it names or matches (a text search, in addition, the lengths of the documents): its cost does not grow with the rest of the index.',
  ['inputs', 'histories'], 'every query of every index of any size, with nothing in the cache',
  'Tests use a few documents in memory, where walking the whole index costs nothing and gives the same answer.',
  [FI, KW, TO, BI, OK, CO, LX, SO], [('range search in the forward map', FI), ('sets per keyword', KW), ('prefix range of the words', LX)], observe=['objects loaded from the storage'])

with open(OUT, 'w') as f:
    for r in ROWS:
        f.write(json.dumps(r, ensure_ascii=False) + '\n')
print(len(ROWS))
