"""Write MANIFEST.json (python3 tools/mkmanifest.py, in /verif)."""
import json

T = {
 'C01': 'model-based generated histories against a dict model',
 'C02': 'generated populations and sorts against a sorting oracle',
 'C03': 'model-based generated histories against a dict model',
 'C04': 'generated normalizers and histories against a dict model',
 'C05': 'differential generated histories: tuned, untuned, model',
 'C06': 'model-based generated histories against reference sets',
 'C07': 'generated histories and query trees against boolean evaluation',
 'C08': 'generated word-id lists and texts against contiguous-sublist model',
 'C09': 'generated vocabularies and patterns against a reference matcher',
 'C10': 'generated histories against the BM25 formula',
 'C11': 'generated histories against the cosine formula',
 'C12': 'generated query trees against sums of formula scores',
 'C13': 'metamorphic: generated history against rebuilt index',
 'C14': 'differential fuzzing of the C extension against Python, '
        'reference-count invariants, AddressSanitizer',
 'C15': 'grammar-based and free fuzzing against a reference parser',
 'C16': 'model-based generated histories against a dict model',
 'C17': 'generated texts against reference character loops',
 'C18': 'model-based generated histories, counts after every step',
 'C19': 'generated histories, model and scan of the pickled state',
 'C20': 'stateful generation of transactions against a snapshot model',
 'C21': 'generated concurrent schedules against serial orders of a model',
 'C22': 'generated queries and updates, before/after comparison',
 'C23': 'generated rejected calls (fault injection), before/after comparison',
 'C24': 'metamorphic: families and moved ids',
 'C25': 'round trip and occurrence search over generated lists',
 'C26': 'round trip and reference bit strings over generated lists',
 'C27': 'generated histories against the set of allowed outcomes',
 'C28': 'generated mappings against pointwise sums',
 'C29': 'generated histories with downgraded state against a model',
 'C30': 'generated interleavings against models and separate indexes',
 'C37': 'fault injection at generated points of generated histories, against models',
 'C38': 'generated large indexes and queries against a model and bounds on loads',
 'C36': 'generated histories handed between the two configurations, against the models',
 'C35': 'generated transaction schedules and histories against bounds and a model',
 'C34': 'differential generated histories across two versions of the code',
 'C33': 'differential generated histories: tuned, untuned, model',
 'C32': 'generated interleavings of indexes, copies and scheduled threads '
        'against models',
 'C31': 'generated histories and queries, bound as invariant',
}
PY = '/opt/venv/bin/python -B run.py '
NOTE = ('Random structured search with Hypothesis against an explicit oracle: '
        'no case generated within the budget violates the property. Bounds '
        'are in DESIGN.md, counts in the evidence file.')
m = {
    'version': 1,
    'setup_cmd': PY + '--selfcheck',
    'checks': [{
        'property': p, 'quick_cmd': PY + p,
        'thorough_cmd': 'VERIF_TIER=thorough ' + PY + p,
        'technique': 'property-based testing: ' + t,
        'level': 'exploration', 'level_note': NOTE}
        for p, t in sorted(T.items())],
    'not_applicable': [],
    'notes': 'No hooks are used: the checks import /repo/src and compile '
             '/repo/src/zope/index/text/okascore.c into a scratch directory.',
}
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
assert sorted(ids) == sorted(T), set(ids) ^ set(T)
with open('MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
