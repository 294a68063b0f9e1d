"""Writes the last sections of DESIGN.md: defects from known_findings.json, planted bugs from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
MISSED = {
    'c02-emin': 'configurations with a large `base` exponent', 'c06-annotation-length': '`trees.many_annotations`',
    'c07-digits16': '`text_data.hard_float`', 'c14-ordered': 'the last document of `binary_decode.EDITED`',
    'c15-ivm-gap': '`text_decode.edited`', 'c15-lob-quotes': '`text_decode.edited`', 'c15-long-hour': '`text_decode.edited`',
    'c19-faux-annotated': "the 'marker' items", 'c20-first-import-only': 'tables with gaps',
    'c20-imported-key': "tokens of kind 'elsewhere'", 'c21-day-apart': '`equality.pairs` with picked dates',
    'c22-adjust-day': 'a rewritten `timestamps.adjusted`', 'c23-copy-newest': 'add and copy operations',
    'c25-complete-early': 'events without a depth', 'c28-deep-header': '`buffer_tree` within nested containers',
}
try:
    MISSED.update(json.load(open('tools/missed.json')))
except IOError:
    pass
s = open('DESIGN.md').read()
s = s[:s.index('## Defects found in amzn/ion-python')]
out = ['## Defects found in amzn/ion-python', '',
       'Each was found by the check of its property (a counterexample that failed when replayed), and repaired with a',
       '"fix:" commit; the check reports it again if it returns. None is left as a known finding.', '']
by = {}
k = json.load(open('known_findings.json'))
for e in (k['findings'] if isinstance(k, dict) else k):
    by.setdefault(e['property'], []).append(re.sub(r'^fixed: property=\S+ \S+ ', '', e['what']))
for p in sorted(by):
    out += ['- **%s**: %s.' % (p, '; '.join(by[p]))]
out += ['', 'Observed and not claimed, because the documents leave it open or the behaviour is deliberate: named tuples are',
        'written as lists or s-expressions like other tuples; a native dict with the key None is refused, while a',
        'field of unknown text (`$0`) is loaded under that key and written again; symbols of unknown text other than `$0` (from a local table with a null or non-string entry)',
        'cannot be written again; concatenated text dumps have no separator; the type of the exception for malformed text;',
        'a binary timestamp of precision YEAR to DAY with an offset loses it in text; a decimal of octets `5E 80`;',
        "Multimap's `==` ignores repeats; decimals with exponents beyond 10**18, which Python cannot compute with.", '',
        '## Planted bugs', '',
        'Kept in seeded/; each is caught by the quick check of its property. "Missed" ones were not caught when they were',
        'written: what then caught them was added because of them.', '',
        '| bug | needs | caught by |', '|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    i = f.split('/')[1]
    m = json.load(open(f))
    out.append('| %s | %s | %s%s |' % (i, m['needs'].replace('|', '\\|'), m['property'],
                                      ', missed at first: ' + MISSED[i] if i in MISSED else ''))
open('DESIGN.md', 'w').write(s + '\n'.join(out) + '\n')
