#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LED_TO = {
    'repeated-dict-key': 'C18: three command line arguments instead of two',
    'simulated-reinstall-runs': 'C36: every option, also reinstall and '
    'interactive',
    'disabled-name-taken': 'C34: entry points and objects named like '
    'disabled plugins',
    'options-kept': 'C30: the context is set up again with other options',
    'shared-lookup-result': 'C05: lookups for other versions in between',
    'empty-version-detected': 'C25: empty version',
    'reversed-version-mapping': 'C26: mapping functions, chains of OSs',
    'keywords-any-case': 'C09: names resembling reserved words',
    'core-installer-not-shown': 'C38: a second core installer',
    'context-as-cause': 'C40: errors raised while another is handled',
    'anchors-for-repeated-dicts': 'C07: output free of anchors',
    'outdated-check-loads-cache': 'C13: is_cache_outdated of damaged caches',
}
LED_TO.update(json.load(open(os.path.join(HERE, 'tools', 'ledto.json'))))
rows = []
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    note = LED_TO.get(d, '')
    caught = 'yes' + (', after strengthening' if note else '')
    if note.startswith('NO:'):
        caught, note = 'no', note[3:].strip()
    rows.append((m['property'], d, m['what_it_breaks'], caught, note))
rows.sort()
path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
a = text.index('<!-- seeds -->')
b = text.index('<!-- end seeds -->')
table = ['<!-- seeds -->', '| property | bug | breaks | caught | '
         'strengthening it led to |', '|---|---|---|---|---|']
table += ['| ' + ' | '.join(r) + ' |' for r in rows]
open(path, 'w').write(text[:a] + '\n'.join(table) + '\n' + text[b:])
