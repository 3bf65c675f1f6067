#!/usr/bin/env python3
"""Writes DESIGN.md: head + one section per property (from checks.py and properties.jsonl) + findings + planted bugs"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'harness')); sys.path.insert(0, os.path.join(here, 'tools'))
from checks import CHECKS
ORACLE = {
 'C01': 'reference encoder/decoder `Spec<T>`; equality includes order, emptiness of optionals and pointees',
 'C02': 'as C01, plus sharing identity; the source object is destroyed (and freed memory overwritten) before the document is read',
 'C03': 'byte equality of direct text, printed DOM and the text of the reference encoding',
 'C04': 'reference decoder `Spec<T>::dec` on the independently parsed document: verdict and value',
 'C05': 'independent strict RFC 8259 recogniser / token automaton',
 'C06': 'exact integer arithmetic (128-bit) on the literal',
 'C07': 'bit equality; `strtod`-independent exact decimal comparison (big integers) for nearest-double',
 'C08': 'reference decoder on every assignment of member states',
 'C09': 'reference decoder that returns the set of admissible offending locations (JSON Pointer and byte range)',
 'C10': 'independent RFC 4648 codec; exact-size heap blocks under AddressSanitizer',
 'C11': 'independent civil-calendar arithmetic',
 'C12': 'model graph: partition of pointer slots into objects',
 'C13': 'reference resolver over the document (RFC 6901) incl. type and order of definition',
 'C14': 'AddressSanitizer, UBSan, exact balance of heap bytes around every call, exact-size buffers',
 'C15': 'allocation ledger and the outcome without fault: exception propagates, nothing leaks, nothing is destroyed twice, a retry succeeds',
 'C16': 'plain string comparison of key and names',
 'C17': 'outcome of the same call run alone',
 'C18': 'outcome of the same call in a fresh process',
 'C19': 'independent JSON Schema (2020-12 subset) interpreter against `Conf<T>`',
 'C20': 'presence of an unrepresentable value, known by construction',
 'C21': 'byte equality, independent unescaping',
 'C22': 'reference decoder of each alternative on its own',
 'C23': 'stack of (kind, id, address range) records; live-object ledger',
 'C24': 'the enumerator table itself',
 'C25': 'reference encoder/decoder of the user types; the refused or throwing value planted at a known place',
 'C26': 'expected texts, values and refusals written in the generated program; equal schema text between configurations; a control program without the library decides whether a configuration is usable',
}
out = [open(os.path.join(here, 'tools/design_head.md')).read().rstrip(), '']
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
for p in props:
    i = p['id']; c = CHECKS.get(i)
    out.append('### %s %s\n' % (i, p['title']))
    if not c:
        out.append('Not claimed yet (listed under `not_applicable`).\n'); continue
    ev = ''
    try:
        e = json.load(open(os.path.join(here, 'tools/cost.json'))).get(i)
        ev = e or ''
    except OSError:
        pass
    out.append('*Enumerated:* ' + c['rule'] + '.\n')
    out.append('*Oracle:* ' + ORACLE[i] + '.\n')
    out.append('*Level:* %s. *Beyond the tests:* %s%s\n' % (c['level'], p['why_tests_cant'], (' *Cost and coverage (quick):* ' + ev) if ev else ''))
out.append('## Findings\n')
out.append('Genuine defects were repaired by `fix:` commits in /repo (listed with their commits in `KNOWN_FINDINGS.jsonl`, status `fixed`). Recorded, not repaired:\n')
nfix = 0
for l in open(os.path.join(here, 'KNOWN_FINDINGS.jsonl')):
    k = json.loads(l)
    if k['status'] == 'known':
        out.append('* %s: %s' % (k['property'], k['what']))
    else:
        nfix += 1
out.append('\nRepaired: %d.\n' % nfix)
for l in open(os.path.join(here, 'KNOWN_FINDINGS.jsonl')):
    k = json.loads(l)
    if k['status'] == 'fixed':
        out.append('* %s `%s` %s' % (k['property'], k['commit'], k['what']))
out.append('')
out.append(open(os.path.join(here, 'tools/design_tail.md')).read().rstrip())
cf = os.path.join(here, 'tools/catches.json')
if os.path.exists(cf):
    out.append('\n## Planted bugs and the checks that catch them\n\n| bug | property | needs | caught by |\n|---|---|---|---|')
    cat = json.load(open(cf))
    for s in sorted(os.listdir(os.path.join(here, 'seeded'))):
        m = json.load(open(os.path.join(here, 'seeded', s, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'], ', '.join(sorted(cat.get(s, {}).get('caught', []))) or 'not caught'))
open(os.path.join(here, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
