#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.PROPS and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f'{V}/tools')
import checks
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/check.py --setup',
    'checks': [],
    'not_applicable': [],
    'notes': 'Every check symbolically executes the LLVM IR rustc emits for the current /repo (see DESIGN.md). Exit 2 with a NO-ANSWER line: the tree does not build, or uses something the engine cannot execute.',
}
for p in props:
    i = p['id']
    if i in checks.PROPS:
        s = checks.PROPS[i]
        m['checks'].append({
            'property': i,
            'quick_cmd': f'python3 tools/check.py {i}',
            'thorough_cmd': f'python3 tools/check.py {i} --tier thorough',
            'technique': 'symbolic execution of the compiled code (LLVM IR) with an SMT solver',
            'level': 'model_checking',
            'level_note': f'Within the bounds: {s["bounds"]}. Outside: {s["outside"]}. Trusted: the IR engine, its model of the operating system and the solver; witnesses and counterexamples are replayed on the native build.',
        })
    else:
        m['not_applicable'].append({'property': i, 'reason': checks.NOT_APPLICABLE.get(i, 'no check yet')})
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', [x['property'] for x in m['not_applicable']])
