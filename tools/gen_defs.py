#!/usr/bin/env python3
"""Writes harness/src/defs.rs, the reference token definitions, from token_definitions.json. Run
once; the result is committed, so that a later change of what is printed is noticed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = sys.argv[1] if len(sys.argv) > 1 else '/repo/src/calculator/tokens/token_definitions.json'
f = lambda s: '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\r', '\\r').replace('\t', '\\t') + '"'
d = json.load(open(src))
with open(f'{V}/harness/src/defs.rs', 'w') as o:
    o.write('''//! The token definitions, written by tools/gen_defs.py: byte code, and what a search prints.
pub static DEFS: &[(&str, &str)] = &[
''')
    for k in sorted(d):
        o.write(f'    ({f(k)}, {f("".join("syntax: %s%s%s%s" % (v["syntax"], chr(10), v["description"], chr(10) * 2) for v in d[k]))}),\n')
    o.write('];\n')
print(len(d))
