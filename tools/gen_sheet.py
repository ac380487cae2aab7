#!/usr/bin/env python3
"""Writes harness/src/sheet.rs, the reference token sheet, from the published XML sheet. Run once;
the result is committed, so that a later change of the table the program embeds is noticed."""
import os, sys, xml.etree.ElementTree as ET
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = sys.argv[1] if len(sys.argv) > 1 else '/repo/src/calculator/tokens/standard_tokens/8X.xml'
RANK = {'TI-82': 10, 'TI-83': 20, 'TI-83+': 30, 'TI-84+': 40, 'TI-84+CSE': 50, 'TI-84+CE': 60}
rows = []
def os_(e):
    if e is None:
        return 'None'
    v = [int(x) for x in e.findtext('os-version').split('.')]
    return f'Some(({RANK[e.findtext("model")]}, &{v}))'
def tok(t, pre):
    key = bytes.fromhex((pre + t.get('value')).replace('$', ''))
    for v in t.findall('version'):
        l = [x for x in v.findall('lang') if x.get('code') == 'en']
        assert len(l) == 1 and len(v.findall('lang')) == 1
        f = lambda s: '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'
        rows.append((key, f'    E {{ key: &{list(key)}, since: {os_(v.find("since"))[5:-1]}, until: {os_(v.find("until"))}, text: [{f(l[0].get("display"))}, {f(l[0].findtext("accessible"))}, {f(l[0].get("ti-ascii"))}] }},'))
for c in ET.parse(src).getroot():
    if c.tag == 'token':
        tok(c, '')
    else:
        for t in c:
            tok(t, c.get('value'))
# later versions of a token follow earlier ones
rows.sort(key=lambda r: r[0])
with open(f'{V}/harness/src/sheet.rs', 'w') as o:
    o.write('''//! The published token sheet (TI-Toolkit 8X.xml), written by tools/gen_sheet.py.
/// a token as it is from one OS on, to another
pub struct E {
    pub key: &'static [u8],
    pub since: (u32, &'static [u32]),
    pub until: Option<(u32, &'static [u32])>,
    /// pretty, accessible, TI ASCII
    pub text: [&'static str; 3],
}
pub static SHEET: &[E] = &[
''')
    for r in rows:
        o.write(r[1] + '\n')
    o.write('];\n')
print(len(rows))
