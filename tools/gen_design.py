#!/usr/bin/env python3
"""Rewrites the tables of DESIGN.md between <!--x--> and <!--/x-->."""
import glob, json, os, re, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(H + '/DESIGN.md').read()
seeds = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    seeds.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m.get('caught', m['property'])} |")
ns = {}
exec(open(H + '/tools/known.py').read(), ns)
known = [f"* {k['property']} `{k['key']}`: {k['what']}" for k in ns['KNOWN']]
fx = json.load(open(H + '/known_findings.json'))
fx = fx['findings'] if isinstance(fx, dict) else fx
fixed = [f"* {x['property']}: {x['what']}" for x in fx if x['status'] == 'fixed']
for k, v in (('seeds', seeds), ('known', known), ('fixed', fixed)):
    d = re.sub(rf'<!--{k}-->.*?<!--/{k}-->', lambda m: f'<!--{k}-->\n' + '\n'.join(v) + f'\n<!--/{k}-->', d, flags=re.S)
open(H + '/DESIGN.md', 'w').write(d)
