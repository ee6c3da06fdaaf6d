"""Fills the tables of DESIGN.md from properties.jsonl, checks.py, bounds.py and seeded/*/meta.json."""
import json, glob, os, re
H = os.path.dirname(os.path.abspath(__file__))
import checks, bounds
o = ['Statements are in properties.jsonl. A harness is one entry function; `quick`/`thorough` are the sizes of the tiers. What the',
     'text calls "every" is symbolic or split by the engine.', '']
def dfs(d): return ', '.join('%s=%s' % kv for kv in d.items())
ps = sorted((json.loads(l) for l in open(H + '/properties.jsonl')), key=lambda p: p['id'])
import props
NOTE = {p['id']: p['_note'] for p in props.L}
for p in ps:
    o += ['### %s %s' % (p['id'], p['title']), '']
    if NOTE.get(p['id']): o += [NOTE[p['id']].replace('\n', ' '), '']
    for h in checks.P.get(p['id'], dict(harness=[]))['harness']:
        q, t = dfs(h['quick']), dfs(h.get('thorough', h['quick']))
        sz = (' (%s%s)' % (q, '; thorough ' + t if t != q else '')) if q else ''
        o.append('* `%s:%s`%s: %s' % (h['file'], h['entry'], sz, bounds.T.get(h['entry'], h['bounds'])))
    o.append('')
for i, r in props.NA: o += ['### %s not applicable' % i, '', r, '']
o += ['## 3. Seeded bugs', '', 'Each was written from the text of a property and the code, confirmed to build and pass the stable tests, and run',
      'against the check of its property. Those marked "at first missed" led to the harness named.', '', '| bug | property | what it breaks | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(H + '/seeded/*/meta.json')):
    d = json.load(open(m)); c = d.get('caught', 'yes')
    o.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['what_it_breaks'].replace('|', '/').replace('\n', ' '), c))
s = open(H + '/DESIGN.md').read()
s = re.sub(r'<!--TABLES-->.*<!--END-->', lambda m: '<!--TABLES-->\n' + '\n'.join(o) + '\n<!--END-->', s, flags=re.S)
open(H + '/DESIGN.md', 'w').write(s)
