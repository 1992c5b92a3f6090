"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- planted bugs -->\n'
rows = ['| bug | file | breaks | needs | caught by |\n|---|---|---|---|---|\n']
for d in sorted(glob.glob(root+'/seeded/*/meta.json')):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    f = sorted({l[6:].strip() for l in open(os.path.dirname(d)+'/patch.diff') if l.startswith('+++ b/')})
    c = m.get('caught_by', m['property'])
    rows.append(f'| {i} | {", ".join(f)} | {m["what_it_breaks"]} | {m["needs"]} | {c} |\n'.replace('|m|', 'abs m'))
p = root+'/DESIGN.md'
s = open(p).read().split(MARK)
open(p, 'w').write(s[0]+MARK+'\n'+''.join(rows)+'\n'+MARK+s[2])
