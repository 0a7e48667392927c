#!/usr/bin/env python3
# seedtable.py: rewrites the table of planted bugs in DESIGN.md (section 5) from seeded/*/meta.json
import json,glob,os,re
NOTE={'C10-leaf-order':'C10 and C11; missed until withdrawal addresses that look alike were generated',
'C11-leaf-cache':'C11; C10 too since a replica runs in another process','C21-claimed-finalized':'missed until the fake contract kept claims by block',
'C27-first-selector':"missed until proxies' code contained selectors",'C19-nested-read':'647 s until workers stopped after the first blocked case, 166 s since'}
try: NOTE.update(json.load(open('/verif/tools/seednotes.json')))
except OSError: pass
rows=['| planted bug | needs | caught by |','|---|---|---|']
for p in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(p)); m=json.load(open(p))
    rows.append('| %s | %s | %s |'%(i,m['needs'],NOTE.get(i,m['property']) if NOTE.get(i,'').startswith('C') else m['property']+('; '+NOTE[i] if i in NOTE else '')))
d=open('/verif/DESIGN.md').read(); t='\n'.join(rows)
if '@@SEEDS@@' in d: d=d.replace('@@SEEDS@@','<!--seeds-->\n'+t+'\n<!--/seeds-->')
else: d=re.sub(r'<!--seeds-->.*?<!--/seeds-->',lambda _:'<!--seeds-->\n'+t+'\n<!--/seeds-->',d,flags=re.S)
open('/verif/DESIGN.md','w').write(d)
