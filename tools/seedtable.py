#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md (between the SEEDS markers)."""
import json,glob,os,re
rows=["| change | property | what it needs | caught by |","|---|---|---|---|"]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append("| %s | %s | %s | %s |"%(os.path.basename(os.path.dirname(f)),m["property"],m["needs"],m.get("caught_by",m["property"])))
t="<!-- SEEDS -->\n"+"\n".join(rows)+"\n<!-- /SEEDS -->"
s=open('/verif/DESIGN.md').read()
s=re.sub(r'<!-- SEEDS -->.*<!-- /SEEDS -->|^SEEDTABLE$',lambda _:t,s,flags=re.S|re.M)
open('/verif/DESIGN.md','w').write(s)
