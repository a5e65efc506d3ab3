# rewrites the table of planted bugs in DESIGN.md
import json,os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
s=open('DESIGN.md').read()
i=s.index("| id | breaks | needs |")
rows=["| id | breaks | needs |","|---|---|---|"]
for d in sorted(os.listdir('seeded')):
    m=json.load(open(f'seeded/{d}/meta.json')); rows.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} |")
open('DESIGN.md','w').write(s[:i]+"\n".join(rows)+"\n")
