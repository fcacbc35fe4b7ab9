import json,os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=open(ROOT+'/tools/design.tmpl').read()
rows=["### Planted bugs","","| id | property | needs | breaks | caught by |","|---|---|---|---|---|"]
caught=json.load(open(ROOT+'/tools/caught.json')) if os.path.exists(ROOT+'/tools/caught.json') else {}
for d in sorted(os.listdir(ROOT+'/seeded')):
    m=json.load(open(f'{ROOT}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(d, m['property'])} |")
mut=open(ROOT+'/tools/mut.md').read() if os.path.exists(ROOT+'/tools/mut.md') else "(mutation campaign running)"
s=s.replace('@SEEDED@','\n'.join(rows)).replace('@MUT@',mut)
open(ROOT+'/DESIGN.md','w').write(s)
