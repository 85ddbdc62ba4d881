import json,os,re
d='/verif/seeded'
rows=["| change | property | needs |","|---|---|---|"]
for i in sorted(os.listdir(d)):
    m=json.load(open(f'{d}/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['needs']} |".replace('\n',' '))
p='/verif/DESIGN.md'; s=open(p).read()
B,E='<!-- bugs -->','<!-- /bugs -->'
t=B+'\n'+'\n'.join(rows)+'\n'+E
s = s.replace('BUGTABLE',t) if 'BUGTABLE' in s else re.sub(re.escape(B)+'.*?'+re.escape(E),lambda m:t,s,flags=re.S)
open(p,'w').write(s)
