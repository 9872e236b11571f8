# regenerates the sections of DESIGN.md that list findings and planted bugs
import json,os,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d=open(R+'/DESIGN.md').read()
F=[]
for l in open(R+'/known_findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: F.append(f'* {m[1]}, commit {m[2]}: {m[3]}.')
S=['| planted bug | property | needs | found by |','|---|---|---|---|']
for b in sorted(os.listdir(R+'/seeded')):
    m=json.load(open(f'{R}/seeded/{b}/meta.json'))
    S.append(f"| {b} | {m['property']} | {m['needs']} | {m.get('caught_by','-')} |")
def put(tag,body):
    global d
    d=re.sub(rf'<!--{tag}-->.*?<!--/{tag}-->',lambda _:f'<!--{tag}-->\n{body}\n<!--/{tag}-->',d,flags=re.S)
put('findings','\n'.join(F)); put('seeded','\n'.join(S))
open(R+'/DESIGN.md','w').write(d)
