"""mktable.py: replaces the table between the markers in DESIGN.md section 6 by one made from the meta.json files."""
import json,os,re
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def table(d):
    s='| change | check | needs | breaks |\n|---|---|---|---|\n'
    for i in sorted(os.listdir(ROOT+'/'+d)):
        m=json.load(open(f'{ROOT}/{d}/{i}/meta.json'))
        s+=f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |\n"
    return s
t='<!-- table -->\n'+'Every one of these is caught (exit 1) by the quick tier of the check named.\n\n`seeded/`:\n\n'+table('seeded')
t+='\n`planted-templates/` (changes of the hosted templates, or of lines of the fix commits: not counted as planted\nbugs, as they touch no Go source of the original, but kept and caught all the same):\n\n'+table('planted-templates')+'<!-- /table -->'
p=ROOT+'/DESIGN.md'; s=open(p).read()
s=s.replace('SEEDED-TABLE',t) if 'SEEDED-TABLE' in s else re.sub('<!-- table -->.*<!-- /table -->',lambda m:t,s,flags=re.S)
open(p,'w').write(s)
