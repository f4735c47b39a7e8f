#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta/"""
import sys,os,json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/meta')
import core
ps=sorted(core.PROPS,key=lambda p:p['id']); assert len({p['id'] for p in ps})==len(ps)
with open(V+'/properties.jsonl','w') as f:
    for p in ps:
        assert len(p['title'])<=80,p['title']
        f.write(json.dumps(dict(id=p['id'],title=p['title'],statement=p['statement'],quantifier=dict(over=p.get('over',['inputs']),text=p['text']),why_tests_cant=p['why'],
          anchors=dict(files=p.get('files',['strtk.hpp']),mechanism=[dict(name=a,where=b) for a,b in p['mech']])))+'\n')
m=dict(version=1,setup_cmd='bash tool/build.sh',checks=[],not_applicable=[],notes='Static analysis only; see DESIGN.md. VP_REPO overrides the analysed tree (used for experiments).')
for p in ps:
    if p.get('na'): m['not_applicable'].append(dict(property=p['id'],reason=p['na'])); continue
    c='python3 bin/check '+p['id']
    m['checks'].append(dict(property=p['id'],quick_cmd=c,thorough_cmd=c+' --thorough',technique=p.get('technique',core.AI),level=p.get('level','proof'),level_note=p.get('note',core.NOTE)))
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
print(len(m['checks']),'checks',len(m['not_applicable']),'n/a')
d=open(V+'/DESIGN.md').read(); b,e='<!-- generated by bin/gen.py from meta/core.py: begin -->\n','<!-- generated: end -->'
if b in d:
    t=''
    for p in ps:
        t+='### %s %s\n'%(p['id'],p['title'])
        if p.get('na'): t+='Not applicable: %s\n\n'%p['na']; continue
        t+='Decides: %s. Where: %s.\n'%(p['text'],'; '.join(a for a,_ in p['mech']))
        t+='How: %s\n'%p['explain']
        dr=sorted({('drivers/%s.cpp'%x['file']) if x['engine'] in ('absint','lint','bits') else x['file'] for x in p['parts']})
        t+='Drivers: %s; level: %s; at least %d obligations required.%s\n\n'%(', '.join(dr),p.get('level','proof'),p.get('min_obl',0),(' '+p['design']) if p.get('design') else '')
    i=d.index(b)+len(b); j=d.index(e); d=d[:i]+t+d[j:]; open(V+'/DESIGN.md','w').write(d)

def put(d,tag,t):
    b,e='<!-- %s: begin -->\n'%tag,'<!-- %s: end -->'%tag
    i=d.index(b)+len(b); return d[:i]+t+d[d.index(e):]
d=open(V+'/DESIGN.md').read()
fx=''
for l in sorted(json.load(open(V+'/known_findings.json'))['fixed'],key=lambda l:l.split('=')[1][:3]):
    _,rest=l.split('property=',1); pid,h,what=rest.split(' ',2); fx+='* %s (`%s`): %s\n'%(pid,h,what)
sd='| change | property, caught by | what it breaks | needs |\n|---|---|---|---|\n'
for i in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(V+'/seeded/%s/meta.json'%i)); c=lambda x:str(x).replace('|','/').replace('\n',' ')
    sd+='| %s | %s | %s | %s |\n'%(i,m['property']+(' '+m['note'] if m.get('note') else ''),c(m['what_it_breaks']),c(m['needs']))
open(V+'/DESIGN.md','w').write(put(put(d,'fixed',fx),'seeds',sd))
