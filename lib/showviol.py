import json,glob,sys,collections
d='/verif/build/%s/%s'%(sys.argv[1],sys.argv[2]); n=int(sys.argv[3]) if len(sys.argv)>3 else 12; only=sys.argv[4] if len(sys.argv)>4 else ''
t=''.join(open(f).read() for f in sorted(glob.glob(d+'/ref*.c'))); ms=[]; und=[]
for l in open(d+'/eng/results.jsonl'):
    r=json.loads(l)
    for v in r.get('viol',[]): ms.append((v['msg'],v['dir']))
    for u in r.get('undec',{}): und.append((u,''))
def show(m,dir):
    if only not in m: return
    try: fn=m.split('/')[1].split(':')[0]; i=t.index(fn+'('); a=t.rindex('\n',0,i); print(t[a+1:t.index('\n',i)][:int(sys.argv[5]) if len(sys.argv)>5 else 130],'##',m.split(':')[1][:50], ' '.join(l.strip()[4:] for l in open(dir+'/replay.txt') if l.startswith('var')) if dir else '')
    except (ValueError,IndexError): print(m)
print(len(ms),'violations',len(und),'undecided'); 
for m in ms[:n]: show(*m)
print('--- undecided')
for m in und[:n]: show(*m)
