"""rejected.py ID STAGE: what the compiler prints for the programs of a stage it rejected (development aid)."""
import json,glob,re,subprocess,sys,collections
d='/verif/build/%s/%s'%(sys.argv[1],sys.argv[2]); rej=[]
for l in open(d+'/eng/results.jsonl'):
    for v in json.loads(l).get('viol',[]):
        if 'reject' in v['msg'] or '/compile:' in v['msg']: rej.append((v['msg'],v['dir']))
c=collections.Counter(); eg={}
def run(md):
    m,dr=md; t=open(glob.glob(dr+'/file_*.c')[0],errors='replace').read(); n=re.sub(r'\W','_',m.split('/')[0]); open('/tmp/w/rej_%s.c'%n,'w').write(t)
    o=subprocess.run('cd /tmp/w && . /opt/hlc/env.sh && wine /repo/_build/bin/hlc.exe /obj /no_stdlib /quiet rej_%s.c'%n,shell=True,capture_output=True,text=True,errors='replace').stdout
    e=[l for l in o.splitlines() if 'rror' in l or 'ASSERT' in l]; return n,(e[0] if e else 'NONE '+o[-150:])
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(8) as ex:
    for n,e in ex.map(run,rej):
        k=re.sub(r"'[^']*'|\d+|rej_\w+",'#',e); c[k]+=1; eg.setdefault(k,(n,e))
for k,n in c.most_common(): print(n,eg[k][0],eg[k][1][:200])
