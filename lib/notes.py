"""notes.py ID STAGE [n]: notes of the violations of a stage (development aid)."""
import json,sys,glob
d='/verif/build/%s/%s'%(sys.argv[1],sys.argv[2]); n=int(sys.argv[3]) if len(sys.argv)>3 else 3; k=0
for l in open(d+'/eng/results.jsonl'):
    for v in json.loads(l).get('viol',[]):
        k+=1
        if k>n: continue
        print('=====',v['msg'],v['dir'])
        for f in sorted(glob.glob(v['dir']+'/note_*'))+sorted(glob.glob(v['dir']+'/file_*')): print('--',f.split('/')[-1]); print(open(f,'rb').read().decode('latin-1')[:1500])
print(k)
