import json,collections,re,sys,glob
C=collections.Counter()
for f in glob.glob('/verif/build/%s/*/eng/results.jsonl'%sys.argv[1]):
  for l in open(f):
    r=json.loads(l)
    for v in r.get('viol',[]): C[v['msg'].split(': ')[-1]]+=1
    for v in r.get('undec',{}): C['undec '+v.split(': ')[-1]]+=1
for k,n in C.most_common(): print(n,k)
