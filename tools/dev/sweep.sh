# sweep.sh harness "seeds" cases props...
cd /tmp/b; H=$1; S="$2"; N=$3; shift 3
mkdir -p sw; rm -f /tmp/b/sw/*
for p in $*; do for s in $S; do echo "$p $s"; done; done | xargs -P 8 -L 1 sh -c 'timeout 900 ./'$H' $0 $1 '$N' sw/$0.$1.json w quick >/dev/null 2>sw/$0.$1.err || echo "$0 $1 rc=$?"'
python3 - <<'P'
import json,glob,collections
mx=collections.defaultdict(lambda: collections.defaultdict(float)); v=collections.Counter(); cnt=collections.defaultdict(collections.Counter)
for f in glob.glob('/tmp/b/sw/*.json'):
    p=f.split('/')[-1].split('.')[0]; end=False
    for l in open(f):
        try: d=json.loads(l)
        except Exception: continue
        if d['t']=='viol':
            v[p,d['key']]+=1
            if v[p,d['key']]<=2: print(f.split('/')[-1],d['case'],d['key'],d['msg'][:500])
        if d['t']=='sum':
            for k,x in d['max'].items(): mx[p][k]=max(mx[p][k],x)
            for k,x in d['counts'].items(): cnt[p][k]+=x
            cnt[p]['evals']+=d['evals']
        if d['t']=='end': end=True
    if not end: print(f,'NO END')
print(dict(v))
for p in sorted(cnt): print(p,{k:'%.2g'%x for k,x in mx[p].items()},dict(cnt[p]))
P
