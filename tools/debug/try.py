import sys,random,time,collections
sys.path.insert(0,'/verif/lib')
import gen,verif,record,plans
prop=sys.argv[1]; n=int(sys.argv[2]); seed=sys.argv[3] if len(sys.argv)>3 else '1'
rng=random.Random(seed)
cases=plans.PLANS[prop].generator(rng,2)
print(len(cases)); 
rng.shuffle(cases); cases=cases[:n]
d=verif.build(); w=verif.scratch('try')
r=record.record(d,cases,w)
t=time.time()
v,c,o=verif.judge([x[1] for x in r],module='Product',workdir=w)
print(c,time.time()-t)
cnt=collections.Counter(s for vs in v.values() for _,s in vs); print(cnt)
bad=collections.Counter()
for i,vs in v.items():
    for x in set(vs):
        if x[0]!='ok':
            bad[x[0]]+=1
            if bad[x[0]]<=3: print(r[i][0]['id'],x)
            import json; json.dump({"case":r[i][0]},open(f'/tmp/bad-{prop}-{bad[x[0]]}-{x[0].replace(":","_")[:30]}.json','w'))
print(bad)
