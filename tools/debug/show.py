import json,sys
sys.path.insert(0,'/verif/lib')
import record,verif
d=verif.build()
c=json.load(open(sys.argv[1]))['case']
(_, r),=record.record(d,[c],verif.scratch('x'))
print(r['tag'],r['err'],r['arg'])
for s in c['set']: print(s['limit'],s['fpf'],s['layout'])
print(c['fmt'])
b=bytes(c['in']); print(b.hex())
