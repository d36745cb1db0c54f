import json,sys,subprocess
sys.path.insert(0,'/verif/lib')
import record,verif
d=verif.build()
c=json.load(open(sys.argv[1]))['case']
(_, r),=record.record(d,[c],verif.scratch('x'))
# print through TLC
open('/verif/spec/Dump.tla','w').write('''---- MODULE Dump ----
EXTENDS Contract, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE x
Show(tag, fn) == \\A j \\in 1..Len(Functions(fn)) : LET f == Functions(fn)[j] IN
   /\\ PrintT(tag \\o ToString(<<j, "params", f.params, "va", f.vararg, "stack", f.stack, "nups", f.nups>>))
   /\\ \\A q \\in 1..Len(f.consts) : PrintT("   k" \\o ToString(q-1) \\o " " \\o ToString(ConstantValue(f.consts[q])))
   /\\ \\A q \\in 1..Len(f.code) : PrintT("   " \\o ToString(q) \\o " " \\o ToString(f.code[q]))
Init == x = 0 /\\ LET c == Cases[1] r == Reading(c) st == Stage(c, r) IN Show("SRC ", st.s) /\\ Show("DST ", st.d)
Next == UNCHANGED x
Spec == Init /\\ [][Next]_x
====
''')
open('/verif/spec/Dump.cfg','w').write('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n')
w=verif.scratch('dump'); open(w+'/c','w').write(json.dumps(r)+'\n')
code,out=verif.run_tlc('Dump.tla','Dump.cfg',{'CASES':w+'/c'},workers=1)
import os; os.unlink('/verif/spec/Dump.tla'); os.unlink('/verif/spec/Dump.cfg')
for l in out.splitlines():
    l=l.strip().strip('"')
    if l[:3] in('SRC','DST') or l.startswith('   ') or l[:1].isdigit() or l.startswith('k'): print(l)
