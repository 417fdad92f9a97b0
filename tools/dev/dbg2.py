import sys,os
sys.path.insert(0,'/verif/engine')
from front import Program
import main1
from interp import Interp
fn=sys.argv[1]
p=Program()
oldl=Interp.leak
def lk(self,fr,b,st,bb):
    if fr.fn.name==fn: print('LEAK',self.orig(bb),st.heap.get(bb),b)
    return oldl(self,fr,b,st,bb)
Interp.leak=lk
for nm in ('exec_block',):
    pass
ev,st,ex,I=main1.analyse(p,only=None)
for k,e in ev.get(fn,{}).items(): print(e.kind,e.loc,e.msg[:150])
