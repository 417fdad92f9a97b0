import sys,os
sys.path.insert(0,'/verif/engine')
from front import Program
import main1
from interp import Interp
fn=sys.argv[1]
p=Program()
olde=Interp.exec_block
import inspect
sig=inspect.signature(olde); 
def eb(self,*a,**k):
    ba=sig.bind(self,*a,**k); fr=ba.arguments['fr']
    if fr.fn.name==fn:
        b=ba.arguments.get('b'); st=ba.arguments.get('st')
        ln=[x.get('ln') for x in fr.fn.blocks[b] if x.get('ln')][:1] if b is not None else None
        print('B',b,ln,{(str(self.orig(h))[:50],v[0]) for h,v in st.heap.items()},[str(m)[:60] for m in sorted(st.mon,key=str)][:3])
    return olde(self,*a,**k)
Interp.exec_block=eb
print(sig)
ev,st,ex,I=main1.analyse(p,only=None)
