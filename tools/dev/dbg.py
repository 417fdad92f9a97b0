import sys,os
sys.path.insert(0,'/verif/engine')
from front import Program
import main1
from interp import Interp
fn=sys.argv[1]
p=Program()
import interp
oldp=Interp.prune_exit
def pe(self,fr,s,rv,ins):
    if fr.fn.name==fn: print('EXIT',rv,'line',ins.get('ln'),{str(self.orig(b))[:60]:v for b,v in s.heap.items()},sorted(s.mon,key=str)[:6])
    return oldp(self,fr,s,rv,ins)
Interp.prune_exit=pe
olde=Interp.escape
def es(self,st,h):
    s=st.heap.get(h)
    if s and s[0]=='owned' and os.environ.get('ESC'):
        import traceback
        print('ESCAPE',self.orig(h),[x.name+':'+str(x.lineno) for x in traceback.extract_stack()[-6:-1]])
    return olde(self,st,h)
Interp.escape=es
ev,st,ex,I=main1.analyse(p,only=None)
for k,e in ev.get(fn,{}).items(): print(e.kind,e.loc,e.msg[:150])
