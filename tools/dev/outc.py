import sys,os
sys.path.insert(0,'/verif/engine')
from front import Program
import main1
from absint import *
p=Program()
ev,st,ex,I=main1.analyse(p,only=None)
print('capped',st['capped'],'coarse',st['coarse'])
for fn in sys.argv[1:]:
    outs=I.summ.get(fn)
    print('==',fn,len(outs))
    for o in outs:
        s=o.st
        for b,h in s.heap.items():
            if b[0]=='H':
                refs=[(str(bb)[:60],off,c[0][:1]) for bb,cells in s.mem.items() for off,c in cells.items() if off!='*' and c[0][0]=='p' and c[0][1]==b]
                print('  ',str(o.ret)[:40],o.fails, b, str(I.origin.get(b))[:90],h, b in s.maybe, refs[:4])
