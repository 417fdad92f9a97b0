import sys; sys.path.insert(0,'/verif/engine')
from common import *
p=program()
def tab(n):
    g=p.globals[n]['init']; r=g['ints'] if 'ints' in g else [ord(x) for x in g['s']]; return r+[0]*(300 if 'ec' in n else 0)
acc,ec,base,df,nxt,chk,meta=[tab('yy_'+x) for x in ('accept','ec','base','def','nxt','chk','meta')]
print(len(acc),len(ec),len(base),max(acc))
END=max(acc); DEF=END-1
nst=len(base)
def step(s,c):
    k=ec[c]
    while chk[base[s]+k]!=s:
        s=df[s]
        if s>=len(acc): k=meta[k]
    return nxt[base[s]+k]
jam=[i for i in range(len(acc)) if 1]
out={}
for cond in range(0,9):
    for c in range(1,256):
        s=2*cond+1
        n=step(s,c)
        a=acc[n] if n<len(acc) else None
        if a==DEF: out.setdefault(cond,[]).append(chr(c))
print(DEF,{k:(len(v),v[:40]) for k,v in out.items()})
