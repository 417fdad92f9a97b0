import sys,time,pickle; sys.path[:0]=['/tmp/v/engine','/tmp/v/rules']
import common
common._prog=pickle.load(open('/tmp/w/prog.pkl','rb')); common._prog.apps=True
import c13
A=c13.C13(common._prog)
print(A.roots, A.fix)
if len(sys.argv)>1:
    A.fixstart(); A.stops=[]; A.viol={}
    for n in sys.argv[1:]:
        t=time.time()
        st=A.entry('+' in n); n=n.strip('+')
        f,outs=A.go(n,st,[],True)
        print(n,'%.1fs'%(time.time()-t),'steps',A.steps,'outs',len(outs),A.stops)
        for v,s,ins in outs[:6]:
            print('  ret',v,'weak',A.weak(s,A.BUF,A.BSZ),A.weak(s,A.KB,A.KSZ),A.strongbad(s))
    for k,v in A.viol.items(): print(k,v)
else:
    t=time.time(); c13.program=lambda:common._prog; r=c13.run('quick'); print(time.time()-t)
    for k,v in r['coverage'].items(): print(k,str(v)[:1500])
    for f in r['findings']: print(f['key'],f['where'],f['msg'])
