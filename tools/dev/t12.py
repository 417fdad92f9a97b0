import sys,time; sys.path[:0]=['/verif','/verif/engine','/verif/rules']
import c12,time
t=time.time()
done,req,callers,fs=c12.run('quick')
print(time.time()-t,len(done))
for n,h in sorted(done.items()):
    print(n,h.n,{k:v for k,v in h.req.items()},sorted(set(h.bad))[:4])
