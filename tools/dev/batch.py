#!/usr/bin/env python3
"""batch.py FILE.py [ID...]: FILE defines M=[(id, props, [(file, old, new[, nth])...])]; each in a copy of /repo; compile check, run checks; print result"""
import sys,os,subprocess,shutil,tempfile
from concurrent.futures import ThreadPoolExecutor
ns={}; exec(open(sys.argv[1]).read(),ns); M=ns['M']; sel=set(sys.argv[2:])
J=int(os.environ.get('J','3'))
def one(m):
    mid,props,eds=m
    d=tempfile.mkdtemp(prefix='bat-',dir='/tmp/w')
    out=[]
    try:
        r=d+'/r'; subprocess.check_call(['git','clone','-q','/repo',r]); 
        for x in os.listdir('/repo'):
            if not os.path.exists(r+'/'+x) and os.path.isfile('/repo/'+x) and x.endswith(('.h','.c')): shutil.copy('/repo/'+x,r+'/'+x)
        for e in eds:
            fn=r+'/'+e[0]; s=open(fn,encoding='utf8',errors='surrogateescape').read()
            nth=e[3] if len(e)>3 else 0
            parts=s.split(e[1])
            if len(parts)<2+nth: return mid+': NO MATCH '+e[1][:60]
            s=e[1].join(parts[:nth+1])+e[2]+e[1].join(parts[nth+1:])
            open(fn,'w',encoding='utf8',errors='surrogateescape').write(s)
        for fn in {r+'/'+e[0] for e in eds}:
            if fn.endswith('.c'):
                c=subprocess.run(['/usr/lib/llvm-18/bin/clang','-std=gnu17','-DHAVE_CONFIG_H','-I'+r,'-I/usr/include/libxml2','-w','-fsyntax-only',fn],capture_output=True,text=True)
                if c.returncode: return mid+': COMPILE '+c.stderr[:600]
        env=dict(os.environ,CLIGEN_REPO=r,VERIF_EVIDENCE=d+'/ev'); os.makedirs(d+'/ev')
        for p in props.split():
            q=subprocess.run(['timeout','900','python3',os.environ.get('V','/verif')+'/check.py',p,'quick'],env=env,capture_output=True,text=True)
            L=[l[:int(os.environ.get('W','170'))] for l in (q.stdout+q.stderr).split('\n') if l and not l.startswith(('KNOWN','VIOLATION')) and ' held' not in l]
            out.append('%s %s rc=%d %s'%(mid,p,q.returncode,' | '.join(L[:int(os.environ.get('N','2'))])))
        return '\n'.join(out)
    except Exception as ex: return mid+': EXC %r'%ex
    finally: shutil.rmtree(d)
with ThreadPoolExecutor(J) as ex:
    for o in ex.map(one,[m for m in M if not sel or m[0] in sel]): print(o,flush=True)
