#!/usr/bin/env python3
"""mut.py PROPS FILE OLD NEW [nth]: copy of /repo sources with one replacement, run checks"""
import sys,os,subprocess,shutil,tempfile
props,f,old,new=sys.argv[1:5]
nth=int(sys.argv[5]) if len(sys.argv)>5 else 0
d=tempfile.mkdtemp(prefix='mut-',dir='/tmp/w')
try:
    subprocess.check_call(['cp','-a','/repo',d+'/r'])
    fn=d+'/r/'+f
    s=open(fn,encoding='utf8',errors='surrogateescape').read()
    parts=s.split(old)
    if len(parts)<2+nth: sys.exit('no match')
    s=old.join(parts[:nth+1])+new+old.join(parts[nth+1:])
    open(fn,'w',encoding='utf8',errors='surrogateescape').write(s)
    env=dict(os.environ,CLIGEN_REPO=d+'/r',VERIF_EVIDENCE=d+'/ev')
    os.makedirs(d+'/ev',exist_ok=True)
    for p in props.split(','):
        r=subprocess.run(['python3','/verif/check.py',p,'quick'],env=env,capture_output=True,text=True)
        print(p,r.returncode,chr(10).join(l[:300] for l in (r.stdout+r.stderr).split(chr(10)) if not any(w in l for w in ('_helpstr','cligen_ignorecase','cligen_lexical')))[:1200])
finally: shutil.rmtree(d)
