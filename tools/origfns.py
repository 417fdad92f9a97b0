"""functions of the repository none of whose lines were added by later commits"""
import subprocess, re, sys
R='/repo'
base=subprocess.check_output(['git','-C',R,'rev-list','--max-parents=0','HEAD'],text=True).split()[0]
for f in sorted(subprocess.check_output(['git','-C',R,'ls-files','*.c'],text=True).split()):
    if '/' in f: continue
    bl=subprocess.check_output(['git','-C',R,'blame','-l','-s','HEAD','--',f]).decode(errors='replace').split('\n')
    cur=None; name=None; ok=True; out=[]
    for n,l in enumerate(bl,1):
        m=re.match(r'(\^?[0-9a-f]+)\s+(?:\S+\s+)?\d+\)\s?(.*)',l)
        if not m: continue
        t=m.group(2); o=base.startswith(m.group(1).lstrip('^')[:30])
        m2=re.match(r'^(\w+)\(',t)
        if m2: name=m2.group(1); start=n; ok=True
        if not o: ok=False
        if t.startswith('}') and name:
            if not ok: out.append('!'+name)
            else: out.append(name)
            name=None
    print(f, ' '.join(out))
