#!/usr/bin/env python3
"""usage in python: from fx import *; edit(file, old, new[,count]); commit(props, subject)"""
import subprocess, sys, os
R='/repo/'
def edit(f, old, new, n=1):
    s=open(R+f,encoding='utf8',errors='surrogateescape').read()
    c=s.count(old)
    if c!=n: raise SystemExit('edit %s: %d matches (wanted %d) for:\n%s'%(f,c,n,old))
    s=s.replace(old,new)
    open(R+f,'w',encoding='utf8',errors='surrogateescape').write(s)
def commit(props, subject, what=None):
    r=subprocess.run(['make','-s','-C','/repo','libcligen.so.7.2'] if 0 else ['bash','-c','cd /repo && for f in $(git diff --name-only | grep "\\.c$"); do /usr/lib/llvm-18/bin/clang -std=gnu17 -DHAVE_CONFIG_H -I/repo -I/usr/include/libxml2 -w -fsyntax-only $f || exit 1; done'])
    if r.returncode: raise SystemExit('does not compile')
    subprocess.check_call(['git','-C','/repo','commit','-qam','fix: '+subject])
    h=subprocess.check_output(['git','-C','/repo','rev-parse','--short=10','HEAD']).decode().strip()
    with open('/verif/KNOWN_FINDINGS.txt','a') as o:
        for p in props.split(): o.write('fixed: property=%s %s %s\n'%(p,h,what or subject))
    print(h,subject)
