exec(open('/tmp/w/m2.py').read())
o={m[0]:m for m in M}
M=[o['c05'],('e06','C04')+o['e06'][2:],('e06b','C06')+o['e06'][2:]]
