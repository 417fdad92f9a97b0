#!/bin/bash
# run all checks, 2 in parallel; print rc and time
cd /verif; export VERIF_EVIDENCE=/tmp/w/evall; mkdir -p $VERIF_EVIDENCE
one(){ s=$(date +%s); timeout 900 python3 check.py $1 quick >/tmp/w/all.$1 2>&1; r=$?; e=$(date +%s); echo "$1 rc=$r $((e-s))s"; [ $r != 0 ] && grep -v "^ " /tmp/w/all.$1 | cut -c1-230 | head -${L:-8}; }
export -f one
for i in ${@:-$(ls rules/c*.py | sed 's/.*\///;s/.py//' | tr a-z A-Z)}; do echo $i; done | xargs -P${P:-2} -I{} bash -c 'one {}'
