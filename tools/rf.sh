#!/bin/bash
# run transforms and count diffs: rf.sh T1 T4 ...
cd /verif
for t in "$@"; do (
 case $t in X*) ;; *) python3 -B tools/refactor.py /repo /tmp/rf/$t $t >/dev/null 2>&1;; esac
 python3 -B tools/selfcmp.py /repo /tmp/rf/$t 2>&1 | cut -c1-1500 > /tmp/rf/$t.out; echo $t $(grep -c UNDEC /tmp/rf/$t.out) $(tail -1 /tmp/rf/$t.out) ) & 
 while [ $(jobs -r | wc -l) -ge 7 ]; do sleep 0.2; done
done; wait
