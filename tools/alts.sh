#!/bin/bash
# all rewrites, one process per file
mkdir -p /tmp/alts
for f in /verif/alts/*.txt; do b=$(basename $f .txt)
 ( python3 /verif/tools/alts.py $b# > /tmp/alts/$b.out 2>&1 ) &
 while [ $(jobs -r | wc -l) -ge 4 ]; do sleep 1; done
done; wait
for f in /verif/alts/*.txt; do b=$(basename $f .txt); echo "$b: $(tail -1 /tmp/alts/$b.out)"; grep -v "rewrites" /tmp/alts/$b.out; done
