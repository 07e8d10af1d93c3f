#!/bin/bash
# all refactoring corpora: print only what would be an alarm
cd /verif
for c in ${@:-refac refac2 refac3 refac4 refac5 refac6 refac7 refac8 refac9 refac10 refac11 refac12 refac13 refac14 refac15}; do
 [ -f tool/dev/$c.py ] || continue
 python3 tool/dev/dorf.py tool/dev/$c.py 2>&1 | grep -iE "not found|twice|error" | cut -c1-150
 python3 tool/dev/delta.py /tmp/w/rf 2>/dev/null | grep -E "^different" | cut -c1-300
 for p in P01 P02 P03 P06 P08 P09 P10 P14 P15 P16 P17; do python3 tool/dev/rule.py $p /tmp/w/rf 2>&1 | grep -E "\[[a-z-]+\]|FLOOR|Traceback" | grep -v "owner-copyable\] PsimagLite::InputNg::Readable" | cut -c1-200; done
 echo "$c done"
done
