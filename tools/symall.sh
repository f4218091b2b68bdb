#!/bin/sh
# development: all symbolic harnesses of a property in parallel: symall.sh C07 [ms] [secs]
cd "$(dirname "$0")/.."
for h in $(python3 -c "
import check,sys
s,_=check.spec_of('$1')
print(' '.join(h for h,o in s if o.get('sym')))"); do
 (timeout $((${3:-60}+60)) tools/runsym.sh $1 $h ${2:-4000} ${3:-60} > /tmp/sym_$1_$h.txt 2>&1; echo "== $h: $(grep -c '^  discharged' /tmp/sym_$1_$h.txt) ok"; grep -v '^  discharged' /tmp/sym_$1_$h.txt | grep -v "^error: None" | sed 's/.functions.: .*//' | cut -c1-900) &
done
wait
