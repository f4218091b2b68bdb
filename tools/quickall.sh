#!/bin/sh
# development: every quick check on the current tree
cd "$(dirname "$0")/.."
for i in $(seq -w 1 25); do
  timeout 900 python3 check.py C$i quick > /tmp/q.C$i 2>&1; r=$?
  [ $r = 0 ] && ! grep -q VIOLATION /tmp/q.C$i || { echo "C$i exit $r"; tail -3 /tmp/q.C$i; }
done
