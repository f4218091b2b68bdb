#!/bin/sh
# development: all symbolic harnesses of all properties; prints the undischarged ones
cd "$(dirname "$0")/.."
for p in $(ls contracts | sed -n 's/^\(C[0-9]*\).py/\1/p'); do echo "#### $p"; tools/symall.sh $p ${1:-4000} ${2:-60} | grep -v "^{'paths'" ; done
