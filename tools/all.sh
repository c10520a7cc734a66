#!/bin/bash
# run every registered check and print one line each
cd /verif
for f in contracts/P*.py; do
  p=$(basename $f .py)
  out=$(timeout -k 5 900 python3-vt check.py $p 2>&1); rc=$?
  echo "$p rc=$rc $(echo "$out" | grep -v '^#' | tail -1)"
done
