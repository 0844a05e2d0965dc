#!/bin/bash
# benign.sh COPY [P..]: runs the quick checks against a copy whose behaviour is
# unchanged and prints those that are not quiet.
d=$1; shift
ps=("$@"); [ ${#ps[@]} -eq 0 ] && ps=($(seq -f 'P%02g' 1 29))
for p in "${ps[@]}"; do
  s=$(date +%s)
  o=$(timeout 880 /verif/tools/nsrun.sh "$d" /verif/run.sh $p quick 2>&1); r=$?
  echo "$(basename "$d") $p rc=$r $(($(date +%s)-s))s"
  [ $r = 0 ] || { echo "$o" | grep -v "^  *$" | cut -c1-600 | tail -25; }
done
