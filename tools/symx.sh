#!/bin/bash
# debugging aid: run one entry on the newest cached module that contains it.  usage: symx.sh ENTRY [engine args]
e=$1; shift; D=$(dirname "$(dirname "$(realpath "$0")")")/build
for m in $(ls -t $D/mod/*/*.bc); do if llvm-nm-18 $m 2>/dev/null | grep -q " T $e$"; then break; fi; done
eng=$D/engine/symx; o=$(mktemp -d); timeout -s KILL ${LIM:-90} setsid -w $eng $m --entry $e --out $o --time ${T:-20} --assert-time ${AT:-20} --procs 8 --seed 1 "$@"; rm -rf "$o"; ps -eo pid,args | awk -v e="$e" '/engine\/symx/ && index($0,e) && !/awk/ {print $1}' | xargs -r kill -9 2>/dev/null
