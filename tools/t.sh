#!/bin/bash
(cd /verif/harness/src && python3 ../gen_main.py)
T=100; for e in "$@"; do case $e in T=*) T=${e#T=};; --*|[0-9]*) X="$X $e";; *) echo "== $e"; o=$(/tmp/b.sh $e --time $T $X 2>&1); echo "$o" | egrep "^error|^ *-->|paths|complete|errors|reach \{|VIOL|   \[|real|solver " | egrep -v "^fork|entry_paths|step_limit|check_l|^ *fork|complete True|errors \{\}"; echo "$o" | grep -q "^error[:[]" && exit 1 ;; esac; done
