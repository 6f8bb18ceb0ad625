#!/bin/bash
# tools/seedcheck.sh [ID...]: does the bug's own property check notice each seeded bug?
cd /verif/seeded; for i in ${@:-*}; do
 p=$(python3 -c "import json;print(json.load(open('$i/meta.json'))['property'])")
 echo "$i: $(bash /verif/tools/mut.sh /verif/seeded/$i/patch.diff $p 2>&1 | sed 's#.*/patch.diff##' | cut -c1-220)"; done
