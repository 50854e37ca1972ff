#!/bin/bash
# p.sh ID proof... : extract + prove (T: stack dump after T s, VV=1 verbose)
id=$1; shift
rm -f /tmp/$id.json
/verif/tools/comp.sh /verif/specs/$id.cpp /tmp/$id.json 2>&1 | grep -E "error|rror:" | head -8
[ -s /tmp/$id.json ] || exit 1
ps="$@"; [ -z "$ps" ] && ps=$(grep -oP '^XOV_PROOF\( *\K\w+' /verif/specs/$id.cpp)
export id
printf '%s\n' $ps | timeout ${TO:-250} xargs -P 8 -I{} sh -c 'V=$VV T=${T:-100} python3-vt /verif/tools/stk.py /tmp/$id.json {} 2>&1 | grep -v z3core | sed "s/^Timeout.*/{}: TIMEOUT/" | grep -v "line 5 in <module>\|string>\|in docall\|in instrs\|in block\|in run$\|in call\|in invoke\|^Thread\|z3/z3.py" | head -${H:-9} | cut -c1-${W:-300}'
