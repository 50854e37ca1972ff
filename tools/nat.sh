#!/bin/bash
# nat.sh ID [MS] proof... : native bounded search of a spec (library objects cached in /tmp/natlib; R=1 rebuilds)
R=${XOV_REPO:-/repo}; id=$1; shift; ms=${1:-3000}; shift
FL="$(cd /verif && XOV_REPO=$R python3-vt -c 'import check; print(" ".join(check.NATFLAGS))')"
mkdir -p /tmp/natlib; K=$(cat $R/xo/*/*.cpp $R/xo/*/*.h | md5sum | cut -c1-10)
if [ ! -f /tmp/natlib/$K.a ]; then rm -f /tmp/natlib/*; ls $R/xo/*/*.cpp | xargs -P8 -I{} sh -c "g++ $FL -c {} -o /tmp/natlib/\$(echo {} | tr / _).o 2>/dev/null"; g++ $FL -c /verif/xov/native_main.cpp -o /tmp/natlib/main.obj; ar rcs /tmp/natlib/$K.a /tmp/natlib/*.o; fi
g++ $FL -c /verif/specs/$id.cpp -o /tmp/natlib/$id.obj 2>&1 | grep -E "error" | head -5
g++ -fsanitize=address,undefined /tmp/natlib/$id.obj /tmp/natlib/main.obj -Wl,--allow-multiple-definition /tmp/natlib/$K.a -lpthread -ldl -o /tmp/natlib/$id.exe || exit 1
ps="$@"; [ -z "$ps" ] && ps=$(grep -oP '^XOV_(PROOF|BOUNDED)\( *\K\w+' /verif/specs/$id.cpp)
for p in $ps; do timeout 60 /tmp/natlib/$id.exe run $p $ms 1 2>&1 | head -${H:-12} | cut -c1-400 | sed "s/^/$p: /"; done
