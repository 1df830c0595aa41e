#!/bin/bash
# build.sh BUILD_DIR [variant...] : builds the simulator host and the program variants from /repo's working tree
# A variant is one selection of the program's own build-time switches (see README in DESIGN.md); default: all of them.
set -e
here=$(cd "$(dirname "$0")" && pwd); B=$1; shift; REPO=${REPO:-/repo}; mkdir -p "$B/obj"
CXX=g++
want=("$@")
L="$B/cmds"; : > "$L"
host() {
  local f
  for f in "$here"/host/*.cpp; do
    echo "$CXX -std=c++17 -O2 -g -fPIC -Wall -Wno-unused-result -Wno-misleading-indentation -I$here -c $f -o $B/obj/host_$(basename "$f" .cpp).o" >> "$L"
  done
}
wraps=$(grep -o '__wrap_[A-Za-z0-9_]*' "$here/put/wraps.cpp" | sort -u | sed 's/__wrap_/-Wl,--wrap=/')
variant() {  # name, defines, copies
  local n=$1 defs=$2 copies=$3 d="$B/v_$1"; mkdir -p "$d/include" "$d/obj"
  cp -r "$REPO/include/." "$d/include/"
  cat > "$d/include/defines.hpp" <<H
#define CXXFLAGS "simulated"
#define ENABLE_HDF5 1
#define PACKAGE_NAME "PiCoPiC"
#define PACKAGE_VERSION "sim"
#define PACKAGE_DEPS "none"
#define REL_LIMIT 5e7
#define SWITCH_MAXWELL_SOLVER_YEE 1
$(for x in $defs; do [ "${x:0:1}" = - ] || echo "#define $x 1"; done)
H
  local flags="-std=c++17 -O1 -g1 -w -fPIC -fopenmp -U_FORTIFY_SOURCE -fno-gnu-unique -DPICOPIC_SIM_HOOKS -I$d/include -I$here/stubs -I$here $(for x in $defs; do [ "${x:0:1}" = - ] && echo "$x"; done | tr '\n' ' ')"
  local s o
  for s in $(cd "$REPO/src" && find . -name '*.cpp'); do
    o="$d/obj/$(echo "$s" | tr '/.' '__').o"; local extra=""
    case "$s" in ./PiCoPiC.cpp) extra="-Dmain=picopic_main";; esac
    echo "cd $REPO/src && $CXX $flags -fsanitize=thread $extra -I$REPO/src -c $s -o $o" >> "$L"
  done
  for s in probe wraps; do echo "$CXX $flags -c $here/put/$s.cpp -o $d/obj/put_$s.o" >> "$L"; done
}
linkv() {
  local n=$1 copies=$2 d="$B/v_$1"
  $CXX -shared -fno-gnu-unique -Wl,-Bsymbolic $wraps -o "$d/put.so" "$d"/obj/*.o || return 1
  local i; for ((i = 0; i < copies; ++i)); do cp "$d/put.so" "$B/put_$n.$i.so"; done
}
all=()
while read -r n copies defs; do
  [ -z "$n" ] && continue; [ "${n:0:1}" = "#" ] && continue
  if [ ${#want[@]} -eq 0 ] || [[ " ${want[*]} " == *" $n "* ]]; then all+=("$n|$copies|$defs"); fi
done < "$here/variants.txt"
host
for v in "${all[@]}"; do IFS='|' read -r n copies defs <<< "$v"; variant "$n" "$defs" "$copies"; done
xargs -a "$L" -d '\n' -P "${JOBS:-10}" -I{} sh -c '{}'
$CXX -rdynamic -o "$B/sim" "$B"/obj/host_*.o -ldl
for v in "${all[@]}"; do IFS='|' read -r n copies defs <<< "$v"; linkv "$n" "$copies"; done
