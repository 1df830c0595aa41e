#!/bin/bash
# build.sh OUT_DIR omp|mpi [demo.cpp] [extra defines] : builds /repo's program (current directory) with the plain runtime
set -e
kit=$(cd "$(dirname "$0")" && pwd); out=$1; kind=$2; demo=$3; shift 3 || shift $#; defs="$*"; REPO=$(pwd)
mkdir -p "$out/include"; cp -r "$REPO/include/." "$out/include/"
D=${KIT_SWITCHES:-ENABLE_PML SWITCH_CCS_VB SWITCH_PLASMA_SPATIAL_FLAT SWITCH_PLASMA_VELOCITY_THERMAL SWITCH_PUSHER_BORIS_ADAPTIVE}
[ "$kind" = mpi ] && D="$D ENABLE_MPI"
{ echo '#define CXXFLAGS "demo"'; echo '#define ENABLE_HDF5 1'; echo '#define PACKAGE_NAME "PiCoPiC"'; echo '#define PACKAGE_VERSION "demo"'; echo '#define PACKAGE_DEPS "none"'; echo '#define REL_LIMIT 5e7'; echo '#define SWITCH_MAXWELL_SOLVER_YEE 1'; for x in $D; do echo "#define $x 1"; done; } > "$out/include/defines.hpp"
F="-std=c++17 -O1 -w -fopenmp -DPICOPIC_SIM_HOOKS $defs -I$out/include -I$kit/stubs -I$kit"
cmds="$out/cmds"; : > "$cmds"; i=0
for s in $(find "$REPO/src" -name '*.cpp'); do i=$((i+1)); e=""; case "$s" in */PiCoPiC.cpp) e="-Dmain=picopic_main";; esac; echo "g++ $F $e -c $s -o $out/o$i.o" >> "$cmds"; done
echo "g++ $F -c $kit/plain.cpp -o $out/plain.o" >> "$cmds"
[ -n "$demo" ] && echo "g++ $F -fno-access-control -c $demo -o $out/demo.o" >> "$cmds"
xargs -a "$cmds" -d '\n' -P 8 -I{} sh -c '{}'
g++ -fopenmp $defs -Wl,--wrap=_ZNSt13random_device9_M_getvalEv -o "$out/picopic" "$out"/*.o
