#!/bin/bash
# build.sh [-f] NAME SRC : builds the simulated program NAME from SRC (a driver) and /repo's current tree into /verif/build
# Nothing is rebuilt when neither the headers of /repo nor the sources here changed.
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
out=${VERIF_BUILD:-$here/build}
name=$1 src=$(readlink -f "$2"); self=$(readlink -f "$0"); shift 2
[ -f "$src" ] || { echo "no such driver: $src" >&2; exit 4; }
mkdir -p "$out/rt" || exit 4
exec 9>"$out/.lock.rt"; flock 9
for f in core tsanrt alloc omp mpi disk blaswrap clock posix main; do
  o=$out/rt/$f.o
  h=$(cat "$self" "$here"/sim/$f.cpp "$here"/sim/*.h "$here"/sim/mpi/mpi.h | sha256sum)
  if [ ! -f "$o" ] || [ "$h" != "$(cat "$o.h" 2>/dev/null)" ]; then
    ( g++ -std=c++17 -O2 -g1 -fno-omit-frame-pointer -fno-gnu-unique -I"$here"/sim -I"$here"/sim/mpi -c "$here"/sim/$f.cpp -o "$o" && echo "$h" >"$o.h" ) &
  fi
done
gcc -c "$here"/sim/switch.S -o "$out"/rt/switch.o
wait
for f in core tsanrt alloc omp mpi disk blaswrap clock posix main; do [ -f "$out/rt/$f.o.h" ] || { echo "build of the simulator failed: $f" >&2; exit 4; }; done
# One object whose template instantiations are its own: the program's stay instrumented, the simulator's do not.
nm_h=$(cat "$out"/rt/*.o.h | sha256sum)
if [ ! -f "$out/simrt.o" ] || [ "$nm_h" != "$(cat "$out/simrt.h" 2>/dev/null)" ]; then
  ld -r --force-group-allocation -o "$out/simrt0.o" "$out"/rt/*.o || exit 4
  nm "$out/simrt0.o" | awk '$2=="W"||$2=="V"||$2=="u"{print $3}' | grep -v -E '^(DW\.ref\.|_Zn[wa]|_Zd[la])' >"$out/simrt.loc"
  objcopy --localize-symbols="$out/simrt.loc" --redefine-sym memcpy=__real_memcpy --redefine-sym memmove=__real_memmove --redefine-sym memset=__real_memset "$out/simrt0.o" "$out/simrt.o" || exit 4
  rm -f "$out/simrt0.o"
  echo "$nm_h" >"$out/simrt.h"
fi
flock -u 9
exec 8>"$out/.lock.$name"; flock 8
h=$( (cd "$repo/include" && find . -type f -print0 | sort -z | xargs -0 sha256sum; cat "$here"/sim/*.* "$here"/sim/mpi/* "$here"/drivers/*.hpp "$src" "$self"; echo "$repo $*") | sha256sum)
exe=$out/$name
[ -x "$exe" ] && [ "$h" = "$(cat "$exe.h" 2>/dev/null)" ] && exit 0
wraps=""
for s in memcpy memmove memset; do wraps+=" -Wl,--wrap=$s"; done
for t in d z s c; do for s in gemv gemm axpy scal symm trsm; do wraps+=" -Wl,--wrap=${t}${s}_"; done; done
for s in dsymv zhemv zsymv; do wraps+=" -Wl,--wrap=${s}_"; done
for t in d z; do for s in getrf getrs potrf potrs; do wraps+=" -Wl,--wrap=${t}${s}_"; done; done
lib=/usr/lib/x86_64-linux-gnu
blas="-llapack -lblas"
echo 'int main(){}' | g++ -x c++ - -o /dev/null $blas 2>/dev/null || blas="$lib/liblapack.so.3 $lib/libblas.so.3"
rm -f "$exe" "$exe.h"
g++ -std=c++14 ${OPT:--O1} -g1 -fopenmp -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -w ${CXXDEF} "$@" -I"$here"/sim/mpi -I"$here"/sim -I"$here"/drivers -I"$repo"/include -c "$src" -o "$exe.o" || { echo "compilation of $name failed" >&2; exit 5; }
g++ "$exe.o" "$out"/simrt.o -o "$exe" -rdynamic $wraps $blas -ldl || { echo "link of $name failed" >&2; exit 4; }
rm -f "$exe.o"
echo "$h" >"$exe.h"
