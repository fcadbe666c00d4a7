#!/bin/bash
# Builds /verif/build/simrun from /repo's current working tree (sources only; nothing is written in /repo).
# usage: build.sh [REPO]
set -e -o pipefail
export LC_ALL=C
here=$(cd "$(dirname "$0")" && pwd)
repo=${1:-${SIM_REPO:-/repo}}
out=${SIM_BUILD:-$here/build}
mkdir -p "$out/obj" "$out/har"
exec 9>"$out/.lock"; flock 9
CF="-DRGRAPH_SIM -O1 -g1 -fno-pie -fno-common -w -std=gnu11 -fsanitize=address -fsanitize-coverage=trace-pc -fno-omit-frame-pointer -fno-optimize-sibling-calls -U_FORTIFY_SOURCE"
syms=$here/sim/redefine.syms
# --- the code under test -----------------------------------------------------------------
jobs=$out/jobs.txt; : > "$jobs"
objs=()
add() { # source object extra
  objs+=("$out/obj/$2.o")
  echo "$1 $2 $3" >> "$jobs"
}
for f in "$repo"/src/*.c; do b=$(basename "$f" .c); add "$f" "lib_$b" -; done
add "$repo/lib/search.c" lib_search -
for d in netcarto reliability recommender conflict multiblock only_deg utils; do
  for f in "$repo/$d"/main_*.c; do
    [ -f "$f" ] || continue
    b=$(basename "$f" .c); b=${b#main_}; add "$f" "prog_${d}_$b" "${d}_$b"
  done
done
one() {
  read -r src name prog <<< "$1"
  o=$OUT/obj/$name
  inc="-I$REPO/src -I$(dirname "$src")"
  case "$src" in */lib/search.c) inc="" ;; esac
  # rebuilt when the preprocessed text or the flags change
  gcc $CF $inc -E -P "$src" 2>/dev/null | cat - "$SYMS" | sha256sum > "$o.new"
  if [ -f "$o.o" ] && cmp -s "$o.new" "$o.sum"; then rm -f "$o.new"; return 0; fi
  gcc $CF $inc -c "$src" -o "$o.raw.o" || { echo "build: $src does not compile" >&2; return 1; }
  if [ "$prog" = - ]; then objcopy --redefine-syms="$SYMS" "$o.raw.o" "$o.o" || return 1
  else objcopy --redefine-syms="$SYMS" --redefine-sym main="prog_main_$prog" --keep-global-symbol="prog_main_$prog" "$o.raw.o" "$o.o" || return 1; fi
  rm -f "$o.raw.o"; mv "$o.new" "$o.sum"
}
export -f one; export CF OUT=$out REPO=$repo SYMS=$syms
# --- the simulator and the scenarios -----------------------------------------------------------
HF="-O1 -g1 -fno-pie -std=c++17 -Wall -Wno-format-truncation -I$here/sim -I$repo/src"
har() {
  src=$1; name=$(basename "$src"); o=$OUT/har/${name%.*}
  g++ $HF -E -P "$src" 2>/dev/null | sha256sum > "$o.new"
  if [ -f "$o.o" ] && cmp -s "$o.new" "$o.sum"; then rm -f "$o.new"; return 0; fi
  case "$src" in
    *.c) gcc -O1 -fno-pie -fno-common -c "$src" -o "$o.o" ;;
    *) g++ $HF -c "$src" -o "$o.o" ;;
  esac || { echo "build: $src does not compile" >&2; return 1; }
  mv "$o.new" "$o.sum"
}
export -f har; export HF
{ for f in "$here"/sim/s_*.cpp "$here"/sim/model.cpp; do echo "har $f"; done
  echo "har $here/sim/core.cpp"; echo "har $here/sim/driver.cpp"; echo "har $here/sim/mark_begin.c"; echo "har $here/sim/mark_end.c"
  while read -r l; do echo "one \"$l\""; done < "$jobs"; } | xargs -d '\n' -P "${SIM_JOBS:-8}" -I{} bash -c '{}'
g++ -fno-pie -no-pie -fsanitize=address -o "$out/simrun.tmp" "$out/har/mark_begin.o" "${objs[@]}" "$out/har/mark_end.o" \
  $(for f in "$here"/sim/s_*.cpp "$here"/sim/model.cpp; do b=$(basename "$f" .cpp); echo "$out/har/$b.o"; done) \
  "$out/har/core.o" "$out/har/driver.o" -lgsl -lgslcblas -lm
mv "$out/simrun.tmp" "$out/simrun"
