#!/bin/bash
# build.sh [engine|<harness>...] : builds into /verif/build (ignored by git). Harnesses take /repo's sources.
set -e
V=$(cd "$(dirname "$0")" && pwd)
B=${MC_BUILD:-$V/build}
REPO=${MC_REPO:-/repo}
mkdir -p "$B"
CXX=${CXX:-g++}
engine() {
  local stamp; stamp=$(cat "$V"/mc/*.cpp "$V"/mc/*.hpp "$V/build.sh" | sha1sum)
  if [ -x "$B/mcrun" ] && [ "$(cat "$B/mcrun.stamp" 2>/dev/null)" == "$stamp" ]; then return; fi
  local t="$B/tmp.$$"; mkdir -p "$t"
  for f in engine os pmemobj; do
    $CXX -std=c++20 -O2 -g -fno-omit-frame-pointer -w -c "$V/mc/$f.cpp" -o "$t/$f.o" &
    pids="$pids $!"
  done
  for p in $pids; do wait $p || return 1; done
  nm --defined-only -g "$t"/*.o | awk '$2 ~ /[TW]/ && ($3 !~ /^_Z/ || $3 ~ /^_Z(nw|na|dl|da)/) && $3 != "main" {print $3}' | sort -u > "$t/syms"
  { echo '{'; sed 's/$/;/' "$t/syms"; echo '};'; } > "$t/list"
  $CXX "$t"/*.o -o "$t/mcrun" -Wl,--dynamic-list="$t/list" -ldl
  mv "$t/mcrun" "$B/mcrun"
  echo "$stamp" > "$B/mcrun.stamp"
  rm -r "$t"
}
WRAP="-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=posix_memalign,--wrap=aligned_alloc"
for f in 18_Rb_tree_incrementPSt18_Rb_tree_node_base 18_Rb_tree_incrementPKSt18_Rb_tree_node_base 18_Rb_tree_decrementPSt18_Rb_tree_node_base \
  18_Rb_tree_decrementPKSt18_Rb_tree_node_base 29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_ 28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_; do
  WRAP="$WRAP,--wrap=_ZSt$f"
done
harness() {
  local h=$1
  local std=c++20
  if ! $CXX -std=$std -O1 -g1 -w -fPIC -fsanitize=thread -fno-gnu-unique -fno-builtin-memcpy -fno-builtin-memset -fno-builtin-memmove \
    -fno-stack-protector -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 $HFLAGS -I"$V/mc" -I"$V/harness" -I"$REPO" -I"$REPO/include" -I"$REPO/containers" -I"$REPO/hashing" \
    -c "$V/harness/$h.cpp" -o "$B/$h.o.$$" 2>"$B/$h.log" ||
    ! $CXX -shared "$B/$h.o.$$" -o "$B/$h.so.$$" $WRAP 2>>"$B/$h.log"; then
    cat "$B/$h.log" >&2; rm -f "$B/$h.so.$$" "$B/$h.o.$$"; return 1
  fi
  rm -f "$B/$h.o.$$"
  mv "$B/$h.so.$$" "$B/$h.so"
}
for x in "$@"; do
  if [ "$x" == engine ]; then engine; else harness "$x"; fi
done
