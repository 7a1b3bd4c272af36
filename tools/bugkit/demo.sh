#!/usr/bin/env bash
# Builds demo.cpp against the already built tree in the current directory and
# runs it: exit 0 when the behaviour is right, nonzero when it is not.
set -u
here=$(cd "$(dirname "$0")" && pwd)
root=$(pwd)
out=$(mktemp -d) || exit 99
trap 'rm -rf "$out"' EXIT
cmds=$(ninja -C "$root/_build" -t commands test/UnionTest)
cc=$(printf '%s\n' "$cmds" | grep -- '-c .*/test/UnionTest\.cpp' | tail -1)
ld=$(printf '%s\n' "$cmds" | grep -- '-o test/UnionTest ' | tail -1)
cc=$(printf '%s' "$cc" | sed -e "s#-MD -MT [^ ]* -MF [^ ]*##" -e "s#-o [^ ]*UnionTest.cpp.o#-fno-access-control -I$root/src -I$here -o $out/demo.o#" -e "s#-c [^ ]*/test/UnionTest\.cpp#-c $here/demo.cpp#" -e 's#-O3#-O1#g')
ld=$(printf '%s' "$ld" | sed -e "s#[^ ]*UnionTest.cpp.o#$out/demo.o#" -e "s#-o test/UnionTest#-o $out/demo#" -e 's#[^ ]*libgtest_main.a##')
cd "$root/_build" || exit 99
bash -c "$cc" || exit 98
bash -c "$ld" || exit 97
cd "$out" || exit 99
timeout 120 "$out/demo"
