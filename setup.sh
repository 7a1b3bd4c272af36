#!/bin/bash
# Builds the symbolic executor and its runtime library into build/.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/build
mkdir -p "$out"
bash "$here/engine/build.sh" "$out"
BC="-O1 -Xclang -disable-llvm-passes -fno-builtin -gline-tables-only -c -emit-llvm"
clang-18 $BC "$here/rt/rtc.c" -o "$out/rtc.bc"
clang++-18 -std=c++20 -w -fno-access-control -I"$here/rt" $BC "$here/rt/rt.cpp" -o "$out/rtcpp.bc"
clang++-18 -std=c++20 -w -fno-access-control -I"$here/rt" $BC "$here/rt/ios.cpp" -o "$out/rtios.bc"
clang++-18 -std=c++20 -w -fno-access-control -I"$here/rt" $BC "$here/rt/fs.cpp" -o "$out/rtfs.bc"
clang++-18 -std=c++20 -w -fno-access-control -I"$here/rt" $BC "$here/rt/iosover.cpp" -o "$out/rtover.bc"
llvm-link-18 --suppress-warnings "$out/rtc.bc" "$out/rtcpp.bc" "$out/rtios.bc" "$out/rtfs.bc" --override="$out/rtover.bc" -o "$out/rt.bc.tmp"
mv "$out/rt.bc.tmp" "$out/rt.bc"
echo "setup done"
