#!/bin/bash
# builds the engine; used by setup_cmd and (if the binary is missing or older than its sources) by every check
set -e
cd "$(dirname "$0")"
mkdir -p ../build
exec 9>../build/.lock; flock 9
if [ ../build/symx -nt main.cpp ] && [ ../build/symx -nt exec.h ] && [ ../build/symx -nt prog.h ] && [ ../build/symx -nt terms.h ] && [ ../build/symx -nt aig.h ]; then exit 0; fi
g++ -O3 -std=c++17 -w -fpermissive -D__STDC_LIMIT_MACROS -D__STDC_FORMAT_MACROS $(/usr/bin/llvm-config-18 --cxxflags 2>/dev/null | sed 's/-std=[^ ]*//;s/-fno-exceptions//') -fexceptions -I/usr/lib/llvm-18/include main.cpp -o ../build/symx.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 -lminisat -lz
g++ -O2 -std=c++17 -w -fpermissive -D__STDC_LIMIT_MACROS -D__STDC_FORMAT_MACROS selftest.cpp -o ../build/selftest -lminisat && ../build/selftest
mv ../build/symx.tmp ../build/symx
