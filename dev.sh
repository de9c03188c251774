#!/bin/bash
# dev helper: build a harness once into /tmp/w and run it:  dev.sh C02 [driver args]
id=$1; shift
mkdir -p /tmp/w/$id; cd /tmp/w/$id || exit 2
export ASAN_OPTIONS=detect_leaks=0:malloc_context_size=2:quarantine_size_mb=32:exitcode=99:allocator_may_return_null=1 UBSAN_OPTIONS=exitcode=98
R=${VERIF_REPO:-/repo}
F="-std=gnu++17 -O1 -w -g1 -D_DEBUG -fno-omit-frame-pointer -I$R/include -I/verif/harness"
S="-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=pointer-overflow"
rm -f fail
for f in /verif/harness/${id}_*.cpp $(ls $R/src/*.cpp | grep -v /test_); do ( g++ $F $S -c $f -o $(basename $f).o || touch fail ) & done
( g++ $F -O2 -c /verif/harness/pbt.cpp -o pbt.o || touch fail ) & wait
[ -e fail ] && exit 2
g++ $S *.o -o $id && ./$id "$@"
