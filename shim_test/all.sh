#!/bin/bash
# Builds /repo/ink (without Skia and JNI) against the shims and runs upstream's own tests. Usage: all.sh OUTDIR
out=${1:-/tmp/shimtest}; mkdir -p $out/o
cd /repo
find ink -name '*.cc' | grep -Ev '_test\.cc|fuzz_domains|benchmark|skia/native|recorded_test|/jni/|tessellat|sksl_uniform_setter' > $out/list
export out
cat $out/list | xargs -P8 -I{} bash -c 'o=$out/o/$(echo {}|tr / _).o; [ $o -nt {} ] || clang++ -std=c++20 -O1 -g1 -fsanitize=address -w -I/verif/shim -I/verif/shim_test -I/repo -c {} -o $o 2>$o.err || echo NOLIB {}'
clang++ -std=c++20 -O1 -fsanitize=address -w -I/verif/shim -c /verif/shim_test/main.cc -o $out/main.o || exit 1
export SUPPORT=$out/main.o
rm -f $out/lib.a; ar rcs $out/lib.a $out/o/*.o
bash /verif/shim_test/build_run.sh $out $(find ink -name '*_test.cc' | grep -Ev 'skia/native|tessellat|/jni/') | sort
