#!/bin/bash
# Runs upstream's own unit tests against the shims and stand-ins (validation of the stand-ins; not a check).
# FUZZ_TESTs and files that need fuzztest are stripped.  Usage: build_run.sh OUTDIR test.cc...
set -u
out=$1; shift; mkdir -p $out
cd /repo
run() { t=$1; n=$(echo $t|tr / _); src=$out/$n.cc
 python3 - "$t" "$src" <<'P'
import re,sys
s=open(sys.argv[1]).read()
s=re.sub(r'#include "(fuzztest|ink/[^"]*fuzz_domains)[^"]*"\n','',s)
s=s.replace('std::sqrtf','sqrtf').replace('#include "gmock/','#include "absl/strings/str_format.h"\n#include "gmock/',1)
s=re.sub(r'\nFUZZ_TEST\((?:.|\n)*?;\n(?=\n)','\n',s)
open(sys.argv[2],'w').write(s)
P
 clang++ -std=c++20 -O1 -g1 -fsanitize=address -w -I/verif/shim -I/verif/shim_test -I/repo $src ${SUPPORT:-} $out/lib.a -L/usr/lib -labsl_time -labsl_time_zone -labsl_base -labsl_int128 -labsl_raw_logging_internal -labsl_spinlock_wait -labsl_throw_delegate -lgtest -lgmock -lpthread -o $out/$n.exe 2>$out/$n.err || { echo "NOBUILD $t"; return; }
 $out/$n.exe > $out/$n.log 2>&1; echo "$? $t $(grep -c '^\[       OK' $out/$n.log) ok $(grep -c '^\[  FAILED.*ms)' $out/$n.log) failed"
}
export -f run; export out SUPPORT
printf '%s\n' "$@" | xargs -P8 -I{} bash -c 'run {}'
