#!/bin/bash
# Development helper: build one harness in one variant and run it. hb.sh c02 asan14 [args...]
src=$1; var=$2; shift 2
exe=/tmp/hb-$src-$var
cd "$(dirname "$0")/.." && python3 - "$src" "$var" "$exe" <<'P' || exit 1
import sys,subprocess,time
import os; sys.path[:0]=[os.getcwd(),os.getcwd()+"/harness"]
import check
t=time.time()
r=subprocess.run(check.compile_cmd(sys.argv[1]+'.cpp',sys.argv[2],sys.argv[3],__import__('os').environ.get('FLAGS','').split()),stderr=subprocess.PIPE)
print('build',round(time.time()-t,1)); 
e=r.stderr.decode()
if r.returncode: print(e[:1800])
sys.exit(r.returncode)
P
export ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0" UBSAN_OPTIONS="print_stacktrace=1:exitcode=99" TSAN_OPTIONS="exitcode=99:halt_on_error=1"
$exe --seed ${SEED:-1} "$@" 2>&1 | cut -c1-${COLS:-500} | head -${LINES_MAX:-30}
