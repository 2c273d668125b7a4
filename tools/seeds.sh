#!/bin/bash
# Development helper: run an already built harness with several seeds. seeds.sh c02 asan14 2 9 [args]
src=$1; var=$2; a=$3; b=$4; shift 4
export ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0" UBSAN_OPTIONS="print_stacktrace=1:exitcode=99" TSAN_OPTIONS="exitcode=99:halt_on_error=1"
seq $a $b | xargs -P 6 -I{} sh -c "/tmp/hb-$src-$var --seed {} $* > /tmp/seed-$src-$var-{}.out 2>&1; echo seed {} rc \$?; grep -A4 FAIL /tmp/seed-$src-$var-{}.out | cut -c1-900; grep -m3 -E 'ERROR|runtime error|SUMMARY' /tmp/seed-$src-$var-{}.out; rm -f /tmp/seed-$src-$var-{}.out"
