#!/bin/bash
# rustc wrapper: compile the library under test (and the shim that instantiates its generic entry
# points) with a call before every basic block, load and store. The simulator's scheduler uses
# those calls as preemption points (src/sched.rs); the code itself is unchanged.
rustc="$1"
shift
case " $* " in
  *" --crate-name bnf "* | *" --crate-name bnfcalls "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc -Cllvm-args=-sanitizer-coverage-trace-loads \
      -Cllvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rustc" "$@" ;;
esac
