#!/bin/bash
# Builds the library under test with a call at every basic block (scheduling points, step counter and
# coverage), at every atomic operation and at every load and store, so that accesses to memory the
# threads share are scheduling points of their own, and the glue, where the library's generic code is
# compiled, in the same way.  Everything else is compiled as usual.
for a in "$@"; do
  if [ "$a" = osu_file_parser ] || [ "$a" = osusim_glue ]; then
    # the library uses an operation that has no seam: basic blocks only
    [ -n "$OSUSIM_BLOCKS_ONLY" ] && exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-prune-blocks=0
    exec "$@" "-Cpasses=function(tsan) sancov-module" -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-prune-blocks=0 \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores \
      -Cllvm-args=-tsan-instrument-func-entry-exit=0 ${OSUSIM_PCS:+-Cllvm-args=-sanitizer-coverage-pc-table}
  fi
done
exec "$@"
