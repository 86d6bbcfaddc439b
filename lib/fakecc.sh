#!/bin/bash
# C compiler stand-in for `cargo check`: nothing is ever linked, so the C kernels need not be
# compiled here (they are analysed by clang separately).  Probes go to the real compiler.
out=""; src=""; prev=""
for a in "$@"; do
  [ "$prev" = "-o" ] && out="$a"
  case "$a" in *kernels/*.c) src="$a";; esac
  prev="$a"
done
if [ -n "$src" ] && [ -n "$out" ]; then
  exec cc -c -x c /dev/null -o "$out"
fi
exec cc "$@"
