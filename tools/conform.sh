#!/bin/bash
# Compares what the simulated network answers with what the kernel answers, over loopback: bash tools/conform.sh
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
wraps=$(cd "$here" && python3 -c 'import run; print(" ".join("-Wl,--wrap=" + w for w in run.WRAPS))')
g++ -std=c++20 -O1 -g1 -U_FORTIFY_SOURCE -o "$out/conform" "$here/tools/conform.cpp" "$here/harness/sim.cpp" $wraps -lpthread
stdbuf -oL "$out/conform" "$@"
