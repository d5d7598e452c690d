#!/bin/bash
# Nothing to build ahead of time: checks extract and verify /repo's current tree
# on every run. This only confirms that the tools are where the checks expect them.
set -e
cd "$(dirname "$0")"
for t in clang++-18 opt-18 c++filt python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p evidence replays
python3-vt - <<'P'
import sys
sys.path.insert(0, "vcg")
import front, smt, term as tm
x = tm.sym("x", 8)
st, _ = smt.query([], tm.eq(8, tm.mk("xor", 8, x, x), 0))
assert st == "unsat", st
m = front.module("ffw")
assert m.func("@w_add") is not None
print("setup ok")
P
