#!/bin/bash
# seed.sh NAME [CHECK...]: with the change made in /repo's working tree (uncommitted) and /verif/seeded/NAME/{demo.cpp,meta.json}
# written: store patch.diff, confirm stable tests pass with it, demo fails with it and passes without; then run checks on it.
N=$1; shift; S=/verif/seeded/$N; mkdir -p $S
[ -n "$(git -C /repo status --short)" ] && git -C /repo diff > $S/patch.diff
git -C /repo checkout -q -- .
cp /verif/tools/demo.sh /verif/harness/shim/eigen_sorted_triplets.h $S/
bash /opt/vp/build.sh > /tmp/seed.log 2>&1 || { echo "base build failed"; exit 1; }
(cd /repo && bash $S/demo.sh > /tmp/seed.demo0 2>&1); echo "demo on base: $? (want 0)"; tail -3 /tmp/seed.demo0
git -C /repo apply $S/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /tmp/st.sh | tail -3
(cd /repo && bash $S/demo.sh > /tmp/seed.demo1 2>&1); echo "demo with patch: $? (want nonzero)"; tail -3 /tmp/seed.demo1
for c in "$@"; do (cd /verif && python3 run_check.py $c > /tmp/seed.chk 2>&1; echo "check $c rc=$?"; grep VIOLATION /tmp/seed.chk | head -4 | cut -c1-200); done
