#!/bin/bash
# tools/plant.sh <id> <property>: turn the edits made in the scratch worktree $SR into seeded/<id>
# (expects seeded/<id>/demo.cpp and meta text in $NEEDS / $BREAKS); confirms build, tests and demo.
set -u
ID=$1; PROP=$2
SR=${SR:-/tmp/sr}; V=/verif; D=$V/seeded/$ID
mkdir -p "$D"
git -C "$SR" diff HEAD > "$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo "no change"; exit 2; }
cat > "$D/demo.sh" <<'X'
#!/bin/bash
# builds demo.cpp against the libraries built from the current tree and runs it
D="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d)
g++ -std=c++17 -O1 -w -I include/mqt-core -I _build/src -I _build/include $(for d in _build/src/*/; do echo "-I $d"; done) -I "$D" "$D/demo.cpp" -Wl,--start-group _build/src/*/*.a -Wl,--end-group -o "$T/demo" || { rm -r -- "$T"; exit 9; }
(cd "$T" && timeout 250 ./demo)
rc=$?
rm -r -- "$T"
exit $rc
X
chmod +x "$D/demo.sh"
python3 - <<P
import json,os
json.dump(dict(property="$PROP",needs=os.environ["NEEDS"],what_it_breaks=os.environ["BREAKS"]),open("$D/meta.json","w"),indent=1)
P
. /opt/vp/env.sh
cd "$SR"
bld() { ninja -C _build > _build/n.log 2>&1 || { tail -30 _build/n.log; echo BUILD-FAILED; exit 3; }; }
bld
bash "$D/demo.sh" > /tmp/plant/demo.out 2>&1; rp=$?
tail -3 /tmp/plant/demo.out
ctest --test-dir _build -j1 --timeout 300 -E '^(DDNoiseFunctionalityTest\.|QPE/QPE\.)' > _build/c.log 2>&1; rt=$?
tail -8 _build/c.log
if [ -n "$(git diff HEAD --name-only | grep python)" ]; then echo "note: python sources touched"; fi
git -C "$SR" checkout -q -- .
bld
bash "$D/demo.sh" > /tmp/plant/demo0.out 2>&1; r0=$?
tail -3 /tmp/plant/demo0.out
echo "RESULT $ID: demo patched=$rp (want nonzero, not 9) unpatched=$r0 (want 0) ctest=$rt (want 0)"
