#!/bin/bash
# confirm.sh ID...: in a scratch worktree of /repo (made on demand under /tmp/w), checks that each planted bug
# applies, builds, keeps the stable tests passing, and that its demo passes without it and fails with it.
W=/tmp/w
export CC=/usr/bin/gcc CXX=/usr/bin/g++ LC_ALL=C.UTF-8
if [ ! -d $W/_build ]; then
  git clone -q /repo $W || exit 1
  meson setup $W/_build $W --buildtype=debugoptimized --wrap-mode=nodownload -Dwerror=false -Ddocs=false >/dev/null || exit 1
fi
git -C $W fetch -q origin; git -C $W checkout -q --detach $(git -C /repo rev-parse HEAD) || exit 1
for id in "$@"; do
  D=/verif/seeded/$id; git -C $W checkout -q -- . ; res=""
  (cd $W && bash $D/demo.sh >/tmp/demo.out 2>&1) || { echo "$id: demo FAILS on the unchanged tree"; tail -5 /tmp/demo.out; continue; }
  git -C $W apply $D/patch.diff || { echo "$id: does not apply"; continue; }
  (cd $W && bash $D/demo.sh >/tmp/demo.out 2>&1) && { echo "$id: demo does NOT fail with the change"; git -C $W checkout -q -- .; continue; }
  ninja -C $W/_build all >/tmp/ninja.out 2>&1 || { echo "$id: does not build"; grep -m3 error /tmp/ninja.out; git -C $W checkout -q -- .; continue; }
  python3 /opt/vp/run_catch.py $W/_build/tests/libgul-test /tmp/w-reports /tmp/w-out.json >/dev/null
  python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w-out.json'))
st=b.get('stable') or b.get('passed') or b.get('tests') or b
bad=[t for t in st if t not in set(o['passed'])]
print(sys.argv[1]+": OK (demo fails with it, %d stable tests pass)"%len(st) if not bad else sys.argv[1]+": TESTS FAIL "+str(bad[:3]))
P
  git -C $W checkout -q -- .
done
