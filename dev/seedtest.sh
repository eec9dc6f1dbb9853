#!/bin/bash
# seedtest.sh ID... : confirm seeds in the scratch clone /tmp/seedrepo (builds tests with the patch; QUICK=1 skips the tests)
S=/tmp/seedrepo
[ -d $S/_build ] || { git clone -q /repo $S; (cd $S && CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DPARLAY_TEST=On -DPARLAY_EXAMPLES=On -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest >/dev/null); }
cd $S; git checkout -q -- .; git pull -q 2>/dev/null
for id in "$@"; do
  D=/verif/seeded/$id
  git checkout -q -- .
  bash $D/demo.sh >/tmp/seed_$id.clean 2>&1; a=$?
  git apply $D/patch.diff || { echo "$id PATCH-FAILS"; continue; }
  bash $D/demo.sh >/tmp/seed_$id.bug 2>&1; b=$?
  chk=""
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  VERIF_REPO=$S VERIF_EVID=/tmp/seedevid timeout 900 python3 /verif/check.py $P >/tmp/seed_$id.chk 2>&1; c=$?
  t="-"
  if [ -z "$QUICK" ]; then
    ninja -C _build test/all >/tmp/seed_$id.build 2>&1 || t=BUILDFAIL
    if [ $t = - ]; then
      rm -rf /tmp/seedw; mkdir -p /tmp/seedw
      PARLAY_NUM_THREADS=8 VP_JOBS=8 python3 /opt/vp/run_gtests.py $S/_build/test /tmp/seedw/w /tmp/seedw/lines >/dev/null 2>&1
      cp /tmp/seedw/lines /tmp/seed_$id.lines; t=$(grep -c ^PASS /tmp/seedw/lines)/$(grep -c ^FAIL /tmp/seedw/lines)
    fi
  fi
  echo "$id clean=$a bug=$b check=$c tests(pass/fail)=$t"
  git checkout -q -- .
done
