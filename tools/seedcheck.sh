#!/bin/bash
# seedcheck.sh ID [PROP...]: does the planted change count (applies, builds, stable tests pass, demo fails with it and
# passes without it), and which of the checks report it?
id=$1; shift
S=/verif/seeded/$id; W=/tmp/sc-$id
rm -rf /tmp/sc-$id; mkdir -p $W; cp -a /repo $W/repo; cd $W/repo; git checkout -q -- .
mkdir $W/demo; cp -r $S/. $W/demo/; rm -f $W/demo/patch.diff $W/demo/meta.json
sed "s#/repo#$W/repo#g" /opt/vp/build.sh > $W/build.sh
rm -rf $W/repo/_build
bash $W/build.sh > $W/b0.log 2>&1 || { echo "base build failed"; exit 1; }
bash $W/demo/demo.sh > $W/d0.log 2>&1; r0=$?
git apply $S/patch.diff || { echo "does not apply"; exit 1; }
bash $W/build.sh > $W/b1.log 2>&1 || { echo "$id: patched build FAILED"; tail -20 $W/b1.log; exit 1; }
bash $W/demo/demo.sh > $W/d1.log 2>&1; r1=$?
LC_ALL=C.UTF-8 timeout 120 _build/bin/doctest_tests > $W/t.log 2>&1; rt=$?
echo "$id: demo unpatched=$r0 patched=$r1 tests=$rt $(tail -3 $W/t.log | tr '\n' ' ')"
[ $r0 = 0 ] || tail -5 $W/d0.log
cd /verif
for p in "$@"; do VERIF_REPO=$W/repo timeout 1000 python3 check.py $p > $W/c.log 2>&1; echo "  $p -> exit $? $(grep -m1 -v '^KNOWN' $W/c.log | cut -c1-150) $(grep -B1 -m1 VIOLATION $W/c.log | head -1| cut -c1-200)"; done
rm -rf /tmp/sc-$id
