#!/bin/bash
# seed_check.sh ID...: a planted change applies, passes the tests, fails its demo; whether the check of its property notices it
# (works in a scratch copy of /repo)
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d /tmp/seedXXXX); mkdir $t/demo; cp $d/* $t/demo/; rm -f $t/demo/patch.diff $t/demo/meta.json
  cp -a /repo $t/repo
  (cd $t/repo && timeout 300 bash $t/demo/demo.sh >$t/demo0.log 2>&1); c=$?
  git -C $t/repo apply $d/patch.diff || { echo "$id: patch does not apply"; rm -rf "$t"; continue; }
  (cd $t/repo && timeout 300 bash $t/demo/demo.sh >$t/demo1.log 2>&1); m=$?
  [ $c = 0 ] && [ $m != 0 ] || tail -n 5 $t/demo0.log $t/demo1.log
  tests=skipped
  if [ -z "$NOTEST" ]; then
    tests=$(. /opt/vp/env.sh; cd $t/repo && PYTHONPATH=$t/repo /opt/venv/bin/python -m pytest -q -x tests 2>&1 | tail -1)
  fi
  VERIF_REPO=$t/repo timeout 900 bash run.sh $p quick > /tmp/seed_check_$id.log 2>&1; k=$?
  rm -rf "$t"
  echo "$id property=$p demo clean=$c patched=$m tests=$tests check exit=$k $(grep -c VIOLATION /tmp/seed_check_$id.log)"
done
