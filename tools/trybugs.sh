#!/bin/bash
# trybugs.sh [-t] ID...: applies each planted bug to a scratch copy of /repo and runs its demo and its property's quick check there.  -t: stable tests too (in /repo, undone afterwards)
V=$(cd "$(dirname "$0")/.." && pwd); T=; [ "$1" = -t ] && { T=1; shift; }
for id in "$@"; do
  s=$V/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  w=$(mktemp -d /tmp/bugXXXXXX)
  git clone -q /repo $w/r && git -C $w/r apply $s/patch.diff || { echo "$id: patch does not apply"; rm -rf $w; continue; }
  cd $V; ov=$(VP_REPO=$w/r VP_BUILD=$w/b python3 -c 'from vp import env; print(env.overlay("plain"))' 2>&1 | tail -1)
  [ -d "$ov" ] || { echo "$id: does not build: $ov"; rm -rf $w; continue; }
  mkdir -p $w/r2/src/python; cp -a $ov/pycold $w/r2/src/python/; cp -a $w/r/tests $w/r2/
  (cd $w/r2; timeout 300 bash $s/demo.sh >$w/demo.log 2>&1); d=$?
  good=$(python3 -c 'from vp import env; print(env.overlay("plain"))'); rm -rf $w/r2/src/python/pycold; cp -a $good/pycold $w/r2/src/python/
  (cd $w/r2; timeout 300 bash $s/demo.sh >$w/demo0.log 2>&1); d0=$?
  cd $V; VP_REPO=$w/r VP_BUILD=$w/b VP_EVID=$w/e timeout 900 ./check $p ${TIERARG} >$w/c.log 2>&1; c=$?
  echo "$id [$p]: demo clean=$d0 bug=$d check=$c $(grep -m1 VIOLATION $w/c.log | sed 's|replay=.*/||') $(tail -1 $w/c.log | cut -c1-100)"
  [ $d0 = 0 ] || tail -3 $w/demo0.log
  if [ -n "$T" ]; then git -C /repo apply $s/patch.diff && { bash /opt/vp/test.sh $w/o.json >/dev/null 2>&1; echo "   tests: $(python3 -c "import json;d=json.load(open('$w/o.json'));print(len(d['passed']),d['failed'])")"; git -C /repo checkout -q -- .; }; fi
  rm -rf $w
done
[ -n "$T" ] && bash /opt/vp/build.sh >/dev/null 2>&1
true
