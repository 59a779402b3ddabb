#!/bin/bash
# tryseed.sh ID [CHECK...]: validate one planted bug in a scratch copy of /repo (/tmp/sr) and run checks against it.
ID=$1; shift; W=$(cd "$(dirname "$0")/.." && pwd); REPO=${REPO:-/repo}; S=$W/seeded/$ID; SR=${SR:-/tmp/sr}
if [ ! -d $SR ]; then mkdir -p $SR; (cd $REPO && git ls-files -z | xargs -0 cp --parents -t $SR); fi
(cd $REPO && git ls-files -z | xargs -0 -I{} sh -c 'cmp -s "{}" "'$SR'/{}" || cp --parents "{}" "'$SR'"')
if ! (cd $SR && patch -p1 --dry-run -s < $S/patch.diff); then echo "$ID: PATCH FAILS"; exit 1; fi
git -C $REPO apply --check $S/patch.diff || { echo "$ID: git apply fails"; exit 1; }
(cd $SR && patch -p1 -s < $S/patch.diff)
restore() { (cd $SR && patch -R -p1 -s < $S/patch.diff); }
trap restore EXIT
R="$ID:"
if [ -z "$NOBUILD" ]; then
  cmake -S $SR -B $SR/_build -G Ninja -DCMAKE_CXX_COMPILER=g++ -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_FLAGS_DEBUG=-O0 -DCMAKE_CXX_FLAGS=-w -DCMAKE_MODULE_PATH=/opt/vp/cmake -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS -DENABLE_CACHE=OFF -DBUILD_TESTS=ON -DBUILD_EXAMPLES=ON -DBUILD_BENCHMARKS=OFF > $SR/cm.log 2>&1
  if ! nice ninja -C $SR/_build > $SR/nj.log 2>&1; then echo "$R BUILD FAILS"; grep -m3 error: $SR/nj.log; exit 1; fi
  mkdir -p $SR/_build/vp-reports; python3 /opt/vp/run_tests.py $SR/_build $SR/res.txt > $SR/rt.log 2>&1
  F=$(python3 - $SR/res.txt <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); b=b if isinstance(b,list) else b.get('passed') or b.get('stable') or next(v for v in b.values() if isinstance(v,list))
ok={l[5:].strip() for l in open(sys.argv[1]) if l.startswith('PASS')}
m=[x for x in b if x not in ok]; print(len(m), m[:3])
P
)
  R="$R tests-failing=$F"
fi
(cd $REPO && timeout 300 bash $S/demo.sh >/tmp/demo1_$ID.log 2>&1); R="$R demo-clean=$?"
(cd $SR && timeout 300 bash $S/demo.sh >/tmp/demo2_$ID.log 2>&1); R="$R demo-patched=$?"
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for c in "$@"; do [ -n "$NOCHECK" ] || { VERIF_REPO=$SR timeout 880 python3 $W/bin/check.py $c > /tmp/chk_${ID}_$c.log 2>&1; R="$R $c=$?"; grep -q VIOLATION /tmp/chk_${ID}_$c.log && R="$R(V)"; }; done
echo "$R"
