#!/bin/bash
# trybug.sh ID [check...]: try a planted change in a scratch copy of /repo
set -u
ID=$1; shift
S=$(cd "$(dirname "$0")/../seeded/$ID" && pwd)
V=$(cd "$(dirname "$0")/.." && pwd)
D=/tmp/trybug_$ID
rm -rf "/tmp/trybug_$ID"
cp -a /repo "$D"
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/vp/mplconfig OMP_NUM_THREADS=1
D2=/tmp/trydemo_$ID; rm -rf "/tmp/trydemo_$ID"; cp -a "$S" "$D2"; rm -f "$D2"/patch.diff "$D2"/meta.json
(cd "$D" && timeout 300 bash "$D2/demo.sh" >/tmp/trydemo_$ID.a 2>&1); a=$?
(cd "$D" && git apply "$S/patch.diff") || { echo "$ID APPLY FAILED"; exit 1; }
(cd "$D" && timeout 300 bash "$D2/demo.sh" >/tmp/trydemo_$ID.b 2>&1); b=$?
(cd "$D" && PYTHONPATH=$D /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --doctest-modules -o junit_family=xunit2 --junitxml=/tmp/try_$ID.xml bicycleparameters/ >/tmp/try_$ID.out 2>&1)
t=$(/opt/venv/bin/python - <<PY
import json, xml.etree.ElementTree as E
ok=set()
for c in E.parse('/tmp/try_$ID.xml').iter('testcase'):
    if not len([x for x in c if x.tag in ('failure','error','skipped')]): ok.add(c.get('classname')+'::'+c.get('name'))
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
print([x for x in b if x not in ok])
PY
)
echo "$ID demo unchanged=$a patched=$b failing stable tests=$t"
[ $a = 0 ] || tail -5 /tmp/trydemo_$ID.a
[ $b != 0 ] && tail -1 /tmp/trydemo_$ID.b
P=$(/opt/venv/bin/python -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for c in ${@:-$P}; do
  (cd "$V" && VERIF_REPO=$D timeout 900 python3 run.py $c >/tmp/try_$ID.$c 2>&1); r=$?
  echo "$ID check $c exit=$r $(grep -m1 counterexample /tmp/try_$ID.$c)"
  rm -f /tmp/try_$ID.$c
done
rm -rf "/tmp/trybug_$ID" "/tmp/trydemo_$ID"; rm -f /tmp/trydemo_$ID.a /tmp/trydemo_$ID.b /tmp/try_$ID.xml /tmp/try_$ID.out
