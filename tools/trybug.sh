#!/bin/bash
# trybug.sh ID [tests]: confirm a planted bug and run its check against it
i=$1; d=/verif/seeded/$i
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo && git status --short | head -3
bash $d/demo.sh >/tmp/demo.log 2>&1; echo "demo clean: $?"
git -C /repo apply $d/patch.diff || exit 1
bash $d/demo.sh >/tmp/demo.log 2>&1; echo "demo patched: $?"
if [ "$2" = tests ]; then bash /opt/vp/test.sh /tmp/tb.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/tb.json'))
st=b.get('stable') or b.get('passed') or b
ps=set(r.get('passed',r))
print("tests lost:", [x for x in st if x not in ps][:5])
P
fi
(cd /verif && ./run.sh $p quick; echo "check exit $?")
git -C /repo checkout -- .
