#!/bin/bash
# usage: seed.sh ID PROPERTY "needs" "what it breaks"
# with an edited copy of /repo in /tmp/wt/repo and a test in /tmp/wt/demo_test.go:
# confirms that it builds, passes the tests, and that the demonstration tells them apart; then keeps it.
id=$1; d=/verif/seeded/$id; . /opt/vp/env.sh
cd /tmp/wt/repo || exit 1
git diff --quiet && { echo "no change"; exit 1; }
mkdir -p $d; git diff > $d/patch.diff
cp /tmp/wt/demo_test.go $d/demo_test.go
cat > $d/demo.sh <<'D'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$t/o.json"
go test -count=1 -vet=off -timeout 250s -overlay "$t/o.json" -run TestDemo .
rc=$?
rm -rf "$t"
exit $rc
D
chmod +x $d/demo.sh
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1,ensure_ascii=False)
P
ok=1
go build ./... || ok=0
go test -json -vet=off -count=1 -timeout 5m ./... > /tmp/wt/t.json 2>/dev/null
python3 - <<'P' || ok=0
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
for k in ('passed','stable','tests','pass'):
    if k in b: want={x for x in b[k] if not str(x).startswith('re2_wasm')}; break
failed=set()
for l in open('/tmp/wt/t.json'):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='fail' and e.get('Test'): failed.add(e['Test'])
bad=[w for w in want if any(str(w).endswith(f) for f in failed)]
print('tests failing:',sorted(failed)[:8],'of them stable:',bad[:5]); sys.exit(1 if bad else 0)
P
bash $d/demo.sh >/tmp/wt/demo1.log 2>&1 && { echo "demo passes WITH the change"; ok=0; }
(cd /repo && bash $d/demo.sh >/tmp/wt/demo0.log 2>&1) || { echo "demo fails on the unchanged tree"; tail -5 /tmp/wt/demo0.log; ok=0; }
git checkout -q -- .
if [ $ok = 1 ]; then echo "kept $id"; else rm -rf /verif/seeded/$id; echo "REFUSED $id"; fi
