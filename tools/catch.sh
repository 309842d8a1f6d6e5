# run own property's check against each seed
for d in /verif/seeded/*/; do id=$(basename $d); [ -n "$1" ] && [ "$1" != "$id" ] && continue
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=/tmp/catchrepo; rm -rf /tmp/catchrepo; cp -a /repo $w; git -C $w apply $d/patch.diff || echo APPLY
s=$(date +%s); out=$(VERIF_REPO=$w timeout 900 /verif/bin/check $p 2>&1); rc=$?
echo "$id $p rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -aE '^(VIOLATION|ERROR)' | head -2)"
done; rm -rf /tmp/catchrepo
