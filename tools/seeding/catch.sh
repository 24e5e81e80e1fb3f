# catch.sh ID...: apply the seed, run the property's check, undo
for id in "$@"; do
 prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$id/patch.diff || continue
 s=$(date +%s)
 (cd /verif && bash check.sh $prop >/tmp/w/catch.out 2>/tmp/w/catch.err); rc=$?
 git -C /repo checkout -q -- .
 echo "$id $prop rc=$rc $(( $(date +%s)-s ))s $(grep -a '^first' /tmp/w/catch.out | cut -c1-200) $(tail -1 /tmp/w/catch.out)"
done
