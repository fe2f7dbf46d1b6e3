# seed.sh ID...: validate planted bugs: demo clean / patched, tests, check
for id in "$@"; do
d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
bash $d/demo.sh >/tmp/demo.log 2>&1; a=$?
python3 - $d/patch.diff <<'P' || echo "NO ORIGINAL LINE"
import re,subprocess,sys
ok=False
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)',l)
    if m: n=int(m[1]); continue
    if l.startswith('-') and not l.startswith('---'):
        b=subprocess.run(['git','-C','/repo','blame','-s','-L',f'{n},{n}',f],capture_output=True,text=True).stdout
        ok|=b.startswith('^'); n+=1
    elif l.startswith(' '): n+=1
sys.exit(0 if ok else 1)
P
git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
bash $d/demo.sh >/tmp/demo2.log 2>&1; b=$?
t=skip; if [ -z "${NOTEST:-}" ]; then bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/t.json'))
s=set(b['stable']); print(len(s-set(r['passed'])),'fail')
P
); fi
cd /verif; o=$(bash run.sh ${CHK:-$prop} quick 2>&1); c=$?
git -C /repo checkout -q -- .
echo "$id $prop demo clean=$a patched=$b tests: $t check exit=$c"; echo "$o" | cut -c1-300 | head -${L:-3}
[ $a = 0 ] || tail -5 /tmp/demo.log
[ $b = 0 ] && echo "DEMO DOES NOT FAIL"; [ $b = 3 ] && cat /tmp/demo2.log
done
