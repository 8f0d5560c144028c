#!/usr/bin/env python3
"""Try planted bugs: seedtest.py [--nocheck] ID...   (ID = directory under /verif/seeded)
For each, in a scratch copy of /repo bind-mounted over /repo in a private user+mount namespace: the demo passes on the
unchanged tree; the patch applies, builds and keeps the stable tests; the demo fails; and whether the property's check
reports a violation."""
import json, os, shutil, subprocess, sys, tempfile

VERIF = "/verif"
SCRIPT = r"""
set -u
mount --bind "$SCR" /repo
cd /repo
bash /opt/vp/build.sh > "$LOG/build0" 2>&1 || { echo "RESULT clean-build-fails"; exit 0; }
timeout 300 bash "$DEMO/demo.sh" > "$LOG/demo0" 2>&1 || { echo "RESULT demo-fails-on-clean"; tail -5 "$LOG/demo0"; exit 0; }
git apply "$SEED/patch.diff" || { echo "RESULT patch-does-not-apply"; exit 0; }
bash /opt/vp/test.sh "$LOG/t.json" > "$LOG/build1" 2>&1
python3 - "$LOG/t.json" <<'PY' || { echo "RESULT tests-fail"; grep -m5 -i "error" "$LOG/build1"; exit 0; }
import json, sys
t = json.load(open(sys.argv[1])); b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
p = set(t["passed"]); miss = [x for x in b if x not in p]
print("missing:", miss[:3]) if miss else None
sys.exit(bool(miss))
PY
cd /repo
timeout 300 bash "$DEMO/demo.sh" > "$LOG/demo1" 2>&1 && { echo "RESULT demo-passes-with-bug"; exit 0; }
echo "VALID"
[ "$CHECK" = 1 ] || exit 0
cd /verif
python3 tools/check.py "$PROP" quick > "$LOG/check" 2>&1
rc=$?
if [ $rc = 1 ] && grep -q "^VIOLATION property=$PROP " "$LOG/check"; then echo "CAUGHT"; grep -m1 "^check " "$LOG/check"; else echo "MISSED rc=$rc"; tail -3 "$LOG/check"; fi
"""
args = [a for a in sys.argv[1:] if not a.startswith("--")]
check = "0" if "--nocheck" in sys.argv else "1"
for sid in args or sorted(os.listdir(VERIF + "/seeded")):
    seed = os.path.join(VERIF, "seeded", sid)
    meta = json.load(open(seed + "/meta.json"))
    scr = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    log = tempfile.mkdtemp(prefix="seedlog-", dir="/tmp")
    demo = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", scr], check=True)
    for f in os.listdir(seed):
        if not (f.endswith((".diff", ".patch")) or f == "meta.json"):
            shutil.copy(os.path.join(seed, f), demo)
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", SCRIPT], capture_output=True, text=True,
                       env=dict(os.environ, SCR=scr, LOG=log, SEED=seed, DEMO=demo, PROP=meta["property"], CHECK=check, VERIF_SEED="1"))
    print("%-8s %s: %s" % (sid, meta["property"], " | ".join((r.stdout + r.stderr).strip().splitlines())), flush=True)
    for d in (scr, log, demo):
        shutil.rmtree(d, ignore_errors=True)
