#!/bin/bash
# newseed.sh ID PROPERTY NEEDS BREAKS   (the change is in the clone /tmp/sw, the demonstration in /tmp/demo_ID.py)
# KIT=1: the demonstration uses tools/kit and the small design of harness/vt; otherwise the drivers of lib and harness
set -e
V=${VERIF_DIR:-/verif}
D=$V/seeded/$1
mkdir -p "$D"
git -C /tmp/sw diff > "$D/patch.diff"
if [ -n "$KIT" ]; then
  cp -r $V/tools/kit/. "$D/"
  cp -r $V/harness/vt "$D/vt"
else
  mkdir -p "$D/m"
  cp -r $V/lib $V/harness "$D/m/"
fi
cp /tmp/demo_$1.py "$D/demo.py"
printf '#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n' > "$D/demo.sh"
chmod +x "$D/demo.sh"
python3 - "$D" "$2" "$3" "$4" <<'P'
import json, sys
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open(sys.argv[1] + "/meta.json", "w"), indent=1)
P
rm -rf "$D/__pycache__" "$D/m/lib/__pycache__"
cd /tmp/sw
bash "$D/demo.sh" > /tmp/demo_bad.log 2>&1 && { echo "DEMO PASSES WITH PATCH"; tail -5 /tmp/demo_bad.log; } || { echo "demo fails with patch: $?"; tail -3 /tmp/demo_bad.log; }
cd /repo
bash "$D/demo.sh" > /tmp/demo_good.log 2>&1 && echo "demo passes on repo" || { echo "DEMO FAILS ON REPO"; tail -5 /tmp/demo_good.log; }
git -C /tmp/sw checkout -q -- .
