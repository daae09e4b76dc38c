#!/bin/bash
# mkbug.sh ID PROP "needs" "breaks" : takes /tmp/bug (worktree with the change) and /tmp/demo.py
set -e
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/bug diff > $D/patch.diff
cp /tmp/demo.py $D/demo.py; cp /verif/tools/lib.py $D/lib.py
cat > $D/demo.sh <<'X'
#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONPATH="$PWD/src:$(cd "$(dirname "$0")" && pwd)"
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
X
chmod +x $D/demo.sh
python3 - "$@" <<'X'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
X
cd /repo && bash $D/demo.sh >/tmp/d0.log 2>&1; A=$?
cd /tmp/bug && bash $D/demo.sh >/tmp/d1.log 2>&1 && B=0 || B=$?
echo "$ID unchanged=$A patched=$B"; tail -2 /tmp/d0.log; tail -2 /tmp/d1.log
