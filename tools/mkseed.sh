#!/bin/bash
# mkseed.sh ID EDIT.py DEMO_DIR PROPERTY NEEDS WHAT
# Plants a bug in a scratch copy of /repo, confirms it (compiles, stable tests pass,
# demo passes without and fails with it) and stores it under seeded/ID.
set -e
ID=$1 EDIT=$2 DEMO=$3 PROP=$4 NEEDS=$5 WHAT=$6
V=/verif; S=/tmp/seedwork/$ID
rm -rf "/tmp/seedwork/$ID"; mkdir -p /tmp/seedwork; cp -a /repo "$S"
git -C "$S" reset -q --hard; git -C "$S" clean -fdq
( cd "$S" && bash "$DEMO/demo.sh" ) >/tmp/seedwork/$ID.clean 2>&1 || { echo "demo fails on the clean tree"; tail -20 /tmp/seedwork/$ID.clean; exit 1; }
( cd "$S" && python3 "$EDIT" )
git -C "$S" diff > /tmp/seedwork/$ID.diff
[ -s /tmp/seedwork/$ID.diff ] || { echo "no change"; exit 1; }
if ( cd "$S" && bash "$DEMO/demo.sh" ) >/tmp/seedwork/$ID.bug 2>&1; then echo "demo passes with the bug"; exit 1; fi
# stable tests in the copy
( cd "$S" && PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=/tmp/seedwork/scope-$ID /opt/venv/bin/python - <<P
import os,sys,subprocess
d="/tmp/seedwork/scope-$ID"; os.makedirs(d,exist_ok=True)
src=open("/opt/vp/scope/irspack_bare_parent.py").read().replace("/repo","$S")
open(d+"/irspack_bare_parent.py","w").write(src)
r=subprocess.run([sys.executable,"-m","pytest","-q","-x","-p","no:cacheprovider","-p","irspack_bare_parent","-p","pytest_mock","tests/dataset"],env={**os.environ,"PYTEST_DISABLE_PLUGIN_AUTOLOAD":"1","HOME":d},capture_output=True,text=True)
sys.exit(0 if r.returncode==0 and "9 passed" in r.stdout else (print(r.stdout[-2000:]) or 1))
P
) || { echo "stable tests fail"; exit 1; }
D=$V/seeded/$ID; rm -rf "/verif/seeded/$ID"; mkdir -p "$D"
cp "$DEMO"/* "$D"/; cp /tmp/seedwork/$ID.diff "$D/patch.diff"
python3 - "$D/meta.json" "$PROP" "$NEEDS" "$WHAT" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1],"w"),indent=1)
P
git -C /repo apply --check "$D/patch.diff" && echo "kept $ID: $(tail -1 /tmp/seedwork/$ID.bug)"
rm -rf "/tmp/seedwork/$ID" "/tmp/seedwork/scope-$ID"
