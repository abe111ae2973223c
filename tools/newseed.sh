# bash tools/newseed.sh ID: patch of the scratch copy /tmp/w/rc/repo, then reset
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/w/rc/repo diff > $d/patch.diff
git -C /tmp/w/rc/repo checkout -q -- .
cat > $d/demo.sh <<'X'
#!/bin/bash
# run with cwd /repo; exit 0 if the property holds
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
PYTHONPATH="$PWD" exec $PY -B "$(dirname "$0")/demo.py"
X
