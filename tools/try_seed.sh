#!/bin/bash
# try_seed.sh <id> [check ids...]: in a scratch copy of /repo apply seeded/<id>/patch.diff, run the test suite and the
# demo (with and without the patch), then the given checks against the copy (NOSNOC_REPO)
id=$1; shift
S=/verif/seeded/$id
W=$(mktemp -d /tmp/seed_XXXXXX)
cp -a /repo "$W/repo"
cd "$W/repo" || exit 1
export PYTHONPATH=$W/repo
bash "$S/demo.sh" >/tmp/demo_clean.$id.log 2>&1; echo "$id demo clean rc=$?"
git apply "$S/patch.diff" || { echo "$id PATCH DOES NOT APPLY"; rm -rf "$W"; exit 1; }
bash "$S/demo.sh" >/tmp/demo_bug.$id.log 2>&1; echo "$id demo bug rc=$? ($(tail -1 /tmp/demo_bug.$id.log))"
if [ -z "$NOTEST" ]; then
  /opt/venv/bin/python -m pytest test -q -n 6 -p no:cacheprovider --timeout=300 2>&1 | tail -4 | sed "s/^/$id tests: /"
fi
cd /verif
for c in "$@"; do
  NOSNOC_REPO=$W/repo ./check $c > /tmp/seed_$id.$c.log 2>&1; rc=$?
  echo "$id $c rc=$rc $(grep VIOLATION /tmp/seed_$id.$c.log | head -2)"
done
rm -rf "$W"
