#!/bin/bash
# catch.sh SEEDED_DIR ID... : run the check of each bug's property on the patched copies made by try.sh
S=$1; shift
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$S/$id/meta.json'))['property'])")
  t0=$(date +%s)
  DST_REPO=/tmp/w/s/$id VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python run.py ${PROP:-$p} --tier quick >/tmp/w/catch.$id 2>&1; rc=$?
  echo "$id ${PROP:-$p} rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 VIOLATION /tmp/w/catch.$id)"
done
