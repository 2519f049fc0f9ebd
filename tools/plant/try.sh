#!/bin/bash
# try.sh SEEDED_DIR ID... : demo on the clean tree and on the patched copy
S=$1; shift
for id in "$@"; do
  d=/tmp/w/s/$id; rm -rf $d; cp -a /repo $d
  (cd /repo && timeout 300 bash $S/$id/demo.sh >/tmp/w/demo_clean.$id 2>&1); a=$?
  if ! git -C $d apply $S/$id/patch.diff; then echo "$id: DOES NOT APPLY"; continue; fi
  (cd $d && timeout 300 bash $S/$id/demo.sh >/tmp/w/demo_bug.$id 2>&1); b=$?
  echo "$id clean=$a patched=$b $(tail -1 /tmp/w/demo_bug.$id | cut -c1-150)"
done
