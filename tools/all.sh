#!/bin/bash
# run every registered check one after another, with timing
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  ./check $p quick > /tmp/chk_$p.txt 2>&1; rc=$?
  echo "$p rc=$rc $(tail -1 /tmp/chk_$p.txt)"
done
