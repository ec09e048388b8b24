#!/bin/bash
# Runs every check, one after another; prints one line each.
cd "$(dirname "$0")/.."
for i in ${@:-$(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])")}; do
  bash check.sh $i -v > /tmp/all.$i 2>&1; rc=$?
  echo "rc=$rc $(grep -E "^$i: " /tmp/all.$i | tail -1) $(grep -E 'VIOLATION|KNOWN|undecided' /tmp/all.$i | head -3 | tr '\n' ' ')"
done
