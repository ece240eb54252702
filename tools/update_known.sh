#!/bin/bash
# regenerate the "fixed:" lines, keep the "known:" lines
cd "$(dirname "$0")/.." || exit 1
grep -v "^fixed:" known_findings.txt > .kf.tmp
{ python3 tools/gen_fixed.py; cat .kf.tmp; } > known_findings.txt
/bin/rm -f "$PWD/.kf.tmp"
wc -l known_findings.txt
