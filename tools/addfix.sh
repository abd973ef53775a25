#!/bin/bash
# tools/addfix.sh HASH PROP [HASH PROP ...]: records which property a fix: commit repairs
cd "$(dirname "$0")/.." && python3 - "$@" <<'P'
import json,sys
p="tools/fixed_extra.json"; d=json.load(open(p)); a=sys.argv[1:]
d.update({h[:7]:q for h,q in zip(a[::2],a[1::2])}); json.dump(d,open(p,"w"))
P
python3 tools/fixed.py && python3 tools/meta.py
