#!/usr/bin/env python3
"""mkbug.py ID PROPERTY < spec   -- developer helper: writes seeded/ID from a textual edit.
spec (python literal dict): file, edits=[(old,new),...] or files={file:[(old,new)]}, needs, breaks; demo.c is given separately."""
import sys, os, subprocess, json, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bid, prop = sys.argv[1], sys.argv[2]
s = eval(sys.stdin.read())
d = f'{V}/seeded/{bid}'; os.makedirs(d, exist_ok=True)
files = s.get('files') or {s['file']: s['edits']}
saved = {}
try:
    for f, eds in files.items():
        p = '/repo/' + f; t = open(p).read(); saved[p] = t
        for a, b in eds:
            assert t.count(a) == 1, (f, a, t.count(a))
            t = t.replace(a, b)
        open(p, 'w').write(t)
    diff = subprocess.check_output(['git', '-C', '/repo', 'diff'])
    open(d + '/patch.diff', 'wb').write(diff)
finally:
    for p, t in saved.items(): open(p, 'w').write(t)
json.dump(dict(property=prop, needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
if 'demo' in s:
    open(d + '/demo.c', 'w').write(s['demo'])
open(d + '/demo.sh', 'w').write(s.get('sh') or '''#!/bin/bash
# builds the demonstration against the libraries in ./build and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 3; trap 'rm -rf "$T"' EXIT
I=""; for d in bsl crypto pki tls auth; do I="$I -Iinclude/$d"; done
gcc -O1 -g -w $(tr '\\n' ' ' < build/macros.txt) $I -Iconfig/macro_config $EXTRA_INC "$D/demo.c" -Wl,--start-group build/libhitls_auth.a build/libhitls_tls.a build/libhitls_pki.a build/libhitls_crypto.a build/libhitls_bsl.a -Wl,--end-group -lcrypto -ldl -lpthread -lm -o "$T/demo" || exit 3
cd "$T" && timeout 200 ./demo
''')
os.chmod(d + '/demo.sh', 0o755)
