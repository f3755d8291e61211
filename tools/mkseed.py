#!/usr/bin/env python3
"""mkseed.py ID PROPERTY "needs" "breaks": take the uncommitted diff of /repo as planted bug ID and undo it in /repo.
The demo is /verif/seeded/ID/demo.cc (compiled by the demo.sh written here) unless a demo.sh is already there."""
import json, os, subprocess, sys
sid, prop, needs, breaks = sys.argv[1:5]
d = f'/verif/seeded/{sid}'
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', os.environ.get('SEED_REPO', '/repo'), 'diff'], capture_output=True, text=True, check=True).stdout
assert diff.strip()
open(f'{d}/patch.diff', 'w').write(diff)
subprocess.run(['git', '-C', os.environ.get('SEED_REPO', '/repo'), 'checkout', '--', '.'], check=True)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
flags = sys.argv[5] if len(sys.argv) > 5 else ''
if not os.path.exists(f'{d}/demo.sh'):
    open(f'{d}/demo.sh', 'w').write(f'''#!/bin/bash
# Compiles demo.cc against the tree in the current directory and runs it in a scratch directory.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
TMP=$(mktemp -d)
trap 'rm -rf "$TMP"' EXIT
g++ -std=c++17 -O1 -w {flags} -DCURRENT_CI -I"$REPO" -I"$HERE" "$HERE/demo.cc" -o "$TMP/demo" -pthread -ldl || exit 3
cd "$TMP" && timeout 120 ./demo "$TMP"
''')
    os.chmod(f'{d}/demo.sh', 0o755)
