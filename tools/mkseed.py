#!/usr/bin/env python3
"""mkseed.py ID: turns the uncommitted changes in /repo into seeded/ID/patch.diff, reads the
demonstration program from stdin (after 'property', 'needs' and 'what' lines) and reverts /repo."""
import json
import os
import subprocess
import sys

sid = sys.argv[1]
root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded', sid)
prop, needs, what, src = sys.stdin.read().split('\n', 3)
diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
assert diff, 'no change'
os.makedirs(root, exist_ok=True)
open(root + '/patch.diff', 'w').write(diff)
open(root + '/demo.cc', 'w').write('#include <algorithm>\n#include <cassert>\n#include <cmath>\n#include <cstdlib>\n#include <functional>\n#include <limits>\n' + src)
open(root + '/demo.sh', 'w').write('''#!/bin/bash
# run in the root of the repository; exits 0 if the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
g++ -std=c++17 -O1 -I. -w -fmax-errors=3 -o "$tmp/demo" "$here/demo.cc" || { rm -r "$tmp"; exit 2; }
cd "$tmp" && timeout 100 ./demo
code=$?
cd /
rm -r "$tmp"
exit $code
''')
os.chmod(root + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(root + '/meta.json', 'w'), indent=1)
r = subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True)
d1 = subprocess.run(['bash', root + '/demo.sh'], cwd='/repo').returncode
r2 = subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/out.json'], capture_output=True, text=True)
tests = open('/tmp/out.json').read()
subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
d0 = subprocess.run(['bash', root + '/demo.sh'], cwd='/repo').returncode
print(sid, 'build', r.returncode, 'demo patched', d1, 'demo unchanged', d0, 'tests', tests[-70:])
