#!/usr/bin/env python3
"""REPO=copy mkseed.py ID PROP PKG 'needs' 'breaks' TESTFILE : makes seeded/ID from the uncommitted change in the copy of /repo, and undoes that change."""
import sys, subprocess, os, json, shutil
id, prop, pkg, needs, breaks, test = sys.argv[1:7]
repo = os.environ.get('REPO', '/repo')
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = f'{v}/seeded/{id}'; os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(['git', '-C', repo, 'diff'], text=True)
assert diff.strip()
open(d + '/patch.diff', 'w').write(diff)
subprocess.check_call(['git', '-C', repo, 'checkout', '--', '.'])
shutil.copy(test, d + '/demo_test.go')
tgt = ('/repo/' + pkg).rstrip('/.').rstrip('/') + '/zz_demo_test.go'
open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{{\\"Replace\\": {{\\"{tgt}\\": \\"$d/demo_test.go\\"}}}}" > "$t/overlay.json"
cd /repo || exit 2
DEMO_DIR="$t/work" go test -vet=off -count=1 -timeout 200s -overlay "$t/overlay.json" -run '^TestDemo$' ./{pkg}
''')
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
