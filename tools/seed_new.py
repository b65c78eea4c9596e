#!/usr/bin/env python3
"""Make /verif/seeded/ID from a spec: seed_new.py SPEC.json
SPEC: {id, property, needs, what_it_breaks, pkg (dir of the module-relative package, e.g. common/pkg/x),
       edits: [[file, old, new]...], demo: FILE (test source), extra: [files]}"""
import sys, json, os, subprocess, shutil, tempfile
spec = json.load(open(sys.argv[1]), strict=False)
d = '/verif/seeded/' + spec['id']
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix='seed')
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '--detach', '-q', w + '/r', 'HEAD'])
try:
    for f, old, new in spec['edits']:
        p = w + '/r/' + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
    open(d + '/patch.diff', 'wb').write(diff)
finally:
    subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
    shutil.rmtree(w)
json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['what_it_breaks']}, open(d + '/meta.json', 'w'), indent=1)
shutil.copy(spec['demo'], d + '/demo_test.go')
files = [('zz_demo_test.go', 'demo_test.go')]
for e in spec.get('extra', []):
    shutil.copy(e, d + '/' + os.path.basename(e))
    files.append(('zz_' + os.path.basename(e), os.path.basename(e)))
mod, pkg = spec['pkg'].split('/', 1)
over = ','.join('\\"$PWD/%s/%s\\":\\"$here/%s\\"' % (spec['pkg'], a, b) for a, b in files)
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# runs with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{%s}}" > "$t/o.json"
export DEMO_DIR="$t"
cd %s && timeout 240 go test -vet=off -overlay "$t/o.json" -count=1 -timeout 200s -run '^TestSeededDemo$' ./%s
''' % (over, mod, pkg))
os.chmod(d + '/demo.sh', 0o755)
print('made', d)
