#!/usr/bin/env python3
"""mkseed.py NAME PROPERTY FILE 'needs' 'what it breaks' < patch spec (old / new blocks separated by lines '====' and '----'), demo.rs given as path in $DEMO.
Edits a scratch copy of /repo's HEAD and stores the diff under /verif/seeded/NAME."""
import sys, subprocess, os, json, shutil, tempfile
name, prop, needs, breaks = sys.argv[1:5]
spec = sys.stdin.read()
d = f'/verif/seeded/{name}'; os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix='mkseed')
subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', t + '/r', 'HEAD'], check=True)
try:
    for part in spec.strip('\n').split('\n====\n'):
        file, old, new = part.split('\n----\n')
        p = f'{t}/r/{file.strip()}'; s = open(p).read()
        assert s.count(old) == 1, (file, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', t + '/r', 'diff'], capture_output=True, text=True, check=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
finally:
    subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/r']); shutil.rmtree(t)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.sh', 'w').write(open('/verif/tools/demo_template.sh').read()); os.chmod(d + '/demo.sh', 0o755)
if os.environ.get('DEMO'): shutil.copy(os.environ['DEMO'], d + '/demo.rs')
print(name, len(diff))
