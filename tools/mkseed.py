"""mkseed.py <id> <property> <file> : edits come from stdin as python: list of (old, new); writes patch.diff + meta.json"""
import json, os, subprocess, sys
REPO = os.environ.get('SEED_REPO', '/repo')
def mk(id, prop, edits, needs, breaks, demo):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(['git', '-C', REPO, 'diff', '--quiet']).returncode == 0
    try:
        for f, old, new in edits:
            p = REPO + '/include/qlmps/' + f
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', REPO, 'checkout', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cc', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# compiles the demonstration against the headers of the current directory and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -DNDEBUG -w -I"$PWD/include" -I"$d" "$d/demo.cc" -o "$t/demo" || exit 2
cd "$t" && timeout 60 ./demo
''')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
