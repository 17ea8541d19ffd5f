"""mkseed.py: write seeded/<id> from a replacement in one file of /repo; demo source on stdin"""
import sys, json, subprocess, os
def mk(id, prop, file, reps, needs, breaks, demo):
    D = '/verif/seeded/' + id; os.makedirs(D, exist_ok=True)
    files = reps if isinstance(reps, dict) else {file: reps}
    for f, rs in files.items():
        p = '/repo/include/boost/url/' + f; s = open(p).read()
        for a, b in rs:
            assert s.count(a) == 1, (id, f, s.count(a), a)
            s = s.replace(a, b)
        open(p, 'w').write(s)
    d = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(D + '/patch.diff', 'w').write(d)
    open(D + '/demo.cpp', 'w').write(demo)
    open(D + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the library behaves, non-zero otherwise
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -DBOOST_URL_HEADER_ONLY -I include -o "$t/demo" "$here/demo.cpp" || exit 3
timeout 60 "$t/demo"
''')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(D + '/meta.json', 'w'), indent=1)
