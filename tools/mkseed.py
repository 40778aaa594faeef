"""mkseed(id, prop, file, edits, needs, breaks, demo, libs): writes /verif/seeded/<id>/ from an edit of /repo (left unchanged)."""
import os, subprocess, json
def mkseed(id, prop, edits, needs, breaks, demo, libs=('efl',), inc=(), srcs=(), flags='-O1'):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], capture_output=True, text=True).stdout == '', 'repo dirty'
    try:
        for e in edits:
            f, old, new = e[:3]
            p = '/repo/' + f
            s = open(p).read()
            if len(e) > 3:      # replace the e[3]-th occurrence only
                parts = s.split(old)
                assert len(parts) > e[3] + 1
                s = old.join(parts[:e[3] + 1]) + new + old.join(parts[e[3] + 1:])
            else:
                assert s.count(old) == 1, (f, s.count(old))
                s = s.replace(old, new)
            open(p, 'w').write(s)
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(demo)
    cmd = 'g++ -std=c++14 -w %s -I/repo/src -I/repo/3rd/ffts/include %s "$here/demo.cpp" %s -o "$t/demo" -L/repo/_build/lib %s -Wl,-rpath,/repo/_build/lib -lpthread' % (
        flags, ' '.join(inc), ' '.join('/repo/src/' + s for s in srcs), ' '.join('-l' + l for l in libs))
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the property holds for this input; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
%s || exit 3
timeout 120 "$t/demo"
''' % cmd)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
