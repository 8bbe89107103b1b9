#!/usr/bin/env python3
"""mkseed.py SPEC.py: make and verify planted bugs. SPEC defines seed(id, property, file, old, new, demo, needs, what)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
DEMO = '''#!/bin/bash
# exit 0 when the property holds for the demonstrated case
set -e
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -r "$tmp"' EXIT
%s
ulimit -v 8000000 || true
timeout 60 "$tmp/demo"
'''
def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)
def seed(id, prop, edits, demo, needs, what, src='', flags=''):
    if len(sys.argv) > 2 and id not in sys.argv[2:]:
        return
    t = tempfile.mkdtemp(prefix='seed_')
    try:
        r = os.path.join(t, 'r')
        run(['git', 'clone', '-q', '/repo', r], t)
        d = os.path.join(t, 'd')
        os.makedirs(d)
        open(d + '/demo.cpp', 'w').write(demo)
        shutil.copytree(V + '/harness/shim', d + '/shim')
        srcs = ' '.join(src.split())
        open(d + '/demo.sh', 'w').write(DEMO % f'g++ -std=gnu++17 -g -O1 -w -fpermissive -include cstdint -include limits {flags} -I"$here/shim" -Iinclude -Isrc -I"$here" "$here/demo.cpp" {srcs} -o "$tmp/demo"')
        os.chmod(d + '/demo.sh', 0o755)
        a = run(['bash', d + '/demo.sh'], r)
        for f, old, new in edits:
            p = os.path.join(r, f)
            x = open(p).read()
            assert x.count(old) == 1, (id, f, x.count(old), old)
            open(p, 'w').write(x.replace(old, new))
        b = run(['bash', d + '/demo.sh'], r)
        c = run(['bash', '-c', f'g++ -std=gnu++17 -w -include cstdint -include limits -Iinclude src/reflect_test.cpp -o {t}/rt && {t}/rt && gcc -c -Iinclude include/eosio/fpconv.c -o {t}/fp.o && g++ -std=gnu++17 -w -include cstdint -include limits -Iinclude tools/name.cpp -c -o {t}/n.o'], r)
        ok = a.returncode == 0 and b.returncode != 0 and c.returncode == 0
        print(id, 'OK' if ok else 'BAD', 'clean', a.returncode, 'patched', b.returncode, 'tests', c.returncode)
        if not ok:
            print(a.stdout[-500:], a.stderr[-1500:], '\n---', b.stdout[-300:], b.stderr[-500:], '\n---', c.stderr[-500:])
            return
        o = os.path.join(S, id)
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(run(['git', 'diff'], r).stdout)
        for n in ('demo.cpp', 'demo.sh'):
            shutil.copy(os.path.join(d, n), o)
        shutil.copytree(d + '/shim', o + '/shim', dirs_exist_ok=True)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(o + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(t)
exec(open(sys.argv[1]).read())
