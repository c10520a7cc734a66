#!/usr/bin/env python3
"""Helper: create seeded/<id>/ from a list of (file, old, new) edits made in a scratch copy of /repo."""
import os, sys, json, subprocess, shutil, tempfile

SEED = '/verif/seeded'
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, non-zero otherwise
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -march=x86-64-v3 -w -Iinclude -I/usr/include/hdf5/serial "$here/demo.cpp" -o "$tmp/demo" %s || exit 3
%s"$tmp/demo"
'''


def mk(bid, prop, edits, needs, breaks, demo, link='', env=''):
    d = os.path.join(SEED, bid)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='mkbug-')
    try:
        diff = ''
        byfile = {}
        for f, old, new in edits: byfile.setdefault(f, []).append((old, new))
        for f, es in byfile.items():
            src = open('/repo/' + f).read()
            out = src
            for old, new in es:
                assert out.count(old) >= 1, (bid, f, 'pattern not found', old)
                assert out.count(old) == 1, (bid, f, 'pattern not unique', out.count(old), old)
                out = out.replace(old, new)
            a = os.path.join(tmp, 'a', f); b = os.path.join(tmp, 'b', f)
            os.makedirs(os.path.dirname(a), exist_ok=True); os.makedirs(os.path.dirname(b), exist_ok=True)
            open(a, 'w').write(src); open(b, 'w').write(out)
            r = subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=tmp, stdout=subprocess.PIPE, text=True)
            diff += r.stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(d, 'demo.cpp'), 'w').write(demo)
    p = os.path.join(d, 'demo.sh')
    open(p, 'w').write(DEMO % (link, env))
    os.chmod(p, 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
