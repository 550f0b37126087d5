#!/usr/bin/env python3
"""mkseed.mk(id, property, edits, demo, needs, breaks): write /verif/seeded/<id> from string edits against /repo HEAD."""
import os, subprocess, json, shutil, tempfile
DEMO = '''#!/bin/bash
# exit 0: behaviour as specified; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -DNDEBUG -g -O1 -w -fsanitize=address,undefined -fno-sanitize=nonnull-attribute -fno-sanitize-recover=undefined -DHAVE_CONFIG_H \\
  -I"$R/_build/src" -I"$R/_build" -I"$R/src" %(inc)s -o "$T/demo" "$here/demo.cpp" %(src)s %(lib)s || exit 98
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
'''
def mk(id, prop, edits, demo, needs, breaks, src=('String', 'ReferenceCountedArray'), inc='', lib='', demosh=None):
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'])
    try:
        for f, old, new in edits:
            p = f'{w}/r/src/{f}'
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
        shutil.rmtree(w)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(demosh or DEMO % dict(src=' '.join(f'"$R/src/{x}.cpp"' for x in src), inc=inc, lib=lib))
    if demo:
        open(d + '/demo.cpp', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
