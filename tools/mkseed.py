#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE OLD NEW NEEDS WHAT [--extra f OLD NEW]: writes patch.diff and meta.json (demo.sh is written by hand)."""
import sys, os, json, subprocess, tempfile, shutil
def make(id, prop, edits, needs, what, demo):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mk-')
    subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
    for f, old, new in edits:
        p = w + '/r/' + f; s = open(p).read()
        assert s.count(old) == 1, (id, f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w + '/r', 'diff']).decode()
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write(demo)
    os.chmod(d + '/demo.sh', 0o755)
    shutil.rmtree(w)
def cdemo(body, n=0):
    """Demo that compiles a C program with ./wcc and expects exit code 0 from it."""
    return '''#!/bin/bash
w=$(mktemp -d) || exit 1
trap 'rm -rf "$w"' EXIT
cat > "$w/t.c" <<'X'
%s
X
./wcc -o "$w/t" "$w/t.c" || exit 1
timeout 20 "$w/t"
''' % body.strip()
