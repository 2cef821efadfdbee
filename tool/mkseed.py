#!/usr/bin/env python3
"""Regenerate seeded/<id>/ from tool/seeds/<id>.py (keys: property, file, old, new [, edits], needs, what, demo, np, and either main
(C++ body) or script)."""
import json, os, subprocess, sys, tempfile
R = os.environ.get('EXS_REPO', '/repo')
H = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(H, '..', 'seeded')
HEAD = '''#!/bin/bash
# exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1 TMPDIR="$w"
inc="-include cassert -include cmath -include cstddef -include cstring -include limits"
build() { mpicxx -std=gnu++14 -O1 -w %s $inc -I"$repo/include" -I"$repo/src" -I"$repo/util" "$@"; }
'''
def main(ids):
    for i in ids:
        g = {}
        exec(open(os.path.join(H, 'seeds', i + '.py')).read(), g)
        d = os.path.join(OUT, i)
        os.makedirs(d, exist_ok=True)
        edits = g.get('edits') or [(g['file'], g['old'], g['new'])]
        patch = ''
        byf = {}
        for f, o, n in edits:
            byf.setdefault(f, []).append((o, n))
        for f, l in byf.items():
            s = t = open(os.path.join(R, f)).read()
            for o, n in l:
                assert t.count(o) == 1, (i, f, t.count(o), o)
                t = t.replace(o, n)
            with tempfile.TemporaryDirectory() as w:
                for x, c in (('a', s), ('b', t)):
                    p = os.path.join(w, x, f)
                    os.makedirs(os.path.dirname(p))
                    open(p, 'w').write(c)
                r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a/' + f, 'b/' + f], cwd=w, capture_output=True, text=True).stdout
            patch += r
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        s = HEAD % g.get('defs', '-DNDEBUG')
        if 'main' in g:
            open(os.path.join(d, 'demo.cc'), 'w').write(g['main'].lstrip())
            s += 'build "$d/demo.cc" %s "$repo/_build/libexseisdat.a" -o "$w/demo" || exit 99\n' % g.get('link', '')
            s += 'cd "$w"\n'
            s += g.get('script', 'timeout 60 mpirun -np %d ./demo' % g.get('np', 1)).strip() + '\n'
        else:
            s += g['script'].strip() + '\n'
        for n, b in g.get('files', {}).items():
            open(os.path.join(d, n), 'w').write(b.lstrip())
        p = os.path.join(d, 'demo.sh')
        open(p, 'w').write(s)
        os.chmod(p, 0o755)
        json.dump({'property': g['property'], 'needs': g['needs'], 'what_it_breaks': g['what']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
if __name__ == '__main__':
    main(sys.argv[1:] or sorted(x[:-3] for x in os.listdir(os.path.join(H, 'seeds')) if x.endswith('.py')))
