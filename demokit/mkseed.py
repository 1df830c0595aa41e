#!/usr/bin/env python3
"""mkseed.py [id...] : writes /verif/seeded/<id>/ from the specifications in seeds/*.py (development tool)."""
import os, sys, json, shutil, subprocess, glob, tempfile
H = os.path.dirname(os.path.abspath(__file__)); OUT = os.path.join(os.path.dirname(H), 'seeded')
SEEDS = {}
def S(id, prop, edits, needs, breaks, demo, kind='omp', cpp=None, switches='', defs=''):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, kind=kind, cpp=cpp, switches=switches, defs=defs)
DEMO_SH = '''#!/bin/bash
# exit 0 when the property holds for the demonstrated history, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$W"' EXIT
%sfor k in %s; do
  bash "$here/kit/build.sh" "$W/b" $k "$here/%s" %s || exit 3
  PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/kit" python3 "$here/demo.py" "$W" $k || exit 1
done
exit 0
'''
def make(id, s):
    d = os.path.join(OUT, id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(); 
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'list'], stdout=subprocess.DEVNULL)
        subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x' % (w, w), shell=True, check=True)
        blame = {}
        for e in s['edits']:
            f, old, new = e[:3]; n = e[3] if len(e) > 3 else 1; p = os.path.join(w, f); t = open(p).read()
            if t.count(old) != n: raise SystemExit('%s: %d occurrences in %s of %r' % (id, t.count(old), f, old[:60]))
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', w, 'diff'], stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally: shutil.rmtree(w, ignore_errors=True)
    # changed lines must be lines of the original repository
    cur = None; ln = 0
    for l in diff.splitlines():
        if l.startswith('--- a/'): cur = l[6:]
        elif l.startswith('@@'): ln = int(l.split()[1].split(',')[0][1:])
        elif l.startswith('-') and not l.startswith('---'):
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L%d,%d' % (ln, ln), cur], stdout=subprocess.PIPE, text=True).stdout
            if not b.startswith('^'): print('  note: %s:%d is not an original line: %s' % (cur, ln, l))
            ln += 1
        elif not l.startswith('+') and cur: ln += 1
    shutil.copytree(H, os.path.join(d, 'kit'), ignore=shutil.ignore_patterns('__pycache__', 'mkseed.py', 'seeds', 'tool', 'try.sh'))
    cpp = 'kit/check.cpp'
    if s['cpp']: open(os.path.join(d, 'demo.cpp'), 'w').write(s['cpp']); cpp = 'demo.cpp'
    open(os.path.join(d, 'demo.py'), 'w').write('import sys, os, json\nfrom conf import *\nW, KIND = sys.argv[1:3]\n' + s['demo'].strip() + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH % ('export KIT_SWITCHES="%s"\n' % s['switches'] if s['switches'] else '', s['kind'], cpp, s['defs'])); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
def main():
    for f in sorted(glob.glob(os.path.join(H, 'seeds', '*.py'))): exec(compile(open(f).read(), f, 'exec'), globals())
    for i in (sys.argv[1:] or sorted(SEEDS)): make(i, SEEDS[i]); print(i)
if __name__ == '__main__': main()
