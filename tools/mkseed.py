#!/usr/bin/env python3
"""mkseed.py ID PROP FILE <<< json{"old","new","needs","breaks","demo"}: makes seeded/ID from an edit of /repo"""
import sys, json, os, subprocess, shutil
def mk(id, prop, edits, needs, breaks, demo, files={}):
    w = '/tmp/mk-' + id
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for f, old, new in edits:
        p = w + '/' + f; s = open(p).read()
        assert s.count(old) == 1, (id, f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', w, 'diff'], text=True))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write(demo)
    for n, t in files.items(): open(d + '/' + n, 'w').write(t)
    shutil.rmtree(w)
HEAD = '''#!/bin/bash
# runs in /repo after the build
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
'''
def asm_demo(c, checks):
    """compile C text with cc1, look for lines in the assembly"""
    return HEAD + "cat > $d/a.c <<'C'\n" + c.strip() + "\nC\nsrc/cc1/cc1 -o $d/a.s $d/a.c 2>$d/err || exit 1\n" + checks
def run_demo(c, want=0):
    """compile and run a C program with ucc; it exits with 0 if all is well"""
    return HEAD + "cat > $d/a.c <<'C'\n" + c.strip() + "\nC\n./ucc -o $d/a $d/a.c >$d/err 2>&1 || { cat $d/err; exit 1; }\n$d/a\n[ $? -eq %d ]\n" % want
