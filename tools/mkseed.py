#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE: stores a planted bug.  Reads from FILE a python literal
dict(needs, breaks, edits=[(path, old, new)...], demo=python text | None, files={name: text})."""
import json, os, shutil, subprocess, sys, tempfile
ident, prop, path = sys.argv[1:]
d = eval(open(path).read())
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(os.path.dirname(here), 'seeded', ident)
os.makedirs(out, exist_ok=True)
w = tempfile.mkdtemp(prefix='mkseed-')
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/t', 'HEAD'])
try:
    for f, old, new in d['edits']:
        t = open(w + '/t/' + f).read()
        if t.count(old) != 1:
            sys.exit('%s: %d matches of %r' % (f, t.count(old), old[:60]))
        i = t[:t.index(old)].count('\n') + 1
        open(w + '/t/' + f, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w + '/t', 'diff'], text=True)
    open(out + '/patch.diff', 'w').write(diff)
    # every removed line has to come from the original commit
    cur = None
    for l in diff.split('\n'):
        if l.startswith('--- a/'):
            cur = l[6:]
        elif l.startswith('@@'):
            n = int(l.split()[1].split(',')[0][1:]) - 1
        elif cur and l[:1] in (' ', '-') and not l.startswith('---'):
            n += 1
            if l[0] == '-':
                b = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '-L%d,%d' % (n, n), cur], text=True)
                print('   ', 'ORIG' if b.startswith('^2318a1b') else 'MINE', l[:100])
finally:
    subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/t'])
    shutil.rmtree(w, ignore_errors=True)
json.dump({'property': prop, 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out + '/meta.json', 'w'), indent=1)
if d.get('demo') is not None:
    shutil.copy(here + '/demo/wsdemo.py', out)
    open(out + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom wsdemo import *\n\n' + d['demo'].lstrip('\n'))
    open(out + '/demo.sh', 'w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
for n, t in d.get('files', {}).items():
    open(out + '/' + n, 'w').write(t.lstrip('\n'))
