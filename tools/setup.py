#!/usr/bin/env python3
"""setup_cmd: build the harnesses and programs from /repo's tree, parse every TLA+ module"""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import vt
print('built in', vt.build())
bad = 0
for m in sorted(glob.glob(V + '/spec/MC*.tla') + glob.glob(V + '/spec/Trace*.tla')):
    r = subprocess.run(['java', '-cp', vt.JAR, '-Dfile.encoding=UTF-8', 'tla2sany.SANY', os.path.basename(m)], cwd=V + '/spec', capture_output=True, text=True)
    if r.returncode or '*** Errors' in r.stdout:
        print('parse error in', m, r.stdout[-1500:]); bad = 1
sys.exit(bad)
