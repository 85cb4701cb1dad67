"""Planted bugs, confirmed in a scratch copy of /repo (never in /repo itself).
  seed.py new ID PROP NEEDS WHAT   the scratch copy's uncommitted edits become /verif/seeded/ID (demo.cpp or demo.sh must be there)
  seed.py confirm ID...            re-applies each patch, builds, runs the stable tests and the demo
  seed.py check ID...              runs the property's quick check against the scratch copy with the patch"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seed/repo'
DEMO = '''#!/bin/bash
# builds demo.cpp against the libraries in the current directory and runs it: 0 = the guarantee holds
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
inc=""; libs=""
for l in utils kana kanji quiz stats; do inc="$inc -Ilibs/$l/include"; libs="$libs _build/libs/$l/src/libkanjiTools_$l.a"; done
g++-13 -std=c++20 -include cstdint -Dishexnumber=isxdigit $inc "$d/demo.cpp" -Wl,--start-group $libs -Wl,--end-group -o "$t/demo" || exit 3
export REPO_DATA="$PWD/data"
cd "$t" && timeout 120 ./demo
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def git(*a): return sh('git', '-C', S, *a)
def sync():
    if not os.path.exists(S):
        os.makedirs('/tmp/seed', exist_ok=True); subprocess.check_call(['cp', '-a', '/repo', S])
    elif git('rev-parse', 'HEAD').stdout != sh('git', '-C', '/repo', 'rev-parse', 'HEAD').stdout:
        git('stash'); git('fetch', '-q', '/repo', 'HEAD'); git('reset', '--hard', 'FETCH_HEAD'); git('stash', 'pop')
def build():
    a = open('/opt/vp/build.sh').read().replace('/repo', S)
    b = sh('bash', '-c', a)
    return b.returncode, (b.stdout + b.stderr)[-3000:]
def tests():
    os.makedirs('/tmp/seed/vp', exist_ok=True)
    a = open('/opt/vp/test.sh').read().replace('/repo', S).replace('/opt/vp/build.sh', '/tmp/seed/vp/build.sh')
    open('/tmp/seed/vp/build.sh', 'w').write(open('/opt/vp/build.sh').read().replace('/repo', S))
    open('/tmp/seed/vp/test.sh', 'w').write(a)
    sh('bash', '/tmp/seed/vp/test.sh', '/tmp/seed/out.json')
    o = json.load(open('/tmp/seed/out.json')); st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(st - set(o['passed']))
def demo(i):
    try: return sh('bash', f'{V}/seeded/{i}/demo.sh', cwd=S, timeout=300)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess([], 124, 'timeout', '')
def confirm(i):
    git('checkout', '--', '.')
    rc, o = build()
    if rc: return 'clean build failed ' + o
    d = demo(i)
    if d.returncode: return f'demo fails on clean tree rc {d.returncode}: {d.stdout[-800:]}{d.stderr[-1500:]}'
    p = f'{V}/seeded/{i}/patch.diff'
    a = git('apply', p)
    if a.returncode: return 'patch: ' + a.stderr
    try:
        rc, o = build()
        if rc: return 'patched build failed ' + o
        f = tests()
        if f: return f'tests fail: {f[:5]}'
        d = demo(i)
        if d.returncode == 0: return 'demo passes with the patch'
        if d.returncode == 3: return 'demo does not compile'
        print('   demo:', (d.stdout + d.stderr).strip()[-200:].replace('\n', ' | '), 'rc', d.returncode)
    finally:
        git('apply', '-R', p)
    return ''
def main():
    sync()
    cmd = sys.argv[1]
    if cmd == 'new':
        i, prop, needs, what = sys.argv[2:6]
        d = f'{V}/seeded/{i}'; os.makedirs(d, exist_ok=True)
        diff = git('diff').stdout
        if not diff.strip(): sys.exit('no change in the scratch copy')
        open(d + '/patch.diff', 'w').write(diff)
        if not os.path.exists(d + '/demo.sh'): open(d + '/demo.sh', 'w').write(DEMO)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
        git('checkout', '--', '.')
        r = confirm(i); print(i, r or 'ok')
        if r: os.makedirs('/tmp/seed/bad', exist_ok=True); shutil.rmtree(f'/tmp/seed/bad/{i}', ignore_errors=True); shutil.move(d, f'/tmp/seed/bad/{i}'); sys.exit(1)
    elif cmd == 'confirm':
        for i in sys.argv[2:] or sorted(os.listdir(V + '/seeded')): print(i, confirm(i) or 'ok', flush=True)
    elif cmd == 'check':
        for i in sys.argv[2:] or sorted(os.listdir(V + '/seeded')):
            git('checkout', '--', '.')
            m = json.load(open(f'{V}/seeded/{i}/meta.json'))
            a = git('apply', f'{V}/seeded/{i}/patch.diff')
            if a.returncode: print(i, 'patch does not apply'); continue
            r = sh('python3', 'check.py', m['property'], 'quick', cwd=V, env=dict(os.environ, KT_REPO=S))
            git('checkout', '--', '.')
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            print(i, m['property'], 'rc', r.returncode, v[0] if v else 'NOT CAUGHT ' + r.stdout[-300:], flush=True)
main()
