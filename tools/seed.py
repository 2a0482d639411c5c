#!/usr/bin/env python3
"""Makes and confirms planted bugs: python3 tools/seed.py make <id>|all ; confirm <id>|all ; check <id>|all
A bug is described in tools/bugs.py: id -> dict(property, edits, needs, breaks, main)."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
DEMO = '''#!/usr/bin/env python3
# builds main.rs against the yaserde in the current directory and runs it
import os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    os.mkdir(d + '/src')
    shutil.copy(here + '/main.rs', d + '/src/main.rs')
    open(d + '/Cargo.toml', 'w').write("""[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
yaserde = { path = "%s/yaserde", features = ["derive"] }
yaserde_derive = { path = "%s/yaserde_derive" }
xml-rs = "0.8"
log = "0.4"
[workspace]
[profile.dev]
debug = 0
""" % (repo, repo))
    try:
        p = subprocess.run(['cargo', 'run', '--offline', '-q'], cwd=d, timeout=200)
    except subprocess.TimeoutExpired:
        sys.exit(3)
    sys.exit(1 if p.returncode else 0)
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def make(i, b):
    d = '%s/seeded/%s' % (V, i)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as tmp:
        r = tmp + '/r'
        sh('git clone -q /repo %s' % r, '/')
        for f, old, new in b['edits']:
            p = r + '/' + f
            s = open(p).read()
            assert s.count(old) == 1, (i, f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', r).stdout.decode()
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/main.rs', 'w').write(b['main'])
    open(d + '/demo.py', 'w').write(DEMO)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
def confirm(i):
    d = '%s/seeded/%s' % (V, i)
    a = sh('bash %s/demo.sh' % d, '/repo', timeout=300)
    with tempfile.TemporaryDirectory() as tmp:
        r = tmp + '/r'
        sh('mkdir %s && cd /repo && tar cf - --exclude=./target . | tar xf - -C %s' % (r, r), '/')
        ap = sh('git apply %s/patch.diff' % d, r)
        sh('find . -name "*.rs" | xargs touch', r)
        t = sh('CARGO_TARGET_DIR=/tmp/seedtarget cargo test --offline --workspace 2>&1 | tail -40; exit ${PIPESTATUS[0]}', r, executable='/bin/bash')
        b = sh('bash %s/demo.sh' % d, r, timeout=300)
    ok = a.returncode == 0 and ap.returncode == 0 and t.returncode == 0 and b.returncode != 0
    print(i, 'OK' if ok else 'BAD', 'demo clean', a.returncode, 'apply', ap.returncode, 'tests', t.returncode, 'demo patched', b.returncode, flush=True)
    if not ok:
        print((a if a.returncode else ap if ap.returncode else t if t.returncode else b).stdout.decode()[-1800:])
    return ok
def check(i, props=None):
    d = '%s/seeded/%s' % (V, i)
    m = json.load(open(d + '/meta.json'))
    assert sh('git apply %s/patch.diff' % d, '/repo').returncode == 0, i
    try:
        for p in props or [m['property']]:
            o = sh('python3-vt vcg/check.py %s quick' % p, V)
            out = o.stdout.decode().splitlines()
            print(i, p, 'exit', o.returncode, (out[-1] if out else '')[:200], flush=True)
            for l in out[:-1][:4]:
                print('     ', l[:330], flush=True)
    finally:
        sh('git checkout -- .', '/repo')
if __name__ == '__main__':
    from bugs import BUGS
    what = sys.argv[1]
    ids = [i for i in BUGS if what == 'make' or os.path.isdir('%s/seeded/%s' % (V, i))] if sys.argv[2] == 'all' else sys.argv[2].split(',')
    for i in ids:
        if what == 'make': make(i, BUGS[i])
        elif what == 'confirm': confirm(i)
        elif what == 'check': check(i, sys.argv[3].split(',') if len(sys.argv) > 3 else None)
        elif what == 'all':
            make(i, BUGS[i]); confirm(i) and check(i)
