#!/usr/bin/env python3
"""Makes a planted bug from a specification: seed.py SPEC.py...

A specification sets: property, needs, breaks, kind ('vm', 'go' or 'govm'), edits [(file, old, new)...], demo (Go source
of the body of demo_test.go, imports included). The bug is tried in a scratch copy of /repo first: it must compile, keep the
stable tests passing, touch only lines of the original repository, and the demonstration must pass without it and fail with it.
"""
import json, os, re, shutil, subprocess, sys
V = '/verif'
KIT = V + '/tools/seedkit'
WT = '/tmp/seedwt'
BASE = '07dbd0a'

def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def make(path):
    spec = {}
    exec(open(path).read(), spec)
    name = os.path.basename(path)[:-3]
    kind = spec.get('kind', 'vm')
    if not os.path.isdir(WT):
        sh(f'cp -a /repo {WT}')
    sh('git checkout -q -- . && git clean -fdq zzverif; git fetch -q /repo HEAD && git checkout -q FETCH_HEAD', WT)
    for f, old, new in spec['edits']:
        s = open(f'{WT}/{f}').read()
        if s.count(old) != 1:
            return f'{name}: {f}: old text occurs {s.count(old)} times'
        # the lines changed must come from the original repository
        open(f'{WT}/{f}', 'w').write(s.replace(old, new))
    diff = sh('git diff', WT).stdout
    warn = ''
    for f in {e[0] for e in spec['edits']}:
        blame = sh(f'git blame -s HEAD -- {f}', WT).stdout.splitlines()
        d = sh(f'git diff -U0 -- {f}', WT).stdout
        for h in re.finditer(r'^@@ -(\d+)(?:,(\d+))?', d, re.M):
            a, n = int(h.group(1)), int(h.group(2) or 1)
            for l in blame[a-1:a-1+n]:
                if not l.startswith('^') and sh(f'git merge-base --is-ancestor {l.split()[0]} {BASE}', WT).returncode:
                    warn += f'\n  not original: {l[:90]}'
    out = f'{V}/seeded/{name}'
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    if kind in ('vm', 'govm'):
        shutil.copy(V + '/wasmlib/wasmvm.c', out); shutil.copy(V + '/wasmlib/opcosts.h', out)
    if kind == 'vm':
        os.makedirs(out + '/pup'); os.makedirs(out + '/puppet')
        shutil.copy(V + '/puppet/puppet.wasm', out + '/puppet/')
        for f in ('world', 'tokens', 'host', 'script', 'table'):
            shutil.copy(f'{V}/harness/pup/{f}.go', out + '/pup/')
        shutil.copy(KIT + '/sorted.go', out + '/pup/'); shutil.copy(KIT + '/kit_test.go', out)
    shutil.copy(KIT + ('/demo_vm.sh' if kind == 'vm' else '/demo_go.sh'), out + '/demo.sh')
    os.chmod(out + '/demo.sh', 0o755)
    demo = spec['demo'].strip() + '\n'
    if not demo.startswith('//go:build'):
        demo = '//go:build go1.21\n\n' + demo
    open(out + '/demo_test.go', 'w').write(demo)
    open(out + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=spec['property'], needs=spec['needs'], what_it_breaks=spec['breaks']), open(out + '/meta.json', 'w'), indent=1)
    g = sh(f'gofmt -l {out}', WT).stdout
    # build and stable tests with the change
    files = {e[0] for e in spec['edits']}
    pk = ' '.join('./' + os.path.dirname(f) for f in files)
    env = dict(os.environ, CGO_LDFLAGS=f'-L{V}/build/lib -L/nonexistent/seed')
    b = sh(f'go vet {pk} 2>&1 | grep -v "^#" | grep -c "undefined\\|declared\\|cannot use\\|syntax\\|imported and not" ; go build -o /dev/null {pk}', WT, env=env)
    t = sh('go test -count=1 ./crypto/... ./fuzz/util ./ipc/marshaling ./mandos-go/... ./math/... 2>&1 | grep -v "^ok\\|no test files"', WT)
    bad = sh(f'bash {out}/demo.sh', WT)
    sh('git checkout -q -- .', WT)
    good = sh(f'bash {out}/demo.sh', WT)
    verdict = []
    if b.stdout.strip() not in ('0', ''): verdict.append('build: ' + b.stdout[-300:])
    if t.stdout.strip(): verdict.append('stable tests: ' + t.stdout[-400:])
    if good.returncode: verdict.append('demo fails on the unchanged tree: ' + good.stdout[-600:])
    if bad.returncode == 0: verdict.append('demo passes with the change')
    if 'build failed' in bad.stdout or 'panic:' in bad.stdout: verdict.append('look: ' + bad.stdout[-300:])
    if g: verdict.append('gofmt ' + g)
    shown = [l.strip() for l in bad.stdout.splitlines() if '.go:' in l][:1]
    return f'{name}: ' + ('; '.join(verdict) if verdict else 'good ' + str(shown)) + warn

for p in sys.argv[1:]:
    print(make(p), flush=True)
