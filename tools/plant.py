#!/usr/bin/env python3
"""plant.py DEFS.py [ID...]: make /verif/seeded/<id> from definitions, each confirmed in a scratch copy.

DEFS.py defines BUGS, a list of dicts: id, property, needs, breaks, edits [(file, old, new)], pkg, test (Go source),
and optionally pre (shell lines that prepare $tmp/overlay extras) and tags."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Runs in /repo after the build: 0 if the property holds for this demonstration, else nonzero.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "${tmp:?}"' EXIT
mkdir -p "$tmp/home"
extra=""
%(pre)scat > "$tmp/overlay.json" <<EOF
{"Replace": {"$PWD/%(pkg)s/zz_planted_demo_test.go": "$here/demo_test.go.txt"$extra}}
EOF
export GOCACHE=$(go env GOCACHE) GOPATH=$(go env GOPATH) GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off
HOME="$tmp/home" TMPDIR="$tmp" go test -count=1 -vet=off -overlay "$tmp/overlay.json" -run TestPlantedDemo ./%(pkg)s >"$tmp/out" 2>&1
rc=$?
grep -v '^\s*$' "$tmp/out" | grep -aE 'demo:|FAIL|panic|ok|\.go:' | head -20
exit $rc
'''
def sh(cmd, cwd, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, errors='replace')
    return p.returncode, p.stdout + p.stderr
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    for b in ns['BUGS']:
        if want and b['id'] not in want: continue
        scratch = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
        try:
            repo = scratch + '/repo'
            subprocess.run(['cp', '-a', '/repo', repo], check=True)
            out = os.path.join(V, 'seeded', b['id'])
            shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
            for name, text in (b.get('files') or {'demo_test.go.txt': b['test']}).items():
                open(out + '/' + name, 'w').write(text.lstrip())
            open(out + '/demo.sh', 'w').write(b.get('demo') or DEMO % {'pkg': b['pkg'], 'pre': b.get('pre', '')})
            os.chmod(out + '/demo.sh', 0o755)
            rc0, o0 = sh(out + '/demo.sh', repo)
            for f, old, new in b['edits']:
                s = open(f'{repo}/{f}').read()
                assert s.count(old) == 1, (b['id'], f, s.count(old), old)
                open(f'{repo}/{f}', 'w').write(s.replace(old, new))
            rcf, of = sh('gofmt -l pkg cmd', repo)
            rcb, ob = sh('go build ./... && go vet ./pkg/... >/dev/null 2>&1; go build ./... && GOOS=js GOARCH=wasm go build -o /dev/null ./cmd/wasm', repo)
            rct, ot = sh('go test ./...', repo)
            rc1, o1 = sh(out + '/demo.sh', repo)
            d = subprocess.run(['git', 'diff'], cwd=repo, capture_output=True, text=True).stdout
            open(out + '/patch.diff', 'w').write(d)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            # A removed line must be one of the original repository's.
            orig = False
            for f in {e[0] for e in b['edits']}:
                base = subprocess.run(['git', 'show', '98eeb83:' + f], cwd=repo, capture_output=True, text=True).stdout.splitlines()
                for l in d.splitlines():
                    if l.startswith('-') and not l.startswith('---') and l[1:].strip() not in ('', '}', 'return nil') and l[1:] in base: orig = True
            ok = rc0 == 0 and rcb == 0 and rct == 0 and rc1 != 0 and orig and not of.strip()
            print(b['id'], 'OK' if ok else 'BAD', f'demo clean={rc0} patched={rc1} build={rcb} tests={rct} orig={orig} fmt={of.strip()}')
            if not ok:
                print('--- clean', o0[-1500:]); print('--- build', ob[-800:]); print('--- tests', ot[-1500:] if rct else ''); print('--- patched', o1[-800:])
            elif '-v' in os.environ.get('PLANT', ''): print(o1[-600:])
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
main()
