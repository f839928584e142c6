#!/usr/bin/env python3
"""Verify planted bugs: seed.py [ids...].  For each /verif/seeded/<id>: the patch
applies to /repo's HEAD, builds, the stable tests pass, the demo exits 0 without
and nonzero with it.  Everything happens in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
S = '/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    ids = sys.argv[1:] or sorted(os.listdir(S))
    top = tempfile.mkdtemp(prefix='seed'); d = top + '/repo'
    try:
        sh(f'git clone -q /repo {d}')
        for f in ('build.sh', 'test.sh'):
            open(f'{top}/{f}', 'w').write(open('/opt/vp/' + f).read().replace('/opt/vp/build.sh', f'{top}/build.sh').replace('/repo', d))
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        for i in ids:
            sh(f'git -C {d} checkout -q -- .')
            r = sh(f'bash {top}/build.sh'); assert r.returncode == 0, r.stdout[-1000:]
            demo = f'{top}/demo'; shutil.rmtree(demo, ignore_errors=True); shutil.copytree(f'{S}/{i}', demo)
            for x in ('patch.diff', 'meta.json'): os.remove(f'{demo}/{x}')
            a = sh(f'timeout 300 bash {demo}/demo.sh', cwd=d)
            p = sh(f'git -C {d} apply {S}/{i}/patch.diff')
            if p.returncode: print(i, 'PATCH DOES NOT APPLY', p.stdout); continue
            r = sh(f'bash {top}/test.sh {top}/o.json')
            miss = base - set(json.load(open(f'{top}/o.json'))['passed'])
            b = sh(f'timeout 300 bash {demo}/demo.sh', cwd=d)
            ok = a.returncode == 0 and b.returncode != 0 and not miss
            print(i, 'OK' if ok else 'BAD', f'clean={a.returncode} patched={b.returncode} missing={len(miss)}', flush=True)
            if not ok: print(a.stdout[-1500:], '-----', b.stdout[-1500:])
    finally:
        shutil.rmtree(top, ignore_errors=True)
main()
