#!/usr/bin/env python3
"""Development helper: validate a seeded bug (seed.py ID...) or run checks against it (seed.py --check ID [PROP...])."""
import sys, os, subprocess, json, shutil, tempfile
V = '/verif'
def sh(cmd, cwd=None, t=900, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=env)
    return p.returncode, p.stdout
def main(a):
    check = '--check' in a; verb = '-v' in a
    a = [x for x in a if x not in ('--check', '-v')]
    ids = [x for x in a if os.path.isdir(f'{V}/seeded/{x}')]
    props = [x for x in a if x not in ids]
    for i in ids:
        d = f'{V}/seeded/{i}'
        m = json.load(open(d + '/meta.json'))
        w = tempfile.mkdtemp(prefix='sw_', dir='/tmp')
        r = w + '/repo'
        try:
            sh(f'cp -a /repo {r}')
            rc, o = sh(f'git apply {d}/patch.diff', r)
            if rc: print(i, 'PATCH DOES NOT APPLY', o); continue
            if check:
                for p in props or [m['property']]:
                    rc, o = sh(f'VERIF_REPO={r} python3 {V}/check.py {p}')
                    print(i, p, 'caught' if rc == 1 and f'VIOLATION property={p}' in o else 'MISSED rc=%d' % rc, '' if rc == 1 else o[-300:], flush=True)
                    if verb: print(o[:3000])
                continue
            # demo on unchanged and changed tree (demo files elsewhere)
            dd = w + '/demo'; shutil.copytree(d, dd)
            for f in os.listdir(dd):
                if f.endswith(('.diff', '.patch')) or f == 'meta.json': os.unlink(dd + '/' + f)
            rc0, o0 = sh(f'bash {dd}/demo.sh', '/repo', 300)
            rc, o = sh(f'rm -rf {r}/_build; cmake -S . -B _build -G Ninja -DCMAKE_C_STANDARD_LIBRARIES=-lm >/dev/null 2>&1 && cmake --build _build -j8', r)
            if rc: print(i, 'BUILD', o[-800:]); continue
            t = ''
            import re
            rc2, o2 = sh('cd _build && ctest 2>&1 | tail -5', r)
            rc1, o1 = sh(f'bash {dd}/demo.sh', r, 300)
            ok = rc0 == 0 and rc1 != 0 and '100% tests passed' in o2
            print(i, 'valid' if ok else 'INVALID', 'clean=%d patched=%d' % (rc0, rc1), '' if ok else o0[-500:] + o1[-500:] + o2[-300:], '|', o1.strip()[-200:] if ok else '', flush=True)
        finally:
            shutil.rmtree(w)
main(sys.argv[1:])
