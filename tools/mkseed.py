"""Development helper: create /verif/seeded/<id>/ from a description of an edit."""
import os, subprocess, json, shutil, tempfile
V = '/verif'; L = V + '/tools/seedlib'
def seed(id, prop, edits, needs, breaks, demo, files=()):
    w = tempfile.mkdtemp(prefix='mk_', dir='/tmp')
    subprocess.run(f'git -C /repo archive HEAD | tar -x -C {w} && cd {w} && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x', shell=True, check=True)
    for f, old, new, *nth in edits:
        p = w + '/' + f
        s = open(p, newline='').read()
        if '\r\n' in s: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert s.count(old) == 1 or nth and s.count(old) > nth[0], (id, f, s.count(old))
        parts = s.split(old); k = nth[0] if nth else 0
        open(p, 'w', newline='').write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
    # only lines of the original repository are changed
    for f in {e[0] for e in edits}:
        base = set(subprocess.run(['git', '-C', '/repo', 'show', 'd399b69:' + f], stdout=subprocess.PIPE, text=True).stdout.split('\n'))
        d1 = subprocess.run(['git', 'diff', '-U0', f], cwd=w, stdout=subprocess.PIPE, text=True).stdout
        mi = [l[1:] for l in d1.split('\n') if l.startswith('-') and not l.startswith('---')]
        for l in mi:
            if l.strip() and l not in base and l.rstrip('\r') not in {b.rstrip('\r') for b in base}: print(id, 'NOT AN ORIGINAL LINE:', l)
        if not mi: print(id, f, 'adds lines only')
    diff = subprocess.run(['git', 'diff'], cwd=w, stdout=subprocess.PIPE).stdout
    shutil.rmtree(w)
    d = f'{V}/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n' + demo.strip() + '\n')
    for f in files: shutil.copy(L + '/' + f, d)
CD = ('drv.c', 'cdc.sh')
def cdemo(codec, *lines):
    return '. "$(dirname "$0")/cdc.sh"\n' .replace('cdc.sh"', 'cdc.sh" ' + codec) + '\n'.join(lines)
