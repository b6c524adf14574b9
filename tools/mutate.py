#!/usr/bin/env python3
"""Development helper: simple mutants of the repository's sources that build and pass the tests, run against the checks.
mutate.py N LOG [FILE...]: N mutants per file (deterministic choice; offset by MUT_SALT)."""
import sys, os, re, subprocess, hashlib, shutil, json, time
V = os.environ.get('MUT_VERIF', '/verif'); B = os.environ.get('MUT_REPO', '/repo'); W = os.environ.get('MUT_DIR', '/tmp/mut/w')
SIM = 'C14 C25 C15 C22 C27 C21 C13 C16 C17 C20 C12 C26'.split()
COD = {'dtrm/dtrm0.c': 'C11 C01 C04 C09 C10 C26 C08 C23 C24 C13 C12', 'dtrm/dtrm1.c': 'C11 C01 C05 C09 C10 C26 C24 C13 C12', 'rm1_ml/rm1_ml.c': 'C05 C09 C26 C10 C11',
  'dtrm_glp/dtrm_glp_main.c': 'C11 C10 C01 C06 C09 C13 C26 C24 C12 C08', 'dtrm_glp/dtrm_glp_inner.c': 'C06 C09 C08 C10 C11 C23 C24',
  'polar_scl/ca_polar_scl_main.c': 'C11 C10 C02 C07 C09 C13 C26 C24 C12 C08', 'polar_scl/polar_scl_inner.c': 'C07 C09 C08 C10 C11 C23 C24',
  'common/crc.c': 'C03 C02 C07', 'common/srm_utils.c': 'C01 C02 C11 C26 C10 C24', 'common/spf_par.c': 'C12 C13 C22 C24 C26 C16 C17', 'common/spf_par.h': 'C13 C12 C11 C16 C22 C24', 'common/ui_txt.c': 'C25 C13 C12',
  'formats/formats.h': 'C04 C05 C06 C07 C09 C08 C23', 'formats/format_eps5.h': 'C04 C05 C06 C07 C09 C08', 'formats/format_rho1.h': 'C23', 'formats/format_rho5.h': 'C23',
  'Octave/loadsrf.c': 'C22', 'Octave/ui_octave_txt.c': 'C22', 'simulators/main_txt.c': 'C25 C20 C24'}
COD = {k: v.split() for k, v in COD.items()}; COD['simulators/sim_bg.c'] = SIM
SW = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<>=!-])<(?![<=])', '<='), (r'(?<![<>=!-])>(?![>=])', '>='), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
      (r'(?<![+])\+(?![+=])', '-'), (r'(?<![-\w(])\s-\s', ' + '), (r'\+=', '-='), (r'-=', '+='), (r'\+\+', '--'), (r'(?<!\w)\*(?=\s)', '/'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b2\b', '3'), (r'\b1\b', '2'),
      (r'\^=', '|='), (r'<<', '>>'), (r' / ', ' * '), (r'0\.5', '0.51'), (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r'\bMAX\(', 'MIN('), (r'\bMIN\(', 'MAX(')]
def sh(c, cwd=None, t=900, env=None):
    try: p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t, env=env)
    except subprocess.TimeoutExpired: return 124, 'timeout'
    return p.returncode, p.stdout
def mutants(path):
    L = open(B + '/' + path).read().split('\n'); out = []; skip = 0; blk = False
    for i, l in enumerate(L):
        if re.match(r'\s*#\s*if(def)?\b.*\b(DBG|WIN32|FORMAT_Q|FORMAT_EPS4_H|COUNT|RETURN_PEAK)', l): skip = 1
        elif skip and re.match(r'\s*#\s*if', l): skip += 1
        elif skip and re.match(r'\s*#\s*endif', l): skip -= 1
        if '/*' in l: blk = True
        if '*/' in l: blk = False; continue
        s = l.strip()
        if skip or blk or s.startswith(('//', '#include', '#if', '#end', '*', '#undef')) or not s: continue
        code = l.split('//')[0]
        if 'err_msg' in code or 'show_msg' in code: continue
        for a, b in SW:
            for m in re.finditer(a, code):
                if code[:m.start()].count('"') % 2: continue
                out.append((i, l[:m.start()] + b + l[m.end():]))
        if re.match(r'[^=]*[^=!<>]=[^=].*;$', code.strip()) and not re.match(r'\s*(int|double|char|\w+ \*)', code): out.append((i, ''))
        elif re.match(r'\s*\w+\(.*\);$', code): out.append((i, ''))
        elif re.match(r'\s*\(?\*?[\w>.\[\]()-]+\)?(\+\+|--|\s*[-+^|]=.*);$', code): out.append((i, ''))
        m = re.match(r'(\s*(?:\} else )?if \()(.*)(\).*)$', code)
        if m and code.count('(') == code.count(')'): out.append((i, m.group(1) + '0 && ' + m.group(2) + m.group(3)))
    seen = set(); r = []
    for i, n in out:
        if n != L[i] and (i, n) not in seen: seen.add((i, n)); r.append((i, n))
    salt = os.environ.get('MUT_SALT', '')
    r.sort(key=lambda x: hashlib.md5((salt + path + str(x)).encode()).hexdigest())
    return L, r
def main():
    n, log = int(sys.argv[1]), open(sys.argv[2], 'a'); files = sys.argv[3:] or list(COD)
    os.makedirs(W, exist_ok=True)
    def say(*a): print(*a, file=log, flush=True)
    for path in files:
        L, ms = mutants(path); done = 0
        for i, new in ms:
            if done >= n: break
            sh('rm -rf %s/repo; cp -a %s %s/repo' % (W, B, W)); r = W + '/repo'
            M = list(L); M[i] = new; open(r + '/' + path, 'w').write('\n'.join(M))
            rc, o = sh('cmake -S . -B _build -G Ninja -DCMAKE_C_STANDARD_LIBRARIES=-lm >/dev/null 2>&1 && cmake --build _build -j8', r, 100) if False else sh('rm -rf _b && CC=gcc cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_STANDARD_LIBRARIES=-lm && ninja -C _b && cd _b && timeout 60 ctest', r, 200)
            if rc: continue
            sh('rm -rf _b', r)
            done += 1; t0 = time.time(); how = None; tried = []
            for p in COD[path]:
                rc, o = sh('VERIF_REPO=%s timeout 800 python3 %s/check.py %s' % (r, V, p))
                tried.append('%s:%d' % (p, rc))
                if rc == 1 and 'VIOLATION property=' + p in o: how = p; break
            say('%s %s:%d [%s] => [%s] %s %.0f s' % ('ok' if how else 'SURVIVED', path, i + 1, L[i].strip(), new.strip(), how or ' '.join(tried), time.time() - t0))
main()
