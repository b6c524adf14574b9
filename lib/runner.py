"""Run explorers in shards, confirm candidate violations by replay, write evidence."""
import json, os, re, subprocess, sys, time, threading, struct, mmap, array, traceback
import build
from build import VERIF, BuildError
import specs

NSH = 32  # shards per explorer
JOBS = 8  # run at the same time
ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = ('detect_leaks=0:exitcode=77:allocator_may_return_null=1:quarantine_size_mb=8:'
                       'max_malloc_fill_size=1048576:malloc_fill_byte=190:detect_stack_use_after_return=0:print_legend=0:handle_abort=1')
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=0:exitcode=77'
ENV['LC_ALL'] = 'C.UTF-8'

class Explorer:
    """One executable with extra arguments, explored in NSH shards."""
    def __init__(self, name, exe, args=(), stall=60, nshards=NSH, states=True, env=None):
        self.name, self.exe, self.args, self.stall, self.nsh = name, exe, list(args), stall, nshards
        self.states = states
        self.env = dict(ENV, **(env or {}))

def read_crumb(p):
    try:
        with open(p, 'rb') as f:
            b = f.read(4096)
        g, c, t = struct.unpack('<qqq', b[:24])
        note = b[32:].split(b'\0', 1)[0].decode('latin1')
        return g, c, note, t
    except Exception:
        return -1, -1, '', 0

def one_run(ex, tag, extra, stall):
    """Returns dict(rc, hang, crumb, lines, err)."""
    d = build.scratch()
    out = os.path.join(d, 'out_%s_%s' % (ex.name, tag))
    crumb = out + '.crumb'
    cwd = out + '.cwd'
    for p in (out, crumb):
        if os.path.exists(p):
            os.unlink(p)
    os.makedirs(cwd, exist_ok=True)
    cmd = [ex.exe] + ex.args + ['--out', out, '--crumb', crumb] + extra
    ef = open(out + '.err', 'wb')
    p = subprocess.Popen(cmd, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, cwd=cwd, env=ex.env, start_new_session=True)
    last, t0, hang = None, time.time(), False
    while True:
        try:
            rc = p.wait(0.2)
            break
        except subprocess.TimeoutExpired:
            cur = read_crumb(crumb)
            if cur != last:
                last, t0 = cur, time.time()
            elif time.time() - t0 > stall:
                hang = True
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                rc = p.wait()
                break
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass
    ef.close()
    lines = []
    if os.path.exists(out):
        for l in open(out, errors='replace'):
            try:
                lines.append(json.loads(l))
            except Exception:
                pass
    err = open(out + '.err', errors='replace').read()
    subprocess.run(['rm', '-rf', cwd])
    return dict(rc=rc, hang=hang, crumb=read_crumb(crumb), lines=lines, err=err, out=out)

def crash_of(r):
    """A run that ended without its final line crashed or hung."""
    if r['hang']:
        return 'hang', 'no progress (hang)'
    if not any('done' in l for l in r['lines']):
        m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*|AddressSanitizer[^\n]*)', r['err'])
        st = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+)', r['err'])
        what = m.group(1) if m else 'exit status %s' % r['rc']
        what = re.sub(r'0x[0-9a-f]+', '0x..', what)
        what = re.sub(r'==\d+==', '', what)
        return 'crash', what + (' in ' + ' < '.join(st[:6]) if st else '')
    return None, None

class Result:
    def __init__(self):
        self.fails = []       # (explorer, g, c, sig, msg, note)
        self.evals = self.trans = self.skipped = self.groups = self.states = self.over = 0
        self.samples, self.stats = [], {}
        self.complete = True

def explore(prop, explorers, tier):
    res = Result()
    extra = ['--thorough'] if tier == 'thorough' else []
    jobs = [(ex, s) for ex in explorers for s in range(ex.nsh)]
    outs = {}
    def work(job):
        ex, s = job
        t0 = time.time()
        outs[job] = one_run(ex, 's%d' % s, ['--shard', str(s), '--nshards', str(ex.nsh)] + extra, ex.stall)
        outs[job]['t'] = time.time() - t0
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(JOBS) as tp:
        list(tp.map(work, jobs))
    if os.environ.get('MC_PROFILE'):
        for job in sorted(jobs, key=lambda j: -outs[j]['t'])[:12]:
            print('  %6.1f s %s shard %d' % (outs[job]['t'], job[0].name, job[1]))
    hs = {}
    for job in jobs:
        ex, s = job
        r = outs[job]
        cands = []
        for l in r['lines']:
            if 'fail' in l:
                cands.append((l['g'], l['c'], l['sig'], l['msg'], l['note']))
            elif 'sample' in l and len(res.samples) < 12 and sum(1 for x in res.samples if x.startswith(ex.name + ': ')) < 3:
                res.samples.append(ex.name + ': ' + l['sample'])
            elif 'stat' in l:
                res.stats[l['stat']] = res.stats.get(l['stat'], 0) + l['v']
            elif 'done' in l:
                res.evals += l['evals']; res.trans += l['trans']; res.skipped += l['skipped']
                res.groups += l['groups']; res.over += l['over']
        kind, what = crash_of(r)
        if kind:
            g, c, note, _ = r['crumb']
            if r['rc'] == 3 and kind == 'crash' and 'Sanitizer' not in what and 'runtime error' not in what:
                raise BuildError('explorer %s: internal error: %s' % (ex.name, r['err'][-1500:]))
            cands.append((g, c, kind, what, note))
            res.complete = False
        seen_sig = {}
        for g, c, sig, msg, note in cands:
            if seen_sig.get(sig, 0) >= 3:
                continue
            seen_sig[sig] = seen_sig.get(sig, 0) + 1
            if sum(1 for f in res.fails if not is_known(prop, f)) >= 6:
                continue
            conf = confirm(ex, g, c, sig, extra, s)
            if conf:
                res.fails.append((ex, g, c, sig, conf[0] or msg, conf[1] or note))
            else:
                print('note: %s group %d case %d (%s: %s) was not reproduced by replay; not reported' % (ex.name, g, c, sig, msg))
        if os.path.exists(r['out'] + '.hs'):
            a = array.array('Q')
            with open(r['out'] + '.hs', 'rb') as f:
                a.frombytes(f.read())
            hs.setdefault(ex.name, set()).update(a)
            os.unlink(r['out'] + '.hs')
    res.states = sum(len(v) for v in hs.values())
    return res

def confirm(ex, g, c, sig, extra, shard):
    """Replay the group alone up to the case; a hang gets a longer limit."""
    tries = [['--group', str(g), '--case', str(c)], ['--group', str(g)]]
    if g < 0:
        tries = [['--shard', str(shard), '--nshards', str(ex.nsh)]]
    else:
        tries.append(['--shard', str(shard), '--nshards', str(ex.nsh)])
    for i, t in enumerate(tries):
        r = one_run(ex, 'replay%d_%d_%d' % (shard, g, i), t + extra, max(150, 2 * ex.stall) if sig == 'hang' else ex.stall)
        for l in r['lines']:
            if 'fail' in l and l['sig'] == sig:
                return l['msg'], l['note']
        kind, what = crash_of(r)
        if kind and sig in ('crash', 'hang'):
            return what, r['crumb'][2]
    return None

def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']

def is_known(prop, f):
    ex, g, c, sig, msg, note = f
    full = '%s | %s | %s | %s' % (ex.name, sig, note, msg)
    return next((k for k in load_known() if k['property'] == prop and k.get('status') == 'open' and re.search(k['match'], full)), None)

def main(argv):
    t0 = time.time()
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sp = specs.SPECS[prop]
    try:
        explorers = sp['explorers'](tier)
        t1 = time.time()
        res = explore(prop, explorers, tier)
    except BuildError as e:
        print('check error: %s' % e)
        return 2
    viol, seen_known = [], {}
    for ex, g, c, sig, msg, note in res.fails:
        k = is_known(prop, (ex, g, c, sig, msg, note))
        if k:
            seen_known[k['id']] = k
        else:
            viol.append((ex, g, c, sig, msg, note))
    for k in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    cov = dict(sp.get('coverage', {}))
    if sp['level'] == 'model_checking':
        cov.update(states=res.states, transitions=res.trans, traces_validated_against_impl=res.evals)
    else:
        cov.update(evaluations=res.evals, distinct_nontrivial=res.states, transitions=res.trans, rule=sp['rule'])
    cov['samples'] = res.samples or ['(none)']
    cov['bounds'] = sp['rule']
    cov['groups_explored'] = res.groups
    cov['ambiguous_not_compared'] = res.skipped
    cov['exhaustive'] = bool(res.complete and res.over == 0)
    if res.over:
        cov['state_table_full_after'] = res.states
    cov.update({'stat_' + k: v for k, v in res.stats.items()})
    ev = dict(property=prop, tier=tier, seed=seed, level=sp['level'], coverage=cov,
              assumptions=sp.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: states=%d transitions=%d executions=%d skipped=%d groups=%d wall=%.1fs (build %.1fs)' % (
        prop, tier, res.states, res.trans, res.evals, res.skipped, res.groups, time.time() - t0, t1 - t0))
    if res.stats:
        print('  ' + ' '.join('%s=%g' % kv for kv in sorted(res.stats.items())))
    if viol:
        os.makedirs(rdir, exist_ok=True)
        for i, (ex, g, c, sig, msg, note) in enumerate(viol[:5]):
            rp = os.path.join(rdir, '%s_%d.json' % (prop, i))
            with open(rp, 'w') as f:
                json.dump(dict(property=prop, explorer=ex.name, args=ex.args, group=g, case=c, signature=sig, note=note, what=msg,
                               replay='python3 /verif/check.py %s --replay-explorer %s --group %d --case %d' % (prop, ex.name, g, c)), f, indent=1)
            print('  %s [%s] group %d case %d: %s: %s' % (ex.name, note[:600], g, c, sig, ' '.join(msg[:1500].split('\n'))))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0
