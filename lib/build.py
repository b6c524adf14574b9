"""Compile explorers against the sources and defines that /repo's own build files name."""
import json, os, shlex, subprocess, tempfile, shutil, atexit, signal, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODEC_DIRS = ('dtrm', 'dtrm_glp', 'polar_scl', 'rm1_ml')
SAN = ['-fsanitize=address', '-fsanitize=bounds,shift,signed-integer-overflow,integer-divide-by-zero,vla-bound,null',
       '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
CODECS = {'dtrm0': ('dtrm0_bg', 'CODEC_DTRM0'), 'dtrm1': ('dtrm1_bg', 'CODEC_DTRM1'),
          'glp': ('dtrm_glp_bg', 'CODEC_GLP'), 'polar': ('ca_polar_scl_bg', 'CODEC_POLAR')}

class BuildError(Exception):
    pass

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _scratch = tempfile.mkdtemp(prefix='eccv_', dir=base)
        atexit.register(cleanup)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *a: sys.exit(3))
    return _scratch

def cleanup():
    if _scratch and os.path.isdir(_scratch):
        shutil.rmtree(_scratch, ignore_errors=True)

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

_db = None
def compdb():
    """target -> list of (source, flags)"""
    global _db
    if _db is not None:
        return _db
    d = os.path.join(scratch(), 'cm')
    env = dict(os.environ, CC='gcc', CXX='g++')
    for k in ('CFLAGS', 'LDFLAGS', 'MAKEFLAGS'):
        env.pop(k, None)
    r = run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON',
             '-DCMAKE_C_STANDARD_LIBRARIES=-lm'], env=env)
    if r.returncode:
        raise BuildError('cmake failed:\n' + r.stdout[-3000:])
    _db = {}
    for e in json.load(open(os.path.join(d, 'compile_commands.json'))):
        a = shlex.split(e['command'])
        obj = a[a.index('-o') + 1]
        tgt = obj.split('CMakeFiles/', 1)[1].split('.dir/', 1)[0]
        fl, i = [], 1
        while i < len(a):
            if a[i] in ('-o', '-c', '-MF', '-MT', '-MQ'):
                i += 2; continue
            if a[i].startswith(('-D', '-I', '-U', '-std', '-isystem', '-include')):
                fl.append(a[i])
                if a[i] in ('-D', '-I', '-U', '-isystem', '-include'):
                    i += 1; fl.append(a[i])
            i += 1
        _db.setdefault(tgt, []).append((e['file'], fl))
    return _db

def target(name):
    db = compdb()
    if name not in db:
        raise BuildError('no target %s in the build files' % name)
    return db[name]

def rel(p):
    return os.path.relpath(os.path.realpath(p), os.path.realpath(REPO))

def codec_sources(codec):
    return [(s, f) for s, f in target(CODECS[codec][0]) if not rel(s).startswith('simulators/')]

def sim_sources(codec='dtrm0', extra=()):
    return [(s, f + list(extra)) for s, f in target(CODECS[codec][0]) if rel(s).split('/')[0] not in CODEC_DIRS]

_pool = ThreadPoolExecutor(8)
def compile_objs(items):
    """items: list of (src, flags, out) compiled in parallel."""
    def one(it):
        src, flags, out = it
        r = run(['gcc', '-g', '-w'] + flags + ['-c', src, '-o', out])
        if r.returncode:
            raise BuildError('compiling %s failed:\n%s' % (src, r.stdout[-3000:]))
        return out
    return list(_pool.map(one, items))

_n = [0]
def build(name, harness, sources, defs=(), san=True, opt='-O2', link=(), rflags=()):
    """harness: file(s) in /verif/harness; sources: [(src, flags)]. Returns the executable's path."""
    d = os.path.join(scratch(), 'b%d_%s' % (_n[0], name)); _n[0] += 1
    os.makedirs(d)
    s = SAN if san else []
    items = []
    for i, (src, fl) in enumerate(sources):
        items.append((src, [opt] + s + fl + list(rflags), os.path.join(d, 'r%d.o' % i)))
    hs = [harness] if isinstance(harness, str) else harness
    for i, h in enumerate(hs):
        items.append((os.path.join(VERIF, 'harness', h), [opt] + s + ['-D_GNU_SOURCE', '-I' + REPO] + list(defs), os.path.join(d, 'h%d.o' % i)))
    objs = compile_objs(items)
    exe = os.path.join(d, name)
    r = run(['gcc', '-g'] + s + objs + ['-o', exe] + list(link) + ['-lm', '-lpthread'])
    if r.returncode:
        raise BuildError('linking %s failed:\n%s' % (name, r.stdout[-3000:]))
    return exe
