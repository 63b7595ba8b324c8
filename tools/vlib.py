"""Build and run machinery shared by all checks."""
import os, subprocess, sys, hashlib, json, time, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SYMEX = os.path.join(BUILD, 'symex')
CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else '/usr/lib/llvm-18/bin/clang++'
LL = '/usr/lib/llvm-18/bin'
PASSES = ('always-inline,cgscc(inline),function(sroa,early-cse,simplifycfg,instsimplify),'
          'globaldce,cgscc(inline),function(sroa,early-cse<memssa>,sccp,simplifycfg,instsimplify,adce),'
          'cgscc(inline),function(sroa,early-cse<memssa>,simplifycfg<bonus-inst-threshold=4>,instsimplify,adce),globaldce')
INC = ['-I', os.path.join(VERIF, 'harness'), '-I', os.path.join(VERIF, 'harness', 'ros'), '-I', REPO + '/src', '-I', REPO]

def sh(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-4000:]); sys.stderr.write(r.stderr[-8000:])
        raise SystemExit('command failed (%d): %s' % (r.returncode, ' '.join(cmd)))
    return r

def ensure_engine():
    src = [os.path.join(VERIF, 'engine', f) for f in ('expr.h', 'expr.cpp', 'exec.h', 'exec.cpp', 'build.sh')]
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()
    st = os.path.join(BUILD, 'engine.stamp')
    if os.path.exists(SYMEX) and os.path.exists(st) and open(st).read() == h: return
    os.makedirs(BUILD, exist_ok=True)
    sh(['bash', os.path.join(VERIF, 'engine', 'build.sh'), BUILD])
    open(st, 'w').write(h)
    
def ensure_support():
    ensure_engine()
    s = os.path.join(VERIF, 'harness', 'support.cpp'); o = os.path.join(BUILD, 'support.bc')
    if not os.path.exists(o) or os.path.getmtime(o) < os.path.getmtime(s):
        sh([CLANG, '-std=c++14', '-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', s, '-o', o])
    n = os.path.join(VERIF, 'harness', 'native.cpp'); o = os.path.join(BUILD, 'native.o')
    if not os.path.exists(o) or os.path.getmtime(o) < max(os.path.getmtime(n), os.path.getmtime(os.path.join(VERIF, 'harness', 'verif.h'))):
        sh(['g++', '-std=c++14', '-O1', '-g', '-I', os.path.join(VERIF, 'harness'), '-c', n, '-o', o])

def compile_harness(name, work, defs=(), native=True):
    """Compiles harness/<name>.cpp against the current /repo to bitcode and to a native binary."""
    ensure_support()
    src = os.path.join(VERIF, 'harness', name + '.cpp')
    b = os.path.join(work, name)
    D = ['-D' + d for d in defs]
    procs = []
    p1 = subprocess.Popen([CLANG, '-std=c++14', '-O1', '-Xclang', '-disable-llvm-passes', '-g', 
        '-fno-exceptions' if False else '-fexceptions', '-ffp-contract=off', '-fno-strict-aliasing', '-fno-threadsafe-statics', '-w', '-Wno-c++11-narrowing', '-emit-llvm', '-c', src, '-o', b + '.0.bc'] + D + INC,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    p2 = None
    if native:
        p2 = subprocess.Popen(['g++', '-std=c++14', '-O1', '-g1', '-DVERIF_NATIVE', '-fsanitize=address', '-ffp-contract=off', '-fno-strict-aliasing', '-w',
            src, os.path.join(BUILD, 'native.o'), '-o', b + '.native'] + D + INC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    o, _ = p1.communicate()
    if p1.returncode: sys.stderr.write(o[-6000:]); raise SystemExit('harness %s does not compile' % name)
    sh([SYMEX, '--prep', b + '.0.bc', b + '.1.bc'])
    sh([LL + '/llvm-link', b + '.1.bc', os.path.join(BUILD, 'support.bc'), '-o', b + '.2.bc'])
    entries = []
    for l in open(src):
        l = l.strip()
        if l.startswith('VERIF_ENTRY('): entries.append(l[len('VERIF_ENTRY('):l.index(')')])
    keep = ','.join(entries + ['__libc_single_threaded', '__verif_errno'])
    sh([LL + '/opt', '-passes=internalize,globaldce', '-internalize-public-api-list=' + keep, b + '.2.bc', '-o', b + '.3.bc'])
    sh([LL + '/opt', '-passes=' + PASSES, '-inline-threshold=400', b + '.3.bc', '-o', b + '.bc'])
    if p2:
        o, _ = p2.communicate()
        if p2.returncode: sys.stderr.write(o[-6000:]); raise SystemExit('harness %s does not compile natively' % name)
    for s in ('.0.bc', '.1.bc', '.2.bc', '.3.bc'): os.unlink(b + s)
    return b + '.bc', b + '.native'

def run_entry(bc, native, entry, work, time_s, jobs=8, seed=1, opts=(), verbose=False):
    out = os.path.join(work, 'out_%s.json' % entry)
    if os.path.exists(out): os.unlink(out)
    cmd = [SYMEX, bc, '--entry', entry, '--native', native, '--out', out, '--workdir', work, '--src', REPO + '/src',
           '--jobs', str(jobs), '--time', str(time_s), '--seed', str(seed)] + list(opts) + (['--verbose'] if verbose else [])
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1')
    try:
        r = subprocess.run(cmd, stdout=sys.stdout if verbose else subprocess.PIPE, stderr=None if verbose else subprocess.PIPE, text=True, timeout=time_s + 240, env=env)
    except subprocess.TimeoutExpired:
        subprocess.run(['pkill', '-KILL', '-f', out]); return None, 'engine timeout'
    if not os.path.exists(out): return None, (r.stderr or '')[-2000:] + ' rc=%d' % r.returncode
    return json.load(open(out)), ''
