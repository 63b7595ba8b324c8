#!/usr/bin/env python3
"""Works on planted bugs in scratch copies of /repo (development only; no check uses it).
  seedtool.py confirm ID..   build, stable tests and demo with the patch; demo without it
  seedtool.py check ID..     run the property's check against the patched copy"""
import os, sys, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(c, **k): return subprocess.run(c, capture_output=True, text=True, **k)
def copy(tag):
    d = '/tmp/sw_' + tag
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('_build'), symlinks=True)
    return d
def apply(d, i):
    r = run(['git', '-C', d, 'apply', '%s/seeded/%s/patch.diff' % (V, i)])
    if r.returncode: print(i, 'PATCH DOES NOT APPLY', r.stderr); return False
    return True
def demo(d, i):
    t = tempfile.mkdtemp(); shutil.copytree('%s/seeded/%s' % (V, i), t + '/d', ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
    try: r = run(['bash', t + '/d/demo.sh'], cwd=d, timeout=300)
    finally: shutil.rmtree(t)
    return r.returncode, (r.stdout + r.stderr)[-600:]
def confirm(i):
    d = copy(i); ok = True
    r0, o0 = demo(d, i)
    if r0 != 0: print(i, 'DEMO FAILS UNPATCHED', o0); ok = False
    if ok and apply(d, i):
        cm = d + '/_vp'; shutil.copytree('/opt/vp/cmake', cm)
        p = cm + '/CMakeLists.txt'; s = open(p).read().replace('/repo', d); open(p, 'w').write(s)
        env = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++')
        b = d + '/_build'
        run(['cmake', '-S', cm, '-B', b, '-G', 'Ninja'], env=env)
        r = run(['ninja', '-C', b], env=env)
        if r.returncode: print(i, 'DOES NOT BUILD', r.stdout[-1500:]); ok = False
        run(['ninja', '-C', b, 'tests'])
        r = run(['ctest', '--test-dir', b, '-j8', '--timeout', '300'])
        l = [x for x in r.stdout.splitlines() if 'tests passed' in x or '***' in x]
        good = '100% tests passed' in r.stdout
        if not good: print(i, 'TESTS:', l[:6]); ok = False
        r1, o1 = demo(d, i)
        if r1 == 0: print(i, 'DEMO PASSES PATCHED', o1); ok = False
    else: ok = False
    shutil.rmtree(d, ignore_errors=True)
    print(i, 'CONFIRMED' if ok else 'REJECTED', flush=True)
def check(i, tier='quick'):
    d = copy('c' + i)
    if not apply(d, i): return
    pid = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
    r = run(['python3', V + '/tools/check.py', pid, tier], env=dict(os.environ, VERIF_REPO=d))
    l = r.stdout.strip().splitlines()
    print(i, pid, 'CAUGHT' if r.returncode == 1 and any(x.startswith('VIOLATION property=' + pid) for x in l) else 'MISSED rc=%d' % r.returncode, '|', next((x for x in l if x.startswith('assert') or x.startswith('check') or ': ' in x), '')[:120], '|', l[-1][-150:] if l else r.stderr[-400:], flush=True)
    shutil.rmtree(d, ignore_errors=True)
for i in sys.argv[2:]:
    (confirm if sys.argv[1] == 'confirm' else check)(i)
