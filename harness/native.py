"""Builds the real Bonmin sources of /repo plus a harness and runs it: replays failed obligations on
the real code (random / enumerated inputs against an executable form of the postcondition)."""
import os, subprocess, re, time
from concurrent.futures import ThreadPoolExecutor
import driver
CXX = '/usr/bin/clang++'
FLAGS = ['-O0', '-g0', '-w', '-fno-access-control', '-fPIC', '-fsanitize=address', '-fno-sanitize-recover=address']
LIBS = ['-lCbcSolver', '-lCbc', '-lCgl', '-lOsiClp', '-lClpSolver', '-lClp', '-lOsi', '-lCoinUtils', '-lipopt', '-llapack', '-lblas', '-lm', '-ldl', '-lpthread']
SKIP = ('BonCurvBranchingSolver.cpp', 'BonCurvatureEstimator.cpp', '/Ampl/', '/Filter/', '/Apps/', 'BonStdCInterface.cpp')

def libsrc():
    out = []
    for d, ds, fs in os.walk(driver.REPO + '/src'):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith('.cpp') and not any(s in p + '/' or s in p for s in SKIP): out.append(p)
    return sorted(out)

def comp(src, obj):
    r = subprocess.run([CXX] + FLAGS + driver.cflags() + ['-I' + os.path.dirname(os.path.abspath(__file__)), '-c', src, '-o', obj], capture_output=True, text=True)
    return r.returncode, r.stderr

def run(harness, work, seed, tier, tus=None, pid=''):
    d = work + '/nat'; os.makedirs(d, exist_ok=True)
    here = os.path.dirname(os.path.abspath(__file__))
    srcs = [os.path.join(driver.REPO, t) for t in tus] if tus else libsrc()
    jobs = [(s, '%s/%s_%d.o' % (d, os.path.basename(s)[:-4], i)) for i, s in enumerate(srcs)]
    hs = harness if isinstance(harness, (list, tuple)) else [harness]
    hj = [(os.path.join(here, h), '%s/h_%d.o' % (d, i)) for i, h in enumerate(hs)]
    t = time.time()
    with ThreadPoolExecutor(8) as tp: res = list(tp.map(lambda j: comp(*j), hj + jobs))
    bad = [(j, r) for j, r in zip(hj + jobs, res) if r[0]]
    if any(b[0] in hj for b in bad):
        return dict(status='error', out='harness does not compile against the current tree:\n' + '\n'.join(b[1][1][-1500:] for b in bad[:3]), bound=None)
    objs = [j[1] for j, r in zip(hj + jobs, res) if r[0] == 0]
    lib = d + '/libb.a'
    if os.path.exists(lib): os.unlink(lib)
    r = subprocess.run(['ar', 'rcs', lib] + [o for o in objs if '/h_' not in o], capture_output=True, text=True)
    r = subprocess.run([CXX, '-fsanitize=address', '-o', d + '/h'] + [o for o in objs if '/h_' in o] + ['-Wl,--start-group', lib, '-Wl,--end-group'] + LIBS, capture_output=True, text=True)
    if r.returncode: return dict(status='error', out='link failed: ' + r.stderr[-2500:] + '\n'.join(b[1][1][-500:] for b in bad[:3]), bound=None)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=0:detect_odr_violation=0', LC_ALL='C')
    iters = 1 if tier == 'quick' else 8
    try:
        r = subprocess.run([d + '/h', str(seed), str(iters), pid], capture_output=True, text=True, timeout=240 if tier == 'quick' else 1500, env=env, cwd=d, errors='replace')
    except subprocess.TimeoutExpired as e:
        return dict(status='fail', out='the real code did not terminate on a harness input (timeout)\n' + (e.stdout.decode(errors='replace')[-2000:] if e.stdout else ''), bound='timeout')
    out = r.stdout[-6000:] + r.stderr[-4000:]
    m = re.search(r'BOUND: (.*)', r.stdout); bound = m.group(1) if m else 'seed %d' % seed
    if r.returncode == 0 and 'ALLOK' in r.stdout: return dict(status='ok', out=out, bound=bound, build_s=time.time() - t)
    return dict(status='fail', out='exit %d\n%s' % (r.returncode, out), bound=bound)
