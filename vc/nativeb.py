"""Builds the real library from /repo's current tree (staged by stage.py) with AddressSanitizer,
and the replay / bounded-search drivers in /verif/native against it.  Everything lands in /verif/build."""
import os, subprocess, sys, hashlib, time
from concurrent.futures import ThreadPoolExecutor
import stage
NATIVE = os.path.join(stage.VERIF, 'native')
CF = ['-g', '-O1', '-w', '-fstack-reuse=none', '-fopenmp', '-fsanitize=address', '-fno-omit-frame-pointer', '-std=gnu11', '-DHAVE_CONFIG_H'] + stage.INC
LF = ['-fopenmp', '-fsanitize=address', '-L/usr/lib/x86_64-linux-gnu', '-lgsl', '-lgslcblas', '-lsqlite3', '-lmariadb', '-lm', '-lpthread']
SKIP = {'apop_db_sqlite', 'apop_db_mysql', 'asprintf'}
def units(sd):
    out = []
    for sub in ('', 'model', 'transform'):
        d = os.path.join(sd, sub)
        for f in sorted(os.listdir(d)):
            if f.endswith('.c') and f[:-2] not in SKIP: out.append(os.path.join(sub, f))
    return out
def cc(args):
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout
class BuildError(Exception): pass
def build_lib(sd):
    lib = os.path.join(sd, 'libapop_asan.a')
    if os.path.exists(lib): return lib
    od = os.path.join(sd, 'nobj.%d' % os.getpid()); os.makedirs(od, exist_ok=True)
    jobs = []
    for u in units(sd):
        o = os.path.join(od, u.replace('/', '__')[:-2] + '.o')
        jobs.append((o, ['gcc', '-c'] + CF + ['-I' + sd, '-o', o, os.path.join(sd, u)]))
    jobs.sort(key=lambda j: -os.path.getsize(j[1][-1]))
    with ThreadPoolExecutor(8) as p:
        rs = list(p.map(lambda j: cc(j[1]), jobs))
    for (o, c), (rc, out) in zip(jobs, rs):
        if rc: raise BuildError('gcc failed: %s\n%s' % (c[-1], out[-1500:]))
    tmp = lib + '.%d' % os.getpid()
    rc, out = cc(['ar', 'rcs', tmp] + [o for o, c in jobs])
    if rc: raise BuildError(out)
    os.rename(tmp, lib)
    subprocess.run(['rm', '-rf', od])
    return lib
def build_driver(sd, name):
    """native/<name>.c -> executable"""
    lib = build_lib(sd)
    h = hashlib.sha256()
    for f in (name + '.c', 'vp.h'): h.update(open(os.path.join(NATIVE, f), 'rb').read())
    exe = os.path.join(sd, 'drv-%s-%s' % (name, h.hexdigest()[:12]))
    if os.path.exists(exe): return exe
    tmp = exe + '.%d' % os.getpid()
    rc, out = cc(['gcc'] + CF + ['-I' + sd, '-I' + NATIVE, '-o', tmp, os.path.join(NATIVE, name + '.c'), lib] + LF)
    if rc: raise BuildError('driver %s: %s' % (name, out[-3000:]))
    os.rename(tmp, exe)
    return exe
ENV = dict(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:print_summary=1:handle_abort=1',
           OMP_NUM_THREADS='4', LC_ALL='C', TZ='UTC')
def run_driver(exe, args, timeout, cwd):
    env = dict(os.environ); env.update(ENV)
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda b: b.decode(errors='replace') if isinstance(b, bytes) else (b or '')
        return 'timeout', d(e.stdout), d(e.stderr)
if __name__ == '__main__':
    t = time.time(); sd = stage.stage(); build_lib(sd); print('lib', time.time() - t)
    for n in sys.argv[1:]:
        e = build_driver(sd, n); print(e)
