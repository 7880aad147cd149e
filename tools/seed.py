#!/usr/bin/env python3
"""seed.py <id>: (re)create a scratch copy of /repo, apply seeded/<id>/patch.diff, build, run the stable tests and demo.sh with and without it.
   seed.py --new <id> <property> <file> <<< python-ish edit spec: first line(s) OLD, then a line ====, then NEW"""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = '/tmp/seedwork'
def sh(c, cwd=None, t=900):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors='replace'); return p.returncode, p.stdout
def fresh():
    if not os.path.isdir(W): sh('cp -a /repo %s && rm -rf %s/_build' % (W, W))
    sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (W, W, W))
def build():
    b = open('/opt/vp/build.sh').read().replace('/repo', W)
    open('/tmp/seedbuild.sh', 'w').write(b); return sh('bash /tmp/seedbuild.sh')
def tests():
    t = open('/opt/vp/test.sh').read().replace('/repo', W)
    open('/tmp/seedtest.sh', 'w').write(t)
    if os.path.exists('/tmp/seedout.json'): os.unlink('/tmp/seedout.json')
    rc, o = sh('bash /tmp/seedtest.sh /tmp/seedout.json')
    try: out = json.load(open('/tmp/seedout.json'))
    except Exception as e: return ['no output: ' + o[-300:]]
    st = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return sorted(set(st) - set(out['passed']))
def demo(i):
    d = '/tmp/seeddemo'; shutil.rmtree(d, ignore_errors=True); shutil.copytree(os.path.join(V, 'seeded', i), d)
    for f in os.listdir(d):
        if f.endswith(('.diff', '.patch')) or f == 'meta.json': os.unlink(os.path.join(d, f))
    s = open(d + '/demo.sh').read()
    rc, o = sh('bash %s/demo.sh' % d, cwd=W, t=300); return rc, o
def check(i, full=True):
    fresh(); rc, o = build()
    if rc: return 'clean build failed ' + o[-300:]
    r0, o0 = demo(i)
    rc, o = sh('git -C %s apply %s/seeded/%s/patch.diff' % (W, V, i))
    if rc: return 'patch does not apply ' + o
    rc, o = build()
    if rc: return 'build with patch failed ' + o[-800:]
    r1, o1 = demo(i)
    bad = tests() if full else []
    fresh()
    ok = r0 == 0 and r1 not in (0,) and not bad
    return '%s demo clean rc=%s patched rc=%s failing tests=%s%s' % ('OK' if ok else 'BAD', r0, r1, bad, '' if ok else '\nclean: %s\npatched: %s' % (o0[-600:], o1[-600:]))
def make(i, prop, f, edits, needs, breaks, demo):
    fresh(); files = f if isinstance(f, dict) else {f: edits}
    for fn, eds in files.items():
        p = os.path.join(W, fn); s = open(p).read()
        for old, new in eds:
            assert s.count(old) == 1, (i, fn, s.count(old), old)
            s = s.replace(old, new)
        open(p, 'w').write(s)
    d = os.path.join(V, 'seeded', i); os.makedirs(d, exist_ok=True)
    sh('git -C %s diff > %s/patch.diff' % (W, d)); fresh()
    shutil.copy(os.path.join(V, 'tools', 'demo.sh'), d + '/demo.sh'); open(d + '/demo.c', 'w').write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    r = check(i); print(i, r, flush=True)
    return r.startswith('OK')
if __name__ == '__main__':
    if sys.argv[1] == '--new':
        i, prop, f = sys.argv[2:5]; spec = sys.stdin.read()
        fresh()
        p = os.path.join(W, f); s = open(p).read()
        for ed in spec.split('\n@@@@\n'):
            old, new = ed.split('\n====\n'); new = new.rstrip('\n'); old = old.rstrip('\n')
            assert s.count(old) == 1, (s.count(old), old)
            s = s.replace(old, new)
        open(p, 'w').write(s)
        d = os.path.join(V, 'seeded', i); os.makedirs(d, exist_ok=True)
        rc, o = sh('git -C %s diff > %s/patch.diff' % (W, d)); print(open(d + '/patch.diff').read()); fresh()
    else:
        for i in sys.argv[1:]: print(i, check(i), flush=True)
