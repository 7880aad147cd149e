"""Mechanical extraction of the verified text from /repo's working tree.

Stages /repo's current sources exactly as /opt/vp/build.sh (and /repo/configure)
does -- `m4 -P install/prep_variadics.m4` on every *.m4.c / apop.m4.h -- then
compiles each staged C file with goto-cc and dumps the GOTO program and symbol
table as JSON.  Nothing is written outside /verif/build.

What the extraction drops / changes (also in DESIGN.md):
  * OpenMP pragmas (goto-cc is run without -fopenmp): sequential semantics.
  * one textual normalisation: `static type (name) = NULL` in the Staticdef macro
    loses its redundant parentheses, because goto-cc's parser rejects them.
"""
import time, hashlib, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('APOP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('APOP_VBUILD', os.path.join(VERIF, 'build'))

CONFIG_H = os.path.join(VERIF, 'vc', 'config.h')

SHIMS = os.path.join(VERIF, 'native', 'shims')

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def source_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', '_build', 'eg', 'docs', 'tests', 'cmd'))
        for f in sorted(files):
            if f.endswith(('.c', '.h', '.m4', '.ac', '.am', '.map')):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode() + b'\0')
                h.update(open(p, 'rb').read())
    for f in [CONFIG_H, os.path.abspath(__file__)] + [os.path.join(SHIMS, x) for x in sorted(os.listdir(SHIMS))]:
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

def stage():
    """returns directory with staged sources (cached by content hash)"""
    key = source_hash()
    d = os.path.join(BUILD, 'stage-' + key)
    if os.path.exists(os.path.join(d, '.ok')):
        return d
    # drop old stages, keep the disc small
    if os.path.isdir(BUILD):
        for x in os.listdir(BUILD):
            if x.startswith('stage-') and x != 'stage-' + key and time.time() - os.path.getmtime(os.path.join(BUILD, x)) > 3600:
                shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
    tmp = d + '.tmp%d' % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    for sub in ('model', 'transform'):
        shutil.copytree(os.path.join(REPO, sub), os.path.join(tmp, sub), dirs_exist_ok=True)
    prep = os.path.join('install', 'prep_variadics.m4')
    for f in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, f)
        if f.endswith('.m4.c') or f.endswith('.m4.h'):
            r = sh(['m4', '-P', prep, f], cwd=REPO)
            if r.returncode:
                raise RuntimeError('m4 failed on %s: %s' % (f, r.stderr[:400]))
            out = 'apop.h' if f == 'apop.m4.h' else f[:-5] + '.c'
            txt = r.stdout
            if out == 'apop.h':
                txt = txt.replace('@Autoconf_no_atomics@', '0')
            open(os.path.join(tmp, out), 'w').write(txt)
        elif f.endswith(('.c', '.h')):
            shutil.copy(p, os.path.join(tmp, f))
    shutil.copy(CONFIG_H, os.path.join(tmp, 'config.h'))
    for f in os.listdir(SHIMS):      # functions that only invoke a macro of apop.h
        shutil.copy(os.path.join(SHIMS, f), tmp)
    open(os.path.join(tmp, '.ok'), 'w').write(key)
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return d

INC = ['-I/usr/include/mariadb', '-I/usr/include/mariadb/mysql']

def goto_json(stagedir, unit):
    """unit: e.g. 'apop_data' or 'model/apop_ols'.  returns (functions, symtab)"""
    base = unit.replace('/', '__')
    out = os.path.join(stagedir, base + '.goto.json')
    if not os.path.exists(out):
        src = os.path.join(stagedir, unit + '.c')
        gd = os.path.join(stagedir, 'gotosrc')
        os.makedirs(gd, exist_ok=True)
        # textual normalisation for goto-cc
        ih = os.path.join(gd, 'apop_internal.h')
        if not os.path.exists(ih):
            t = open(os.path.join(stagedir, 'apop_internal.h')).read()
            t = t.replace('static type (name) = NULL;', 'static type name = NULL;')
            t = t.replace('if (!(name)) (name) = (def);', 'if (!(name)) name = (def);')
            open(ih + '.%d' % os.getpid(), 'w').write(t); os.rename(ih + '.%d' % os.getpid(), ih)
        gb = os.path.join(stagedir, base + '.%d.gb' % os.getpid())
        # the unit is compiled from gotosrc so that its "apop_internal.h" is the normalised one
        us = os.path.join(gd, base + '.c')
        shutil.copy(src, us)
        if unit == 'apop_db':
            for x in ('apop_db_sqlite.c', 'apop_db_mysql.c'):
                shutil.copy(os.path.join(stagedir, x), gd)
        r = sh(['goto-cc', '-c', '-DHAVE_CONFIG_H', '-I' + gd, '-I' + stagedir] + INC + ['-o', gb, us])
        if r.returncode or not os.path.exists(gb):
            raise RuntimeError('goto-cc failed on %s: %s' % (unit, (r.stderr + r.stdout)[-800:]))
        f = sh(['goto-instrument', '--show-goto-functions', '--json-ui', gb]).stdout
        s = sh(['goto-instrument', '--show-symbol-table', '--json-ui', gb]).stdout
        fj = [x['functions'] for x in json.loads(f) if 'functions' in x][0]
        sj = [x['symbolTable'] for x in json.loads(s) if 'symbolTable' in x][0]
        os.unlink(gb)
        fj = [x for x in fj if x.get('instructions')]
        sj = {k: {'type': v.get('type'), 'isType': v.get('isType'), 'isStaticLifetime': v.get('isStaticLifetime'),
                  'value': v.get('value') if (v.get('isStaticLifetime') or v.get('isMacro')) else None}
              for k, v in sj.items()}
        tmp = out + '.%d' % os.getpid()
        json.dump([fj, sj], open(tmp, 'w'))
        os.rename(tmp, out)
    return json.load(open(out))

if __name__ == '__main__':
    d = stage()
    print(d)
    for u in sys.argv[1:]:
        f, s = goto_json(d, u)
        print(u, len(f), len(s))
