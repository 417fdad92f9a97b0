#!/usr/bin/env python3
"""plant.py SPEC...: confirm planted changes and store them under seeded/.

Each SPEC is a python file that sets PROP, EDITS=[(file, old, new)], DEMO (C text) or DEMO_SH, NEEDS, BREAKS.  The
change is made in a copy of /repo which a private mount namespace shows as /repo: built, demonstrated, tested and
checked there.  The unchanged tree must pass the demonstration."""
import sys, os, subprocess, json, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
BASE = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]
TESTS = __import__("threading").Lock()


def ns(copy, cmd, log):
    with open(log, 'w') as f:
        return subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (copy, cmd)],
                              stdout=f, stderr=subprocess.STDOUT).returncode


def original_lines(patch, tree):
    """every removed line must come from the original repository"""
    bad = []
    f = None; ln = 0
    for l in patch.split('\n'):
        if l.startswith('--- a/'):
            f = l[6:]
            bl = subprocess.check_output(['git', '-C', '/repo', 'blame', '-l', '-s', 'HEAD', '--', f]).decode(errors='replace').split('\n')
        elif l.startswith('@@'):
            ln = int(re.match(r'@@ -(\d+)', l).group(1))
        elif f and l.startswith('-') and not l.startswith('---'):
            h = bl[ln - 1].lstrip('^').split()[0]
            if not BASE.startswith(h[:30]):
                bad.append((f, ln, l))
            ln += 1
        elif f and l.startswith(' '):
            ln += 1
    return bad


def one(spec):
    sid = os.path.basename(spec)[:-3]
    d = {}
    exec(open(spec).read(), d)
    w = tempfile.mkdtemp(prefix='plant-%s-' % sid, dir='/tmp')
    copy = os.path.join(w, 'repo')
    out = []
    try:
        subprocess.check_call(['cp', '-a', '/repo', copy])
        for f, old, new in d['EDITS']:
            p = os.path.join(copy, f)
            s = open(p, encoding='utf8', errors='surrogateescape').read()
            if s.count(old) != 1:
                return sid, 'edit of %s matches %d times: %r' % (f, s.count(old), old[:60])
            open(p, 'w', encoding='utf8', errors='surrogateescape').write(s.replace(old, new))
        patch = subprocess.check_output(['git', '-C', copy, 'diff']).decode(errors='surrogateescape')
        bad = original_lines(patch, copy)
        if bad:
            out.append('TOUCHES ADDED LINES %s' % bad[:2])
        sd = os.path.join(w, 'seed')
        os.mkdir(sd)
        open(os.path.join(sd, 'patch.diff'), 'w', encoding='utf8', errors='surrogateescape').write(patch)
        if 'DEMO_SH' in d:
            open(os.path.join(sd, 'demo.sh'), 'w').write(d['DEMO_SH'])
        else:
            shutil.copy(V + '/tools/demo/demo.sh', sd)
        if 'DEMO' in d:
            shutil.copy(V + '/tools/demo/demo.h', sd)
            open(os.path.join(sd, 'demo.c'), 'w').write(d['DEMO'])
        os.chmod(os.path.join(sd, 'demo.sh'), 0o755)
        json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(os.path.join(sd, 'meta.json'), 'w'), indent=1)
        clean = os.path.join(w, 'clean')
        subprocess.check_call(['cp', '-a', '/repo', clean])
        r0 = ns(clean, 'bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh' % sd, w + '/demo0')
        rb = ns(copy, 'bash /opt/vp/build.sh', w + '/build')
        r1 = ns(copy, 'bash %s/demo.sh' % sd, w + '/demo1')
        out.append('clean demo %d build %d bug demo %d' % (r0, rb, r1))
        ok = r0 == 0 and rb == 0 and r1 != 0
        if not ok:
            out.append('clean: %s | bug: %s' % (open(w + '/demo0').read()[-300:], open(w + '/demo1').read()[-300:]))
        if rb == 0:
            for pid in [d['PROP']] + d.get('ALSO', []):
                r = ns(copy, 'VERIF_EVIDENCE=%s/ev python3 %s/check.py %s' % (w, V, pid), w + '/check')
                t = open(w + '/check').read()
                out.append('check %s: %s %s' % (pid, {1: 'CAUGHT', 0: 'missed'}.get(r, 'EXIT %d' % r),
                           '; '.join(l for l in t.split('\n') if l.startswith(pid + ':') or l.startswith('Broken'))[:300]))
        if ok and '--notest' not in sys.argv:
            with TESTS:
                ns(copy, 'bash /opt/vp/test.sh %s/out.json' % w, w + '/test')
            res = json.load(open(w + '/out.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            miss = missing(base, res)
            out.append('tests missing %d %s' % (len(miss), miss[:3]))
            ok = not miss
        if ok and not bad and '--dry' not in sys.argv:
            dst = os.path.join(V, 'seeded', sid)
            if os.path.exists(dst):
                shutil.rmtree(dst)
            shutil.copytree(sd, dst)
            out.append('stored')
    except Exception as e:
        out.append('EXC %r' % e)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return sid, ' || '.join(out)


def missing(base, res):
    def names(x):
        if isinstance(x, dict):
            for k in ('passed', 'stable', 'pass'):
                if k in x and isinstance(x[k], list):
                    return set(x[k])
            if 'tests' in x:
                t = x['tests']
                return {k for k, v in t.items() if v in ('passed', 'pass', True)} if isinstance(t, dict) else set(t)
        return set(x)
    return sorted(names(base) - names(res))


if __name__ == '__main__':
    specs = [a for a in sys.argv[1:] if not a.startswith('--')]
    with ThreadPoolExecutor(4) as ex:
        for sid, r in ex.map(one, specs):
            print('%s: %s' % (sid, r), flush=True)
