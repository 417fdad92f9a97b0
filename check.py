#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property from /repo's current source.

exit 0: the property held on everything analysed; exit 1: violation (VIOLATION line printed);
exit 2: the analysis could not give an answer (anchor missing, front end failed)."""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine')); sys.path.insert(0, os.path.join(HERE, 'rules'))
KNOWN = os.path.join(HERE, 'KNOWN_FINDINGS.txt')


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, desc = rest.partition(' -- ')
                out[key.strip()[4:] if key.startswith('key=') else key.strip()] = desc
    return out


def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    EV = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(EV, exist_ok=True)
    ev = os.path.join(EV, pid + '.json')
    rep = os.path.join(EV, pid + '.report.txt')
    try:
        mod = importlib.import_module(pid.lower())
        res = mod.run(tier)
    except Exception as e:
        traceback.print_exc()
        print('NO-ANSWER property=%s %s: %s' % (pid, type(e).__name__, e))
        return 2
    kn = known(pid)
    new, old = [], []
    seen = set()
    for f in res['findings']:
        if f['key'] in seen:
            continue
        seen.add(f['key'])
        (old if f['key'] in kn else new).append(f)
    with open(rep, 'w') as o:
        for f in new + old:
            o.write('%s %s\n  where: %s\n  rule: %s\n  %s\n' % ('KNOWN' if f in old else 'VIOLATION', f['key'], f['where'], f.get('rule', ''), f['msg']))
            for p in f.get('path', ()):
                o.write('      %s\n' % p)
            o.write('\n')
    cov = dict(res['coverage']); cov['findings_reported'] = len(new); cov['known_findings'] = len(old)
    for k in list(cov):
        if isinstance(cov[k], (set, tuple)):
            cov[k] = sorted(cov[k])
    doc = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
           'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'violations': len(new),
           'assumptions': res.get('assumptions', [])}
    json.dump(doc, open(ev, 'w'), indent=1)
    for f in old:
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, f['key'], kn[f['key']]))
    for f in new:
        print('%s: %s: %s' % (pid, f['where'], f['msg']))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    print('%s held: %s' % (pid, cov.get('explanation', '')[:200]))
    return 0


if __name__ == '__main__':
    sys.exit(main())
