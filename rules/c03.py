"""C03: a block whose allocation failed is never dereferenced or handed to something that requires it."""
from common import *


def run(tier):
    p = program()
    evs, st = ownership(p)
    handlers = {n for n, f in p.defined.items() if f.ret == 'void' and not p.callers.get(n) and n in p.addrtaken}
    fs = []
    for e in evs:
        if e.kind == 'nullderef' or (e.kind == 'constnull' and e.data.get('mon')):
            fs.append(finding('null|%s|%s' % (e.fn, re.sub(r'[\w./]+:\d+', '', e.msg)), '%s %s' % (e.loc, e.fn),
                              e.msg + (' (after failure of %s)' % ', '.join(e.data['mon']) if e.data.get('mon') else ''), 'null result used', e.path))
        # the failed allocation was noticed nowhere: the null result stays behind as if it were the block
        if e.kind == 'swallow' and 'alloc' in e.data['mon'] and e.fn not in handlers:
            fs.append(finding('unnoticed|%s' % e.fn, '%s %s' % (e.loc, e.fn),
                              e.msg.replace('alloc failed', 'an allocation failed'), 'failed allocation not detected', e.path))
    sites = sum(1 for n in ('malloc', 'calloc', 'realloc', 'strdup', 'strndup') for c in p.callers.get(n, ()))
    if sites < 60:
        raise Broken('only %d allocation sites found' % sites)
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS, 'coverage': coverage(
        p, st, allocation_sites=sites,
        explanation='each of %d allocation sites split into success and failure, the null result followed through variables, fields and callees' % sites)}
