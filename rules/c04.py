"""C04: every block a function allocates or receives as owner is released, returned or stored on every path."""
from common import *
from ir import addr, calls


def run(tier):
    p = program()
    evs, st = ownership(p)
    fs = []
    for e in evs:
        if e.kind == 'leak:mem':
            fs.append(finding('leak|%s|%s' % (e.fn, origin(e.data['origin'])), '%s %s' % (e.loc, e.fn), e.msg,
                              'owned block without a holder', e.path))
    # the only reference to a block must survive a failed realloc of it
    re_sites = 0
    for n, f in sorted(p.defined.items()):
        for ins in calls(f, 'realloc'):
            re_sites += 1
            src = ins['a'][0]
            d = f.defs.get(src[1]) if src[0] == 'v' else None
            if generated(f.loc(ins)) or d is None or d['op'] != 'load':
                continue
            a = addr(f, d['a'][0])
            blk = f.blocks[f.iloc[ins['i']][0]]
            for x in blk[f.iloc[ins['i']][1] + 1:]:
                if x['op'] == 'store' and x['a'][0] == ['v', ins['i']] and addr(f, x['a'][1]) == a and a[1] is not None:
                    fs.append(finding('realloc|%s|%s' % (n, a[2]), '%s %s' % (f.loc(ins), n),
                                      'the result of realloc overwrites the only reference before it is known to be a block',
                                      'failed realloc loses its block'))
    # what a destroying function receives as owner: decided by the ownership table of C06
    import c06
    try:
        d = c06.run(tier); cfg = d['coverage']['obligations']
        fs += [f for f in d['findings'] if f['key'].startswith('free|') and 'does not release' in f['msg']]
    except Broken:
        cfg = 0
    sites = sum(1 for n in ('malloc', 'calloc', 'realloc', 'strdup', 'strndup') for c in p.callers.get(n, ()))
    if sites < 60:
        raise Broken('only %d allocation sites found' % sites)
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS + [
        'a block stored in memory reachable from a parameter or global is owned there (whether the owner releases it later is C06)'],
        'coverage': coverage(p, st, allocation_sites=sites, realloc_sites=re_sites, destroy_configurations=cfg,
                             explanation='ownership dataflow over every path of every library function: %d allocation sites, each followed until released, returned or stored; failures of every allocation and callee included' % sites)}
