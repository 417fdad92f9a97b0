"""C05: no use after release, no double release, nothing released stays referenced from a live structure."""
from common import *
from scen import member


RELEASE = {'free', 'co_free', 'pt_free', 'cv_free', 'cvec_free', 'co_callbacks_free'}


def base(f, v):
    """(structure, offset) of the member that holds the array an address lies in, if it is an element of one"""
    g = f.defs.get(v[1]) if v[0] == 'v' else None
    if g is None or g['op'] != 'getelementptr' or not g.get('vars') or g.get('path'):
        return None
    return held(f, g['a'][0])


def held(f, v):
    """(structure, offset) of the member a value was read from"""
    d = f.defs.get(v[1]) if v[0] == 'v' else None
    if d is None or d['op'] != 'load' or d['a'][0][0] != 'v':
        return None
    g = f.defs.get(d['a'][0][1])
    if g is None or g['op'] != 'getelementptr' or len(g.get('path') or ()) != 1 or g.get('vars'):
        return None
    return tuple(g['path'][0])


def slots(p, api):
    """An element of an array kept by a live structure that is released is overwritten, or the array replaced or
    released, before the structure is seen outside: on every path from where the element was read."""
    fs = []; sites = set()
    lens = {(s, member(p, s, v)[0]): (s, member(p, s, l)[0]) for s, v, l in (('parse_tree', 'pt_vec', 'pt_len'), ('cvec', 'vr_vec', 'vr_len'))}

    def settles(f, i, m, depth=0):
        if i['op'] == 'store':
            if base(f, i['a'][1]) == m:
                return True
            g = f.defs.get(i['a'][1][1]) if i['a'][1][0] == 'v' else None
            return g is not None and g['op'] == 'getelementptr' and [tuple(t) for t in g.get('path') or ()] in ([m], [lens.get(m)])
        if i['op'] == 'call' and i['callee'][0] == 'f':
            n = i['callee'][1]
            if n in ('free', 'realloc') or n.startswith(('llvm.memmove', 'llvm.memcpy')):
                if held(f, i['a'][0]) == m:
                    return True
            d = p.defined.get(n)
            if d is not None and depth < 3:
                return any(settles(d, x, m, depth + 1) for b in d.blocks for x in b)
        return False

    def pending(f, starts, m, frees):
        """does a path from one of the instructions reach the end of f with the element released and not overwritten"""
        todo = [(b, k + 1, False, s) for b, k, s in starts]; seen = set()
        while todo:
            b, k, sat, freed = todo.pop()
            blk = f.blocks[b]
            for i in blk[k:]:
                if not sat and settles(f, i, m):
                    sat = True
                if i['op'] == 'call' and id(i) in frees:
                    freed = True
                if i['op'] == 'ret' and freed and not sat:
                    return i
            if sat:
                continue
            for s in f.succs[b]:
                if (s, freed) not in seen:
                    seen.add((s, freed))
                    todo.append((s, 0, False, freed))
        return None

    work = []
    for n, f in sorted(p.defined.items()):
        if generated(f.file + ':1'):
            continue
        for b in f.blocks:
            for i in b:
                if i['op'] != 'call' or i['callee'][0] != 'f' or i['callee'][1] not in RELEASE or i['a'][0][0] != 'v':
                    continue
                d = f.defs.get(i['a'][0][1])
                m = base(f, d['a'][0]) if d is not None and d['op'] == 'load' else None
                if m is None:
                    continue
                sites.add('%s %s' % (f.loc(i), n))
                at = [(x, k, False) for x, bl in enumerate(f.blocks) for k, j in enumerate(bl) if j is d]
                work.append((f, at, m, {id(i)}, '%s %s' % (f.loc(i), n)))
    done = set()
    while work:
        f, at, m, frees, where = work.pop()
        if (f.name, m, tuple(sorted(frees))) in done:
            continue
        done.add((f.name, m, tuple(sorted(frees))))
        if pending(f, at, m, frees) is None:
            continue
        cs = p.callers.get(f.name, ())
        if f.internal and cs:
            for g, c in cs:
                pos = [(x, k, True) for x, bl in enumerate(g.blocks) for k, j in enumerate(bl) if j is c]
                work.append((g, pos, m, {id(c)}, where))
        else:
            fs.append(finding('slot|%s|%s+%s' % (f.name, m[0], m[1]), where, 'the element of the array in %s released here is still in the array when %s returns' % (m[0], f.name),
                              'released block still referenced', ()))
    return fs, sorted(sites)


def run(tier):
    p = program()
    evs, st = ownership(p)
    api = public_api(p)
    fs = []
    for e in evs:
        if e.kind in ('uaf', 'doublefree', 'badfree'):
            fs.append(finding('%s|%s|%s' % (e.kind, e.fn, re.sub(r'[\w./]+:\d+', '', e.msg)), '%s %s' % (e.loc, e.fn), e.msg, e.kind, e.path))
        elif e.kind == 'dangling' and e.fn in api and e.data['field'] and (e.data['field'][0] != 't' or e.data['own']):
            fs.append(finding('dangling|%s|%s' % (e.fn, '%s+%s' % tuple(e.data['field'][:2])), '%s %s' % (e.loc, e.fn), e.msg,
                              'released block still referenced at return from a public function', e.path))
    f2, sites = slots(p, api)
    fs += f2
    rel = sum(1 for n in ('free', 'realloc', 'fclose', 'xmlRegFreeRegexp') for c in p.callers.get(n, ()))
    if rel < 60:
        raise Broken('only %d release sites found' % rel)
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS, 'coverage': coverage(
        p, st, release_sites=rel, array_elements_released=sites, public_functions=len(api),
        explanation='typestate of heap blocks (owned/released/captured) over every path: %d direct release sites, releases by callees through their summaries' % rel)}
