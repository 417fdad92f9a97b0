"""C15: a getter returns what the setter stored, and the setter stores nowhere else.

For every set/get pair the setter is analysed on an arbitrary object with an arbitrary value; on every successful
exit its getter is analysed on the resulting state and must return that value (the same scalar or pointer; for
strings a fresh full copy; for structures the same contents).  Every store of the setter to the object or to a
global must be to a place the getter reads.  Flag operations are decided bit-wise."""
from acc import *

STRUCTARG = re.compile(r'(in_addr|in6_addr|timeval)\*')
FLAGS = re.compile(r'(^|_)flags?(_set|_reset|_clr|_get|)$')


def bits(p, fs, done):
    """flag operations: |= given, &= ~given, test of the given bits only"""
    for n in sorted(p.defined):
        f = p.defined[n]
        if not FLAGS.search(n) or len(f.params) != 2 or not onobj(f) or f.params[1]['t'] == 'ptr':
            continue
        args, st = mkargs(p, f)
        w = width(f.params[1]['t'])
        h = Trace()
        I = SpecInterp(p, None, [h], 3, True)
        ex = I.run(f, args, st)
        kind = 'set' if n.endswith('_set') else 'clear' if n.endswith(('_reset', '_clr')) else 'test'
        m = args[1]
        ok = True; why = ''
        stores = [(k, x) for k, l in h.w.items() for x in l if k[0] == args[0][1]]
        cells = {k for k, x in stores}
        if kind == 'test':
            if stores:
                ok, why = False, 'stores to the object'
            for rv, s, ins in ex:
                r = norm(s, rv)
                if not masktest(s, r, m, args[0][1]):
                    ok, why = False, 'result is not the test of the given bits'
        else:
            if len(cells) != 1:
                ok, why = False, 'stores to %d members' % len(cells)
            else:
                for k, (loc, fn, v) in stores:
                    if not maskop(v, kind, m, args[0][1], k[1]):
                        ok, why = False, 'the stored flags are not the old ones with exactly the given bits %s' % kind
        if any(k[0][0] == 'G' and k[0][1] not in AUX for k in h.w):
            ok, why = False, 'stores to a global'
        done.append(n)
        if not ok:
            fs.append(finding('flags|%s' % n, '%s:%s %s' % (f.file, f.line, n), '%s: %s' % (n, why), 'flag bits'))


def opof(v):
    if v and v[0] == 'l' and len(v[1]) == 1 and v[1][0][1] == 1 and v[2] == 0:
        return T.desc[v[1][0][0]]
    return None


def unext(v):
    while True:
        d = opof(v)
        if d and d[0] == 'op' and d[1][:2] in ('zx', 'sx', 'tr', 'wr'):
            v = d[2]
        else:
            return v


def same(a, b):
    return unext(a) == unext(b)


def isold(v, base, off=None):
    d = opof(unext(v))
    return bool(d) and d[0] in ('m', 'mpun', 'k') and base in (d[1], d[2]) and (off is None or off in (d[2], d[3]))


def maskop(v, kind, m, base, off):
    d = opof(unext(v)) if v else None
    if not d or d[0] != 'op':
        return False
    a, b = d[2], d[3]
    if kind == 'set':
        return d[1] == 'or' and (isold(a, base, off) and same(b, m) or isold(b, base, off) and same(a, m))
    if d[1] != 'and':
        return False
    for x, y in ((a, b), (b, a)):
        if isold(x, base, off):
            if iscompl(y, m):
                return True
    return False


def iscompl(y, m):
    y = unext(y)
    d = opof(y)
    if d and d[0] == 'op' and d[1] == 'xor' and (d[3] == ('c', -1) and same(d[2], m) or d[2] == ('c', -1) and same(d[3], m)):
        return True
    # -1 - m
    um = unext(m)
    return y[0] == 'l' and um[0] == 'l' and y[1] == tuple((s, -c) for s, c in um[1]) and y[2] == -1 - um[2]


def masktest(s, r, m, base):
    if r[0] == 'cmp' and isconst(r[3]) and cval(r[3]) == 0 and r[1] in ('ne', 'eq'):
        if r[1] == 'eq':
            return False
        r = r[2]
    if isconst(r):
        return True          # decided by a branch on the test itself
    d = opof(unext(r))
    return bool(d) and d[0] == 'op' and d[1] == 'and' and (isold(d[2], base) and same(d[3], m) or isold(d[3], base) and same(d[2], m))


def scalar(p, s, g, fs, done):
    f, fg = p.defined[s], p.defined[g]
    obj = onobj(f)
    rng = (0, 1) if s in TRUTH else None
    args, st = mkargs(p, f, rng)
    h = Trace()
    I = SpecInterp(p, None, [h], 4, True)
    I.inline_when = lambda fn, a: fn.name not in ('pt_free', 'co_free', 'cv_reset', 'pt_expand_cleanup')
    ex = I.run(f, args, st)
    want = args[1:] if obj else args
    reads = set(); good = 0
    for rv, s1, ins in ex:
        if s1.mon:
            continue
        r = norm(s1, rv) if f.ret != 'void' else None
        if f.ret == 'i32' and r == ('c', -1) and f.sig[0] == 'int':
            continue
        I2, res, h2 = get(p, g, args, s1, obj)
        reads |= h2.r
        for vals, s2 in res:
            if fg.ret not in ('i8', 'i16', 'i32', 'i64', 'ptr', 'i1') and len(vals) == 1:
                # a structure, copied into the object as a whole and out of the same place
                put = [(k, x) for k, x in h.blk.items() if k[0] == args[0][1]]
                got = [x for k, x in h2.blk.items() if x[0][0] == 'p' and x[0][1] == args[0][1]]
                if len(put) == 1 and put[0][1][2] == tuple(want) and any(x[0][2] == put[0][0][1] and x[1] == put[0][1][1] for x in got):
                    good += 1; reads |= {put[0][0]}; continue
                fs.append(finding('value|%s' % s, '%s %s' % (f.loc(ins), s), '%s does not return what %s stored' % (g, s), 'get after set')); continue
            if len(vals) != len(want):
                continue
            ok = True
            for a, b in zip(vals, want):
                b = norm(s2, b)
                if b == ZERO and f.sig[-1].endswith('*') and STRUCTARG.match(f.sig[-1]) and args[-1][0] != 'c':
                    good += 0
                    continue          # told to set no structure
                if a == b or decide(s2, 'eq', a, b) is True:
                    continue
                if f.sig[-1].endswith('*') and f.sig[-1] not in ('char*', 'void*', 'cvec*') and a[0] == 'p' and b[0] == 'p' and a[1] == args[0][1]:
                    # contents are kept in the object
                    if any(k == (a[1], a[2]) and x[0] == b for k, x in h.blk.items()):
                        reads |= {(a[1], a[2])}
                        continue
                if a[0] == 'cmp' and rng:
                    continue
                ok = False
            if ok:
                good += 1
            elif s not in LIMITED:
                fs.append(finding('value|%s' % s, '%s %s' % (f.loc(ins), s), '%s does not return what %s stored (value altered or another member)' % (g, s), 'get after set'))
    if not good:
        fs.append(finding('value|%s' % s, '%s %s' % (f.file, s), 'no path of %s on which %s returns the value set' % (s, g), 'get after set'))
    extra(p, s, g, h, reads, args, fs)
    done.append(s)


def extra(p, s, g, h, reads, args, fs):
    for (b, o), l in sorted(h.w.items(), key=str):
        if b[0] == 'G' and b[1] not in AUX | AUXOF.get(s, set()) or (onobj(p.defined[s]) and b == args[0][1]):
            if (b, o) in reads or (s, o) in house(p):
                continue
            fs.append(finding('extra|%s|%s+%s' % (s, b[0], o), '%s %s' % (l[0][0], l[0][1]), '%s also stores to something %s does not read (offset %s)' % (s, g, o), 'nothing else changes'))


def house(p):
    """the length that goes with a vector member"""
    d = {m['n']: m['o'] for m in p.ditypes.get('cg_obj_common', {}).get('m', ())}
    return {('co_pt_set', d.get('coc_pt_len'))}


def strings(p, s, g, k, fs, done):
    f = p.defined[s]
    for old in ('set', 'null'):
        for new in ('other', 'null'):
            ev, out, arg, h, off, args = run_string(p, s, g, k, old, new)
            good = 0
            for v, src, status, ref, loc in out:
                if ref:
                    continue
                if new == 'null':
                    ok = v == ZERO or v[0] == 'p' and v[1][0] == 'G'
                    if s == 'cv_string_set' or s == 'cv_strncpy':
                        ok = True        # setting no string is refused; the present one stays
                else:
                    ok = src is not None and all(x[0] == arg for x in src) and status not in ('freed',)
                    full = src is not None and all(x[1] for x in src)
                    if ok and not full and s != 'cv_strncpy':
                        fs.append(finding('trunc|%s' % s, '%s %s' % (loc, s), '%s is not shown to copy the whole string with its end' % s, 'unaltered'))
                good += ok
                if not ok:
                    fs.append(finding('string|%s|%s' % (s, new), '%s %s' % (loc, s), '%s leaves something else than %s for %s to return' % (s, 'a copy of its argument' if new == 'other' else 'nothing', g), 'get after set'))
            if new == 'other' and not good:
                fs.append(finding('string|%s|%s' % (s, new), '%s %s' % (f.file, s), 'no path of %s stores a copy of its argument' % s, 'get after set'))
            for (b, o), l in sorted(h.w.items(), key=str):
                if b == args[0][1] and o != off or b[0] == 'G' and b[1] not in AUX:
                    fs.append(finding('extra|%s|%s' % (s, o), '%s %s' % (l[0][0], l[0][1]), '%s also stores to another member (offset %s)' % (s, o), 'nothing else changes'))
    done.append(s)


def run(tier):
    p = program()
    fs = []; sc = []; ss = []; fl = []
    strs = {s for s, g, k in string_setters(p)}
    for s, g, k in string_setters(p):
        strings(p, s, g, k, fs, ss)
    for s, g in pairs(p):
        f = p.defined[s]
        if s in strs or FLAGS.search(s) or len(f.params) < 2 - (not onobj(f)) or s in SKIP:
            continue
        scalar(p, s, g, fs, sc)
    bits(p, fs, fl)
    if len(sc) < 45 or len(ss) < 14 or len(fl) < 5:
        raise Broken('accessor pairs found: %d scalar, %d string, %d flag operations' % (len(sc), len(ss), len(fl)))
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS[:2] + ['kept as truth values: ' + ', '.join(sorted(TRUTH)),
            'kept within documented limits: ' + ', '.join('%s (%s)' % x for x in sorted(LIMITED.items()))],
            'coverage': dict(p.stats(), scalar_setters=sc, string_setters=ss, flag_operations=fl, not_decided=sorted(SKIP),
            explanation='get-after-set and store-footprint analysis: %d scalar/pointer pairs, %d string setters, %d flag operations' % (len(sc), len(ss), len(fl)))}


# do more than store an attribute: co_sets_set acts on the node's tree, mr_last_set takes no value
SKIP = {'co_sets_set', 'mr_last_set', 'cligen_terminal_rows_set'}
