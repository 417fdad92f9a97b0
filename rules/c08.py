"""C08: numeric bounds.  The C library's number conversion is replaced by an unknown result lying in one region (inside
the type, just or far outside on either side, overflow, nothing converted, text left over); every parsing function
must then accept exactly the inside region and store that very value.  The same for prefix lengths and for the number
of fraction digits."""
from scen import *

I64 = trange(64)
INTS = [('int8', 8, True), ('int16', 16, True), ('int32', 32, True), ('int64', 64, True),
        ('uint8', 8, False), ('uint16', 16, False), ('uint32', 32, False), ('uint64', 64, False)]
CONV = {'strtoll', 'strtol', 'strtoimax', '__isoc23_strtoll', '__isoc23_strtol'}
UCONV = {'strtoull', 'strtoul', 'strtoumax', '__isoc23_strtoull', '__isoc23_strtoul'}


class Num(Hook):
    """result of the conversion, end of the converted text, errno; copies of the string are the string"""
    def __init__(self, p, v, erange, junk, chars):
        self.p = p; self.v = v; self.erange = erange; self.junk = junk; self.chars = chars
        self.base = set(); self.signed = set(); self.pton = []; self.ptonres = 1

    def call(self, I, fr, ins, st, name, args):
        if name in CONV | UCONV:
            self.base.add(norm(st, args[2]))
            self.signed.add(name in CONV)
            e = norm(st, args[1])
            if e[0] == 'p' and isinstance(e[2], int):
                c = dict(st.mem.get(e[1]) or {})
                E = ('H', ('in', 'end'), 0)
                st.heap[E] = ('live', 'mem')
                st.mem[E] = {0: (symav(T.get(('in', 'junkchar'), 1, 127)) if self.junk else ZERO, 'i8', ('t', 'i8')), '*': (('any',), None)}
                s = norm(st, args[0])
                if self.junk is not None and self.chars is not None and s[0] == 'p' and isinstance(s[2], int):
                    st.mem[s[1]] = dict(st.mem.get(s[1], {}))
                    k = s[2] + (self.chars if not self.empty else 0)
                    st.mem[s[1]][k] = st.mem[E][0]
                    c[e[2]] = (('p', s[1], k), 'ptr', ('t', 'ptr'))
                else:
                    c[e[2]] = (('p', E, 0), 'ptr', ('t', 'ptr'))
                st.mem[e[1]] = c
            st.mem[('G', 'errno')] = {0: (('c', 34) if self.erange else ZERO, 'i32', ('t', 'i32'))}
            # 34: ERANGE
            w = 64
            return [(self.v, st)]
        if name == 'strdup' and self.chars is not None:
            a = norm(st, args[0])
            if a[0] == 'p' and isinstance(a[2], int):
                b = ('H', ('in', 'dup', a[1], a[2]), 0)
                st.heap[b] = ('live', 'mem')
                st.mem[b] = {o - a[2] if o != '*' else '*': c for o, c in st.mem.get(a[1], {'*': (('any',), None)}).items()}
                return [(('p', b, 0), st)]
        if name == 'free':
            return [(None, st)]
        if name in ('strchr', 'index', 'memchr', 'strpbrk', 'strrchr'):
            a = norm(st, args[0]); c = norm(st, args[1])
            if a[0] == 'p' and isconst(c) and isinstance(a[2], int):
                o = a[2]
                while o < a[2] + 8:
                    x = st.mem.get(a[1], {}).get(o)
                    if x is None:
                        return None
                    v = norm(st, x[0])
                    if v == c:
                        return [(('p', a[1], o), st)]
                    if v == ZERO:
                        return [(ZERO, st)]
                    if isconst(v) or decide(st, 'ne', v, c):
                        o += 1; continue
                    return None
            return None
        if name == 'inet_pton':
            self.pton.append((norm(st, args[0]), norm(st, args[2])))
            d = norm(st, args[2])
            return [(val(self.ptonres), st)]
        return None


def text(st, nm, chars):
    """a string with the given characters; 'd': some digit"""
    b = ('H', ('in', 'text', nm), 0)
    st.heap[b] = ('live', 'mem')
    m = {'*': (('any',), None)}
    for i, c in enumerate(chars):
        v = symav(T.get(('in', 'digit', nm, i), 48, 57)) if c == 'd' else ('c', ord(c))
        m[i] = (v, 'i8', ('t', 'i8'))
    m[len(chars)] = (ZERO, 'i8', ('t', 'i8'))
    st.mem[b] = m
    return ('p', b, 0)


def regions(w, signed):
    """(name, lo, hi, in range)"""
    if signed:
        lo, hi = trange(w)
        out = [('inside', lo, hi, True)]
        if w < 64:
            out += [('just below', lo - 1, lo - 1, False), ('below', I64[0], lo - 1, False), ('just above', hi + 1, hi + 1, False), ('above', hi + 1, I64[1], False)]
        return out
    if w == 64:
        return [('inside', 0, I64[1], True), ('inside', I64[0], -1, True)]
    m = (1 << w) - 1
    return [('inside', 0, m, True), ('just above', m + 1, m + 1, False), ('above', m + 1, I64[1], False), ('far above', I64[0], -1, False)]


def stored(st, v, want, w):
    v = norm(st, v); want = norm(st, want)
    if isconst(v) and isconst(want):
        return (cval(v) - cval(want)) % (1 << w) == 0
    if v == want:
        return True
    for _ in range(3):
        if v[0] == 'l' and len(v[1]) == 1 and v[1][0][1] == 1 and v[2] == 0:
            d = T.desc[v[1][0][0]]
            if d[0] == 'op' and d[1] == 'tr%d' % w and norm(st, d[2]) == want:
                return True
            if d[0] == 'op' and d[1][:2] == 'tr' and int(d[1][2:]) >= w:
                v = norm(st, d[2]); continue
        break
    return v == want


def run(tier):
    p = program()
    fs = []; n = 0; fns = []; seen = set()

    def bad(key, where, msg):
        if key not in seen:
            seen.add(key)
            fs.append(finding(key, where, msg, 'accepted exactly within the bounds'))

    def when(fn, a):
        return fn.file.endswith('cligen_cv.c') and fn.name != 'cligen_reason'

    def drive(fname, args, st, h, want, getval, width, value, what):
        """want: accepted?"""
        nonlocal n
        n += 1
        f = p.defined[fname]
        I, ex = results(p, fname, args, st, [h], maxinline=8, when=when)
        ok = False
        for rv, s, ins in ex:
            if rv == ('c', 1):
                if not want:
                    bad('accept|%s|%s' % (fname, what[0]), '%s %s' % (f.loc(ins), fname), '%s: %s is accepted' % (what[0], what[1]))
                else:
                    v = getval(I, s)
                    if v is None or not stored(s, v, value, width):
                        bad('value|%s|%s' % (fname, what[0]), '%s %s' % (f.loc(ins), fname), '%s: the value stored is not the one converted' % what[0])
                    ok = True
            elif rv == ZERO:
                if want:
                    bad('refuse|%s|%s' % (fname, what[0]), '%s %s' % (f.loc(ins), fname), '%s: %s is refused' % (what[0], what[1]))
            elif rv is not None and interval(s, rv)[1] < 0:
                pass
            elif want and rv is not None and interval(s, rv)[0] >= 1:
                bad('result|%s|%s' % (fname, what[0]), '%s %s' % (f.loc(ins), fname), '%s: the result is not 1' % what[0])
            else:
                bad('result|%s|%s' % (fname, what[0]), '%s %s' % (f.loc(ins), fname), '%s: the result for %s is not 0 or 1' % what)
        if want and not ok:
            bad('never|%s|%s' % (fname, what[0]), '%s:%s %s' % (f.file, f.line, fname), '%s: no way to accept %s' % what)
        return ex

    def number(nm, w, signed):
        for direct in (True, False):
            fname = 'parse_' + nm if direct else 'cv_parse1'
            if fname not in p.defined:
                raise Broken('%s is not there' % fname)
            for reason in (0, 1):
                cases = []
                for what, lo, hi, inside in regions(w, signed):
                    cases.append((what + ' the bounds', ['d'], lo, hi, 0, 0, inside))
                cases += [('a number too large to convert', ['d'], I64[1] if signed else -1, I64[1] if signed else -1, 1, 0, False),
                          ('a number followed by other text', ['d'], 0, 100, 0, 1, False),
                          ('the empty string', [], 0, 0, 0, 0, False)]
                if signed:
                    cases.append(('a number too small to convert', ['-', 'd'], I64[0], I64[0], 1, 0, False))
                else:
                    cases += [('a negative number', ['-', 'd'], 0, 100, 0, 0, False), ('a negative number after a blank', [' ', '-', 'd'], 0, 100, 0, 0, False),
                              ('a negative number', ['-', 'd'], I64[0], -1, 0, 0, False)]
                for what, chars, lo, hi, er, junk, inside in cases:
                    st = St()
                    s = text(st, (nm, len(chars)), chars)
                    x = symav(T.get(('in', 'num', lo, hi), lo, hi)) if lo != hi else ('c', lo)
                    h = Num(p, x, er, junk, len(chars)); h.empty = not chars
                    if reason:
                        R = ('A', 'reason', 0); st.mem[R] = {0: (ZERO, 'ptr', ('t', 'ptr'))}; ra = ('p', R, 0)
                    else:
                        ra = ZERO
                    if direct:
                        V = ('A', 'val', 0); st.mem[V] = {'*': (('any',), None)}
                        args = [s, ('p', V, 0), ra]
                        gv = lambda I, s1: I.load(s1, V, 0, 'i%d' % w, ('t', 'i%d' % w))
                    else:
                        cv = argobj(p, st, 1, 'cg_var', {'var_type': enum(p, 'CGV_' + nm.upper())}, 'cv')
                        o = member(p, 'cg_var', 'varu_' + nm)[0]
                        args = [s, cv, ra]
                        gv = lambda I, s1: I.load(s1, cv[1], o, 'i%d' % w, ('cg_var', o))
                    drive(fname, args, st, h, inside, gv, w, x, (nm, what))
                    if h.base - {ZERO, ('c', 16)} and ZERO not in h.base and ('c', 16) not in h.base:
                        bad('base|%s' % nm, 'cligen_cv.c %s' % fname, '%s: hexadecimal numbers are not converted' % nm)
            fns.append('%s (%s)' % (fname, nm))

    for nm, w, signed in INTS:
        number(nm, w, signed)

    # decimal64: number of fraction digits
    if 'parse_dec64' not in p.defined:
        raise Broken('parse_dec64 is not there')
    for what, lo, hi, ok in (('no fraction digits', 0, 0, False), ('1 to 18 fraction digits', 1, 18, True), ('1 fraction digit', 1, 1, True), ('18 fraction digits', 18, 18, True),
                             ('19 fraction digits', 19, 19, False), ('more fraction digits', 19, 127, False), ('more fraction digits', -128, -1, False)):
        for er in (0, 1):
            st = St()
            x = symav(T.get(('in', 'dec'), *I64)) if not er else ('c', I64[1])
            h = Num(p, x, er, 0, None); h.empty = False
            nn = symav(T.get(('in', 'nfd', lo, hi), lo, hi)) if lo != hi else ('c', lo)
            b = ('H', ('in', 'dectext'), 0); st.heap[b] = ('live', 'mem'); st.mem[b] = {'*': (('any',), None)}
            V = ('A', 'val', 0); st.mem[V] = {'*': (('any',), None)}
            f = p.defined['parse_dec64']
            I, ex = results(p, 'parse_dec64', [('p', b, 0), nn, ('p', V, 0), ZERO], st, [h], maxinline=8, when=when)
            n += 1
            acc = [e for e in ex if e[0] == ('c', 1) or e[0] is not None and interval(e[1], e[0])[1] >= 1]
            if acc and not ok:
                bad('dec|%s' % what, '%s parse_dec64' % f.loc(acc[0][2]), 'decimal64 with %s is accepted' % what)
            if acc and er:
                bad('dec|overflow', '%s parse_dec64' % f.loc(acc[0][2]), 'decimal64: a number too large to convert is accepted')
            if not er and ok:
                if not acc:
                    bad('dec|%s' % what, '%s parse_dec64' % f.loc(ex[0][2]), 'decimal64 with %s is never accepted' % what)
                for rv, s, ins in acc:
                    if norm(s, I.load(s, V, 0, 'i64', ('t', 'i64'))) != norm(s, x):
                        bad('dec|value', '%s parse_dec64' % f.loc(ins), 'decimal64: the value stored is not the one converted')
            if h.base - {('c', 10)}:
                bad('dec|base', '%s parse_dec64' % f.file, 'decimal64 digits are not read as decimal')
    fns.append('parse_dec64')

    # prefix lengths
    for t, mx, fld, addr, fam in (('CGV_IPV4PFX', 32, 'varipv4_masklen', 'varipv4_ipv4addr', 2), ('CGV_IPV6PFX', 128, 'varipv6_masklen', 'varipv6_ipv6addr', 10)):
        for what, lo, hi, ok in (('inside the bounds', 0, mx, True), ('0', 0, 0, True), (str(mx), mx, mx, True), ('-1', -1, -1, False), ('negative', I64[0], -1, False),
                                 (str(mx + 1), mx + 1, mx + 1, False), ('above the bounds', mx + 1, I64[1], False)):
            for pton in (1, 0):
                for slash in (1, 0):
                    for junk in (0, 1):
                        if junk and not slash:
                            continue
                        st = St()
                        s = text(st, ('pfx', slash), ['d', '/', 'd'] if slash else ['d'])
                        x = symav(T.get(('in', 'num', lo, hi), lo, hi)) if lo != hi else ('c', lo)
                        h = Num(p, x, 0, junk, 1); h.empty = False; h.ptonres = pton
                        cv = argobj(p, st, 1, 'cg_var', {'var_type': enum(p, t)}, 'cv')
                        o = member(p, 'cg_var', fld)[0]; ao = member(p, 'cg_var', addr)[0]
                        drive('cv_parse1', [s, cv, ZERO], st, h, bool(ok and pton and slash and not junk),
                              lambda I, s1: I.load(s1, cv[1], o, 'i8', ('cg_var', o)), 8, x,
                              (t, 'a prefix length %s%s' % (what, '' if slash else ' (missing)')) if pton else (t, 'an invalid address'))
                        if any(a != (('c', fam), ('p', cv[1], ao)) for a in h.pton):
                            bad('pton|%s' % t, 'cligen_cv.c cv_parse1', '%s: the address is read as another family or stored elsewhere' % t)
        fns.append('cv_parse1 (%s)' % t)
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS[:2] + ['strtoll and strtoull convert as documented; the digits decimal64 hands to them are not followed'],
            'coverage': dict(p.stats(), functions=fns, configurations=n,
            explanation='interval analysis of %d numeric parsers, specialised to every region of the converted value (%d configurations)' % (len(fns), n))}
