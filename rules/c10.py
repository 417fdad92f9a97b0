"""C10: the order of values.  cv_cmp is specialised to every value type and to every relation between the two values
(equal, before, after; for unsigned members also on either side of the sign bit; one or two members differing for
composite values) and its result must have the corresponding sign.  The byte and string comparisons of the C library
are represented by the sign of the relation between the members they are given, over the member's whole length.
co_eq and str_cmp: the sign of the result must change when the operands are swapped, and equal operands give 0."""
from scen import *
import itertools

INTS = [('CGV_INT8', 'varu_int8', 8, True), ('CGV_INT16', 'varu_int16', 16, True), ('CGV_INT32', 'varu_int32', 32, True),
        ('CGV_INT64', 'varu_int64', 64, True), ('CGV_UINT8', 'varu_uint8', 8, False), ('CGV_UINT16', 'varu_uint16', 16, False),
        ('CGV_UINT32', 'varu_uint32', 32, False), ('CGV_UINT64', 'varu_uint64', 64, False), ('CGV_BOOL', 'varu_bool', 8, False),
        ('CGV_DEC64', 'vardec64_i', 64, True)]
# composite: members in order of significance; how they are compared
COMP = {'CGV_STRING': [('varu_string', 'str')], 'CGV_REST': [('varu_string', 'str')], 'CGV_INTERFACE': [('varu_string', 'str')],
        'CGV_IPV4ADDR': [('varipv4_ipv4addr', 'mem')], 'CGV_IPV6ADDR': [('varipv6_ipv6addr', 'mem')],
        'CGV_IPV4PFX': [('varipv4_ipv4addr', 'mem'), ('varipv4_masklen', 'u8')],
        'CGV_IPV6PFX': [('varipv6_ipv6addr', 'mem'), ('varipv6_masklen', 'u8')],
        'CGV_MACADDR': [('varu_macaddr', 'mem')], 'CGV_UUID': [('varu_uuid', 'mem')],
        'CGV_URL': [('varurl_proto', 'str'), ('varurl_addr', 'str'), ('varurl_path', 'str'), ('varurl_user', 'str'), ('varurl_passwd', 'str')],
        'CGV_TIME': [('tv_sec', 's64'), ('tv_usec', 's64')], 'CGV_EMPTY': [], 'CGV_VOID': [('varu_void', 'ptr')]}
# order of significance is part of the meaning only for these
ORDERED = {'CGV_TIME', 'CGV_IPV4PFX', 'CGV_IPV6PFX'}
SIGN = {-1: 'before', 0: 'equal to', 1: 'after'}


class Rel(Hook):
    """results of the comparison functions of the C library, from the relation of what they are given"""
    def __init__(self):
        self.mem = {}; self.str = {}; self.unknown = set()

    def call(self, I, fr, ins, st, name, args):
        if name in ('memcmp', 'bcmp', 'strcmp', 'strverscmp', 'strcasecmp', 'strcoll', 'strncmp'):
            a, b = norm(st, args[0]), norm(st, args[1])
            s = None
            if a == b:
                s = 0
            elif name in ('memcmp', 'bcmp', 'strncmp'):
                n = norm(st, args[2])
                if isconst(n):
                    k = (a, b, cval(n)); r = (b, a, cval(n))
                    s = self.mem[k] if k in self.mem else -self.mem[r] if r in self.mem else None
                    if name != 'memcmp' and s:
                        s = None
            else:
                s = self.str[(a, b)] if (a, b) in self.str else -self.str[(b, a)] if (b, a) in self.str else None
            if s is None:
                self.unknown.add((name, fr.fn.loc(ins)))
                return None
            if s == 0:
                return [(ZERO, st)]
            rng = (1, (1 << 31) - 1) if s > 0 else (-(1 << 31), -1)
            return [(I.fresh(st, fr, ins['i'], ('sign', s), None, *rng), st)]
        return None


def sgn(s, rv):
    if rv is None:
        return None
    if rv == ZERO or decide(s, 'eq', rv, ZERO):
        return 0
    if decide(s, 'sgt', rv, ZERO):
        return 1
    if decide(s, 'slt', rv, ZERO):
        return -1
    return None


def pair(st, w, signed, rel, side, nm):
    """two symbols of width w related as rel; side: (lo1,hi1,lo2,hi2) in the signed representation"""
    a = T.get(('in', nm, 1, w, side), side[0], side[1]); b = T.get(('in', nm, 2, w, side), side[2], side[3])
    va, vb = symav(a), symav(b)
    if rel == 0:
        return va, va
    x, y = (va, vb) if rel < 0 else (vb, va)
    if signed or (side[0] < 0) == (side[2] < 0):
        d = linadd(x, y, -1)           # x <= y - 1
        st.rel[d[1]] = -1 - d[2]
    return va, vb


def sides(w, signed, rel):
    lo, hi = trange(w)
    if signed:
        return [(lo, hi, lo, hi)]
    P, N = (0, hi), (lo, -1)
    out = [P + P, N + N]
    if rel < 0:
        out.append(P + N)
    elif rel > 0:
        out.append(N + P)
    return out


def run(tier):
    p = program()
    fs = []; done = []; obl = 0
    f = p.defined.get('cv_cmp')
    if f is None or len(f.params) != 2:
        raise Broken('cv_cmp(cv1, cv2) is not there')

    def verdict(what, ex, want):
        for rv, s, ins in ex:
            got = sgn(s, rv)
            if got != want:
                r = interval(s, rv)
                fs.append(finding('cmp|%s' % what.split(',')[0], '%s cv_cmp' % f.loc(ins), '%s: the result may be %s' %
                                  (what, {0: 'zero', 1: 'positive', -1: 'negative', None: 'of another sign (%s..%s)' % r}[got]), 'sign of the comparison'))
                return
        if not ex:
            raise Broken('cv_cmp: no result for %s' % what)

    def obj(st, i, t, cells):
        return argobj(p, st, i, 'cg_var', dict({'var_type': enum(p, t)}, **cells), 'cv%d' % i)

    for t, m, w, signed in INTS:
        for rel in (-1, 0, 1):
            for side in sides(w, signed, rel):
                if t == 'CGV_BOOL':
                    side = (0, 1, 0, 1)
                st = St()
                a, b = pair(st, w, signed, rel, side, t)
                args = [obj(st, 1, t, {m: a}), obj(st, 2, t, {m: b})]
                I, ex = results(p, 'cv_cmp', args, st)
                verdict('%s, first %s second' % (t, SIGN[rel]), ex, rel); obl += 1
        done.append(t)
    for t, ms in COMP.items():
        combos = [()] if not ms else itertools.product((-1, 0, 1), repeat=len(ms))
        for signs in combos:
            nz = [i for i, x in enumerate(signs) if x]
            if len(nz) > 2:
                continue
            res = []
            for swap in (False, True):
                variants = [0, 1, 2] if any(k == 'u8' for _, k in ms) else [0]
                for var in variants:
                    st = St(); h = Rel(); cells = ({}, {}); skip = False
                    bases = [('D', T.get(('arg', 'cv%d' % i, 'ptr'), 0, INF)) for i in (1, 2)]
                    for (m, kind), r in zip(ms, signs):
                        o, sz, ty = member(p, 'cg_var' if kind != 's64' or m != 'tv_sec' and m != 'tv_usec' else 'timeval', m)
                        if kind == 'str':
                            if r == 0:
                                pass
                            A, B = [('p', ('H', ('in', t, m, i), 0), 0) for i in (1, 2)]
                            for q in (A, B):
                                st.heap[q[1]] = ('live', 'mem'); st.mem[q[1]] = {'*': (('any',), None)}
                            cells[0][m], cells[1][m] = A, B
                            h.str[(A, B)] = r
                        elif kind == 'mem':
                            h.mem[(('p', bases[0], o), ('p', bases[1], o), sz)] = r
                        elif kind == 'ptr':
                            A, B = [ptrav(T.get(('in', t, m, i), 1, INF)) for i in (1, 2)]
                            if r == 0:
                                cells[0][m] = cells[1][m] = A
                            else:
                                skip = True
                        elif kind == 'u8':
                            sd = sides(8, False, r)
                            if var >= len(sd):
                                skip = True; continue
                            a, b = pair(st, 8, False, r, sd[var], (t, m))
                            cells[0][m], cells[1][m] = a, b
                        else:
                            a, b = pair(st, 64, True, r, trange(64) * 2, (t, m))
                            cells[0][m], cells[1][m] = a, b
                    if skip:
                        continue
                    tv = {}
                    for c in cells:
                        tv.update({k: None for k in c})
                    args = []
                    for i in (0, 1):
                        args.append(objm(p, st, i + 1, t, cells[i]))
                    if swap:
                        args.reverse()
                    I, ex = results(p, 'cv_cmp', args, st, [h])
                    obl += 1
                    what = '%s, %s' % (t, ', '.join('%s %s' % (m, SIGN[r]) for (m, k), r in zip(ms, signs) if r) or 'equal')
                    if not nz:
                        want = 0
                    elif len(nz) == 1 or t in ORDERED:
                        want = -signs[nz[0]] if swap else signs[nz[0]]
                    else:
                        got = {sgn(s, rv) for rv, s, ins in ex}
                        res.append(got)
                        if len(res) == 2 and (len(res[0]) != 1 or len(res[1]) != 1 or None in res[0] | res[1] or 0 in res[0] | res[1] or
                                              res[0] == res[1]):
                            fs.append(finding('swap|%s' % t, '%s cv_cmp' % f.loc(ex[0][2]), '%s: swapping the operands does not swap the sign' % what, 'antisymmetry'))
                        continue
                    verdict(what + (' (operands swapped)' if swap else ''), ex, want)
        done.append(t)
    # strings: null first, equal pointers equal, order of operands
    fsc = p.defined.get('str_cmp')
    if fsc is None:
        raise Broken('str_cmp is not there')
    for (n1, n2), want in {(0, 0): 0, (0, 1): -1, (1, 0): 1}.items():
        st = St()
        a = [ptrav(T.get(('in', 'sc', i), 1, INF)) if x else ZERO for i, x in ((1, n1), (2, n2))]
        I, ex = results(p, 'str_cmp', a, st); obl += 1
        for rv, s, ins in ex:
            if sgn(s, rv) != want:
                fs.append(finding('str|%s%s' % (n1, n2), '%s str_cmp' % fsc.loc(ins), 'comparing %s string with %s string does not give %d' % ('a' if n1 else 'no', 'a' if n2 else 'no', want), 'null strings'))
    for r in (-1, 0, 1):
        out = []
        for swap in (0, 1):
            st = St(); h = Rel()
            A, B = [ptrav(T.get(('in', 'sc', i), 1, INF)) for i in (1, 2)]
            st.facts[A[1][1]] = st.facts[B[1][1]] = (1, INF, ())
            h.str[(A, B)] = r
            I, ex = results(p, 'str_cmp', [B, A] if swap else [A, B], st, [h]); obl += 1
            for rv, s, ins in ex:
                if sgn(s, rv) != (-r if swap else r):
                    fs.append(finding('str|%d' % r, '%s str_cmp' % fsc.loc(ins), 'the order of the two strings is not the one of the string comparison', 'strings'))
    nodes(p, fs, done)
    if len(done) < 22:
        raise Broken('only %d types' % len(done))
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS[:2] + ['decimal64 values are compared with the same number of fraction digits', 'opaque pointer values are compared for equality only'],
            'coverage': dict(p.stats(), types=done, obligations=obl,
            explanation='sign analysis of cv_cmp specialised to %d value types and every relation of their members (%d cases), and of str_cmp and co_eq' % (len(INTS) + len(COMP), obl))}


def objm(p, st, i, t, cells):
    s = T.get(('arg', 'cv%d' % i, 'ptr'), 0, INF)
    st.facts[s] = (1, INF, ())
    m = st.mem.setdefault(('D', s), {})
    o, sz, ty = member(p, 'cg_var', 'var_type')
    m[o] = (('c', enum(p, t)), 'i32', ('cg_var', o))
    for n, v in cells.items():
        if n in ('tv_sec', 'tv_usec'):
            o = member(p, 'cg_var', 'varu_time')[0] + {'tv_sec': 0, 'tv_usec': 8}[n]
            m[o] = (v, 'i64', ('cg_var', o))
        else:
            o, sz, ty = member(p, 'cg_var', n)
            m[o] = (v, lltype(sz, ty), ('cg_var', o))
    return ptrav(s)


def nodes(p, fs, done):
    """co_eq: node types"""
    f = p.defined.get('co_eq')
    if f is None:
        raise Broken('co_eq is not there')
    types = ['CO_COMMAND', 'CO_VARIABLE', 'CO_REFERENCE', 'CO_EMPTY']
    for t1 in types:
        for t2 in types:
            for r in (-1, 0, 1):
                got = []
                for swap in (0, 1):
                    st = St(); h = Rel()
                    A, B = [ptrav(T.get(('in', 'nm', i), 1, INF)) for i in (1, 2)]
                    st.facts[A[1][1]] = st.facts[B[1][1]] = (1, INF, ())
                    h.str[(A, B)] = r
                    objs = []
                    for i, t, nm in ((1, t1, A), (2, t2, B)):
                        c = {'coc_type': enum(p, t), 'coc_command': nm}
                        if t == 'CO_VARIABLE':
                            c.update({'cgs_vtype': enum(p, 'CGV_STRING'), 'cgs_expand_fn_str': 0, 'cgs_choice': nm if t1 == t2 else 0, 'cgs_regex': 0, 'cgs_rangelen': 0})
                        objs.append(argobj(p, st, i, 'cg_obj', c, 'co%d' % i))
                    I, ex = results(p, 'co_eq', objs[::-1] if swap else objs, st, [h])
                    got.append({sgn(s, rv) for rv, s, ins in ex})
                    loc = f.loc(ex[0][2])
                ok = len(got[0]) == 1 and len(got[1]) == 1 and None not in got[0] and None not in got[1] and list(got[0])[0] == -list(got[1])[0]
                if ok and t1 == t2 and list(got[0])[0] != (0 if t1 == 'CO_EMPTY' else r):
                    ok = False
                if not ok:
                    fs.append(finding('node|%s|%s' % tuple(sorted((t1, t2))), '%s co_eq' % loc, 'comparing a %s with a %s node: swapping the operands does not swap the sign, or equal nodes are told apart' % (t1, t2), 'antisymmetry'))
    done.append('co_eq')
