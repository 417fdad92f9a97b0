"""C09: ranges and lengths.  cv_validate is specialised to every type with limits, to 0..3 declared intervals and to
every position of the value with respect to each of them (below, at the lower limit, inside, at the upper limit, above,
or with no lower limit): it must answer 1 exactly when some interval contains the value."""
from scen import *
from c10 import sides
import itertools

# type, member holding the value, width, signed
TYPES = [('CGV_INT8', 'varu_int8', 8, True), ('CGV_INT16', 'varu_int16', 16, True), ('CGV_INT32', 'varu_int32', 32, True),
         ('CGV_INT64', 'varu_int64', 64, True), ('CGV_UINT8', 'varu_uint8', 8, False), ('CGV_UINT16', 'varu_uint16', 16, False),
         ('CGV_UINT32', 'varu_uint32', 32, False), ('CGV_UINT64', 'varu_uint64', 64, False), ('CGV_DEC64', 'vardec64_i', 64, True),
         ('CGV_STRING', 'varu_uint64', 64, False), ('CGV_REST', 'varu_uint64', 64, False)]
POS = ['below', 'low', 'inside', 'upp', 'above', 'point', 'free-in', 'free-upp', 'free-above']
IN = {'low', 'inside', 'upp', 'point', 'free-in', 'free-upp'}


class Len(Hook):
    def __init__(self, s, n, rx):
        self.s = s; self.n = n; self.rx = rx

    def call(self, I, fr, ins, st, name, args):
        if name == 'strlen' and norm(st, args[0]) == self.s:
            return [(self.n, st)]
        if name == 'match_regexp':
            return [(self.rx, st)]
        return None


class Shape:
    """builds value and limits with the wanted relations"""
    def __init__(self, st, w, signed, side):
        self.st = st; self.w = w; self.signed = signed; self.n = 0
        self.side = side
        self.v = self.new('v', *side)

    def new(self, nm, lo, hi):
        self.n += 1
        return symav(T.get(('in', 'rng', nm, self.n, self.w, lo, hi), lo, hi))

    def lt(self, a, b):
        d = linadd(a, b, -1)
        self.st.rel[d[1]] = -1 - d[2]


def limits(sh, pos, split):
    """(low or None, upp) for one interval; split: the limit below/above v lies in the other half (unsigned types)"""
    v = sh.v; lo, hi = sh.side
    tlo, thi = trange(sh.w)
    neg = hi < 0 if not sh.signed else None
    def less():
        if not sh.signed and neg and split:
            return sh.new('l', 0, thi)                      # other half: smaller without further relation
        x = sh.new('l', lo, hi) if not sh.signed else sh.new('l', tlo, thi)
        sh.lt(x, v)
        return x
    def more():
        if not sh.signed and neg is False and split:
            return sh.new('u', tlo, -1)
        x = sh.new('u', lo, hi) if not sh.signed else sh.new('u', tlo, thi)
        sh.lt(v, x)
        return x
    if pos == 'below':
        a = more()
        b = sh.new('w', *trange(sh.w))
        return a, b
    if pos == 'low':
        return v, more()
    if pos == 'inside':
        return less(), more()
    if pos == 'upp':
        return less(), v
    if pos == 'point':
        return v, v
    if pos == 'above':
        a = sh.new('x', *trange(sh.w))
        return a, less()
    if pos == 'free-in':
        return None, more()
    if pos == 'free-upp':
        return None, v
    return None, less()


def run(tier):
    p = program()
    fs = []; n = 0; types = []
    f = p.defined.get('cv_validate')
    if f is None or len(f.params) != 5:
        raise Broken('cv_validate is not there in the known form')
    csz = p.ditypes['cg_var']['size']
    seen = set()

    def one(t, m, w, signed, poss, side, split, regex=None):
        nonlocal n
        st = St()
        sh = Shape(st, w, signed, side)
        lows, upps = [], []
        for i, po in enumerate(poss):
            a, b = limits(sh, po, split)
            lows.append(a); upps.append(b)
        vo, vs, vt = member(p, 'cg_var', m)
        to = member(p, 'cg_var', 'var_type')[0]
        isstr = t in ('CGV_STRING', 'CGV_REST')

        def vec(nm, vals):
            e = ('H', ('in', nm, 'elems'), 0); c = ('H', ('in', nm, 'cvec'), 0)
            for b in (e, c):
                st.heap[b] = ('live', 'mem')
            cells = {'*': (ZERO, None)}
            for i, x in enumerate(vals):
                cells[i * csz + to] = (('c', enum(p, 'CGV_EMPTY') if x is None else enum(p, 'CGV_UINT64' if isstr else t)), 'i32', ('cg_var', to))
                cells[i * csz + vo] = (x or ZERO, lltype(vs, vt), ('cg_var', vo))
            st.mem[e] = cells
            d = {k: member(p, 'cvec', k)[0] for k in ('vr_vec', 'vr_len')}
            st.mem[c] = {'*': (ZERO, None), d['vr_vec']: (('p', e, 0), 'ptr', ('cvec', d['vr_vec'])),
                         d['vr_len']: (('c', len(vals)), 'i32', ('cvec', d['vr_len']))}
            return ('p', c, 0)
        cs = {'cgs_vtype': enum(p, t), 'cgs_rangelen': len(poss), 'cgs_dec64_n': 4}
        cs['cgs_rangecvv_low'] = vec('low', lows) if poss else ZERO
        cs['cgs_rangecvv_upp'] = vec('upp', upps) if poss else ZERO
        cs['cgs_regex'] = ZERO
        S = ('p', ('H', ('in', 'str'), 0), 0)
        st.heap[S[1]] = ('live', 'mem'); st.mem[S[1]] = {'*': (('any',), None)}
        if isstr:
            cv = {'var_type': enum(p, t), 'varu_string': S}
            if regex is not None:
                cs['cgs_regex'] = vecstr(p, st, csz, to)
        else:
            cv = {'var_type': enum(p, t), m: sh.v}
            if t == 'CGV_DEC64':
                cv['vardec64_n'] = 4
        h = Len(S, sh.v, val(regex) if regex is not None else ZERO)
        args = [argobj(p, st, 0, 'cligen_handle', {}, 'h'), argobj(p, st, 1, 'cg_var', cv, 'cv'),
                argobj(p, st, 2, 'cg_varspec', cs, 'cs'), ptrav(T.get(('arg', 'cmd', 'ptr'), 0, INF)), ZERO]
        want = (not poss or any(x in IN for x in poss)) and regex != 0
        I, ex = results(p, 'cv_validate', args, st, [h], maxinline=8,
                        when=lambda fn, a: fn.file in ('cligen_cv.c', 'cligen_cvec.c') and fn.name not in ('cv2cbuf', 'cv2str'))
        n += 1
        got = set()
        for rv, s, ins in ex:
            g = 1 if rv == ('c', 1) else 0 if rv == ZERO else -1 if rv is not None and interval(s, rv)[1] < 0 else None
            if isstr and regex is not None and g is None and rv is not None:
                g = None
            got.add(g)
        if not ex:
            raise Broken('cv_validate: no result for %s' % t)
        bad = got != {1} if want else bool(got - {0, -1}) or 0 not in got
        if bad:
            k = 'range|%s|%s' % (t, 'refused' if want else 'accepted')
            if k in seen:
                return
            seen.add(k)
            where = {'below': 'below', 'low': 'at the lower limit of', 'inside': 'inside', 'upp': 'at the upper limit of', 'above': 'above',
                     'point': 'at the only value of', 'free-in': 'below the upper limit (no lower limit) of', 'free-upp': 'at the upper limit (no lower limit) of',
                     'free-above': 'above the upper limit (no lower limit) of'}
            what = ', '.join('%s interval %d' % (where[x], i + 1) for i, x in enumerate(poss)) or 'without declared limits'
            fs.append(finding(k, '%s cv_validate' % f.loc(ex[0][2]), '%s value %s%s: not always %s' %
                              (t, what, '' if regex is None else ' (regular expression %s)' % ('matches' if regex else 'does not match'),
                               'accepted' if want else 'refused'), 'inclusive intervals, any one is enough'))

    for t, m, w, signed in TYPES:
        lo, hi = trange(w)
        ss = [(lo, hi)] if signed else [(0, hi), (lo, -1)]
        if t in ('CGV_STRING', 'CGV_REST'):
            ss = [(0, (1 << 62))]
        for side in ss:
            for split in ((0,) if signed else (0, 1)):
                one(t, m, w, signed, (), side, split)
                for a in POS:
                    one(t, m, w, signed, (a,), side, split)
                two = ['below', 'low', 'inside', 'upp', 'above']
                for a in two:
                    for b in two:
                        one(t, m, w, signed, (a, b), side, split)
                if not split:
                    for c in itertools.product(('below', 'inside', 'above'), repeat=3):
                        one(t, m, w, signed, c, side, split)
        if t in ('CGV_STRING', 'CGV_REST'):
            for rx in (0, 1):
                for c in ((), ('inside',), ('above',), ('above', 'low')):
                    one(t, m, w, signed, c, ss[0], 0, rx)
        types.append(t)
    matching(p, fs)
    building(p, fs)
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS[:2] + ['at most three intervals are distinguished; further ones are handled by the same loop'],
            'coverage': dict(p.stats(), types=types, configurations=n,
            explanation='interval analysis of cv_validate specialised to %d types, 0 to 3 intervals and every position of the value (%d configurations)' % (len(types), n))}


def vecstr(p, st, csz, to):
    e = ('H', ('in', 'rx', 'elems'), 0); c = ('H', ('in', 'rx', 'cvec'), 0)
    for b in (e, c):
        st.heap[b] = ('live', 'mem')
    so = member(p, 'cg_var', 'varu_string')[0]
    R = ('p', ('H', ('in', 'rxs'), 0), 0)
    st.heap[R[1]] = ('live', 'mem'); st.mem[R[1]] = {'*': (('any',), None)}
    st.mem[e] = {'*': (ZERO, None), to: (('c', enum(p, 'CGV_STRING')), 'i32', ('cg_var', to)), so: (R, 'ptr', ('cg_var', so))}
    d = {k: member(p, 'cvec', k)[0] for k in ('vr_vec', 'vr_len')}
    st.mem[c] = {'*': (ZERO, None), d['vr_vec']: (('p', e, 0), 'ptr', ('cvec', d['vr_vec'])), d['vr_len']: (('c', 1), 'i32', ('cvec', d['vr_len']))}
    return ('p', c, 0)


class Steps(Hook):
    """the given answers for the given steps; what each was called with"""
    def __init__(self, answers):
        self.a = answers; self.log = []

    def call(self, I, fr, ins, st, name, args):
        if name in self.a:
            self.log.append((name, [norm(st, x) for x in args], st))
            r = self.a[name]
            r = r(args, st) if callable(r) else r
            return [(r, st)]
        return None


def matching(p, fs):
    """a token is accepted for a variable only if its value is both parsed and validated"""
    f = p.defined.get('match_variable')
    if f is None:
        raise Broken('match_variable is not there')
    for t in ('CGV_INT8', 'CGV_UINT32', 'CGV_INT64', 'CGV_DEC64', 'CGV_STRING', 'CGV_IPV4ADDR'):
        for parse in (0, 1):
            for ok in (0, 1):
                st = St()
                co = argobj(p, st, 1, 'cg_obj', {'coc_type': enum(p, 'CO_VARIABLE'), 'cgs_vtype': enum(p, t)}, 'co')
                CV = ('H', ('in', 'newcv'), 0)

                def new(args, s):
                    s.heap[CV] = ('live', 'mem'); s.mem[CV] = {'*': (ZERO, None)}
                    return ('p', CV, 0)
                h = Steps({'cv_new': new, 'cv_parse1': val(parse), 'cv_parse': val(parse), 'cv_validate': val(ok), 'cv_free': ZERO, 'cv_reset': ZERO})
                args = [ptrav(T.get(('arg', 'h', 'ptr'), 0, INF)), co, ptrav(T.get(('arg', 'str', 'ptr'), 1, INF)), ptrav(T.get(('arg', 'reason', 'ptr'), 1, INF))]
                I, ex = results(p, 'match_variable', args, st, [h])
                want = ('c', parse and ok)
                for rv, s, ins in ex:
                    if rv != want:
                        fs.append(finding('match|%s|%d%d' % (t, parse, ok), '%s match_variable' % f.loc(ins), 'a %s token that is %s and %s is not %s' %
                                          (t, 'parsed' if parse else 'not parsed', 'within its limits' if ok else 'outside its limits', 'accepted' if parse and ok else 'refused'), 'every value is validated'))
                for nm, a, s in h.log:
                    if nm == 'cv_validate' and (a[1] != ('p', CV, 0) or a[2] != ('p', co[1], member(p, 'cg_obj', 'cgs_vtype')[0])):
                        fs.append(finding('match|args', '%s match_variable' % f.file, 'validates another value or against another specification', 'every value is validated'))


def building(p, fs):
    """one declared interval adds one lower and one upper limit, of the type the values are compared in"""
    for n in ('cg_range', 'cg_length', 'cg_range_create'):
        if n not in p.defined:
            raise Broken('%s is not there' % n)
    for n, t, want in (('cg_range', 'CGV_INT16', 'CGV_INT16'), ('cg_range', 'CGV_UINT64', 'CGV_UINT64'), ('cg_range', 'CGV_DEC64', 'CGV_DEC64'), ('cg_length', 'CGV_STRING', 'CGV_UINT64')):
        for have in (0, 1):
            for low in (0, 1):
                f = p.defined[n]
                st = St()
                old = sym('oldlen', 0, 1000)
                cells = {'coc_type': enum(p, 'CO_VARIABLE'), 'cgs_vtype': enum(p, t), 'cgs_rangelen': old,
                         'cgs_rangecvv_low': None if have else 0, 'cgs_rangecvv_upp': None if have else 0}
                co = argobj(p, st, 9, 'cg_obj', cells, 'yv')
                cy = argobj(p, st, 0, 'cligen_parse_yacc', {'cy_var': co}, 'cy')
                L, U = [ptrav(T.get(('arg', x, 'ptr'), 1, INF)) for x in ('low', 'upp')]
                made = []; kept = {}

                def new(args, s):
                    b = ('H', ('in', 'cv', len(made)), 0)
                    made.append((b, norm(s, args[0])))
                    s.heap[b] = ('live', 'mem'); s.mem[b] = {'*': (ZERO, None)}
                    return ('p', b, 0)

                def note(a, s):
                    to = member(p, 'cg_var', 'var_type')[0]
                    kept[a] = norm(s, s.mem.get(a[1], {}).get(to, (ZERO,))[0]) if a[0] == 'p' else None

                def app(args, s):
                    note(norm(s, args[1]), s)
                    return ptrav(T.get(('in', 'app'), 1, INF))

                def vec(args, s):
                    note(norm(s, args[0]), s)
                    b = ('H', ('in', 'vec', norm(s, args[0])), 0)
                    s.heap[b] = ('live', 'mem'); s.mem[b] = {'*': (ZERO, None)}
                    return ('p', b, 0)
                h = Steps({'cv_new': new, 'cv_parse1': ('c', 1), 'cvec_from_var': vec, 'cvec_append_var': app,
                           'cv_free': ZERO, 'cv_name_set': lambda a, s: ptrav(T.get(('in', 'nm'), 1, INF))})
                I, ex = results(p, n, [cy, L if low else ZERO, U], st, [h])
                bad = None
                lo_, up_ = [ptrav(T.get(('in', 'cg_obj', x, 'yv'), 1, INF)) if have else None for x in ('cgs_rangecvv_low', 'cgs_rangecvv_upp')]
                parsed = {a[0]: a[1] for nm, a, s in h.log if nm == 'cv_parse1'}
                if any(ty != ('c', enum(p, want)) for b, ty in made):
                    bad = 'the limits are not of type %s' % want
                for rv, s, ins in ex:
                    if rv != ZERO:
                        bad = bad or 'fails although every step succeeded'
                        continue
                    o = member(p, 'cg_obj', 'cgs_rangelen')[0]
                    if norm(s, s.mem[co[1]][o][0]) != linadd(old, ('c', 1)):
                        bad = bad or 'the number of intervals does not grow by one'
                    if set(parsed) != ({L, U} if low else {U}):
                        bad = bad or 'a limit is not parsed'
                    for x, lim, fld in ((L, lo_, 'cgs_rangecvv_low'), (U, up_, 'cgs_rangecvv_upp')):
                        cv = parsed.get(x)
                        if cv is None and not low:
                            other = [b for b, ty in made if ('p', b, 0) != parsed.get(U)]
                            if len(other) != 1:
                                bad = bad or 'no entry for the missing lower limit'; continue
                            cv = ('p', other[0], 0)
                            if kept.get(cv) != ('c', enum(p, 'CGV_EMPTY')):
                                bad = bad or 'a missing lower limit is not kept as such'
                        if have:
                            if not any(nm == 'cvec_append_var' and a == [lim, cv] for nm, a, s0 in h.log):
                                bad = bad or 'a limit is not appended to its vector'
                        else:
                            fo = member(p, 'cg_obj', fld)[0]
                            if norm(s, s.mem[co[1]].get(fo, (ZERO,))[0]) != ('p', ('H', ('in', 'vec', cv), 0), 0):
                                bad = bad or 'a limit is not put into its vector'
                if not ex:
                    raise Broken('%s: no result' % n)
                if bad:
                    fs.append(finding('build|%s' % n, '%s:%s %s' % (f.file, f.line, n), '%s: %s' % (n, bad), 'declared intervals'))
