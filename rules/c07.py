"""C07: every type of value is treated as that type by every operation that dispatches on it.

The operations are specialised to each type.  Their reads and writes of the value are collected byte by byte and must
stay inside the members that belong to the type; printing must read all of them and show exactly the value (integers
for every region of the member, strings and addresses as the stored ones, in the documented order), parsing must set all of
them, the length must be that of the members, copying must keep type and value and releasing must leave the type with
no value.  The two name tables are evaluated against each other and against the documented names."""
from cvt import *


def run(tier):
    p = program()
    fs = []; obl = 0; fns = {}; seen = set()
    uo, usz = union(p)
    hi = uo + usz
    types = [t for t in MEMBERS if t in p.enumval]
    if len(types) < 23:
        raise Broken('only %d value types are declared' % len(types))
    for n in ('cv2cbuf', 'cv2str', 'cv_print', 'cv_len', 'cv_parse1', 'cv_cp', 'cv_reset', 'cv_max_set', 'cv_min_set', 'cv_type2str', 'cv_str2type', 'cv_cmp'):
        if n not in p.defined:
            raise Broken('%s is not there' % n)

    def bad(key, where, msg, rule):
        if key not in seen:
            seen.add(key)
            fs.append(finding(key, where, msg, rule))

    def names(s):
        out = []
        for m in sorted({m for ms in MEMBERS.values() for m in ms}):
            if span(p, [m]) <= s and span(p, [m]):
                out.append(m)
        return ', '.join(out[:3]) or 'bytes %s' % sorted(s)[:4]

    def foot(fn, t, h, read=None, written=None, allowed=None):
        """bytes touched inside the type; every byte of the given sets touched"""
        mine = allowed if allowed is not None else span(p, MEMBERS[t] + EXTRA.get(t, []))
        for d, w in ((h.r, 'reads'), (h.w, 'writes')):
            for k, where in sorted(d.items()):
                if k not in mine:
                    bad('foot|%s|%s' % (fn, t), '%s %s' % (where, fn), '%s of a %s value %s a part of the value that does not belong to the type' % (fn, t, w), 'footprint per type')
        if read is not None and read - set(h.r):
            bad('reads|%s|%s' % (fn, t), '%s:%s %s' % (p.defined[fn].file, p.defined[fn].line, fn), '%s of a %s value does not look at all of the value' % (fn, t), 'footprint per type')

    def base(i=0, name='cv'):
        return ('D', T.get(('arg', name, 'ptr'), 0, INF))

    def cv(st, t, cells=None, i=0, name='cv'):
        c = {'var_type': enum(p, t)}
        if t in STRS or t == 'CGV_URL':
            c.update({m: None for m in MEMBERS[t]})
        c.update(cells or {})
        return argobj(p, st, i, 'cg_var', c, name)

    # ---- printers
    def call_printer(fn, t, cells):
        nonlocal obl
        st = St()
        f = p.defined[fn]
        args = []; dst = None
        for i, q in enumerate(f.params):
            if i == (1 if fn == 'cv_print' else 0):
                args.append(cv(st, t, cells))
            elif q['t'] == 'ptr':
                a = argobj(p, st, i, 'cg_var', {}, ('o', i))
                args.append(a); dst = a[1]
            else:
                args.append(sym('size', 1, 1 << 20))
        h = Foot(base(), uo, hi); o = Out()
        I, ex = results(p, fn, args, st, [h, o], maxinline=6, when=lambda g, a: g.file.endswith('cligen_cv.c'))
        obl += 1
        outs = []
        for rv, s, ins in ex:
            if rv is not None and interval(s, rv)[1] < 0:
                continue
            outs.append((o.get(s, dst) if fn != 'cv2str_dup' else None, s, ins))
        for w, m in o.bad:
            bad('format|%s' % w, '%s %s' % (w, fn), '%s of a %s value: %s' % (fn, t, m), 'format')
        if not outs:
            raise Broken('%s: no result for %s' % (fn, t))
        return h, outs

    def lits(it):
        return ''.join(x[1] for x in it if x[0] == 'lit')

    def wrong(fn, t, ins, msg):
        bad('print|%s|%s' % (fn, t), '%s %s' % (p.defined[fn].loc(ins), fn), '%s of a %s value %s' % (fn, t, msg), 'printed as its type')

    def isaddr(it, fam, t):
        if it[0] != 'addr':
            return False
        o, sz, ty = member(p, 'cg_var', MEMBERS[t][0])
        if it[2] == ('p', base(), o):
            return it[1] in (('c', fam), fam)
        return it[1] == 2 and fam == 2 and 'word' in str(T.desc[it[2][1][0][0]] if it[2][0] == 'l' else '')

    PR = ['cv2cbuf', 'cv2str', 'cv_print']
    for fn in PR:
        for t in types:
            ms = MEMBERS[t]
            if t in INTS or t == 'CGV_BOOL':
                m, w, signed = INTS.get(t, ('varu_bool', 8, False))
                lo, top = trange(w)
                regs = [(0, 0), (1, 1)] if t == 'CGV_BOOL' else [(0, top), (lo, -1)]
                for r in regs:
                    x = T.get(('in', 'value', t, r), *r)
                    h, outs = call_printer(fn, t, {m: symav(x) if r[0] != r[1] else r[0]})
                    foot(fn, t, h, span(p, ms))
                    for it, s, ins in outs:
                        if t == 'CGV_BOOL':
                            if lits(it) != ('true' if r[0] else 'false') or any(k[0] != 'lit' for k in it):
                                wrong(fn, t, ins, 'that is %s does not show %s' % (('false', 'true')[r[0]], ('false', 'true')[r[0]]))
                            continue
                        if len(it) != 1 or it[0][0] != 'int' or it[0][4]:
                            wrong(fn, t, ins, 'is not the number alone'); continue
                        for v in r:
                            if printed(it[0], x, v) != (v if signed or v >= 0 else v + (1 << w)):
                                wrong(fn, t, ins, 'shows another number than the value (%d as %s)' % (v if signed or v >= 0 else v + (1 << w), printed(it[0], x, v))); break
                continue
            cells = {}
            if t == 'CGV_DEC64':
                cells = {'vardec64_n': sym('fd', 1, 18)}
            if t in ('CGV_IPV4PFX', 'CGV_IPV6PFX'):
                ml = T.get(('in', 'masklen', t), 0, 127); cells = {ms[1]: symav(ml)}
            if t in ('CGV_IPV4ADDR', 'CGV_IPV4PFX'):
                cells[ms[0]] = symav(T.get(('in', 'word', t), *trange(32)))
            if t == 'CGV_MACADDR':
                pass
            if t == 'CGV_VOID':
                pv = T.get(('in', 'void'), 1, INF); cells = {ms[0]: ptrav(pv)}
            h, outs = call_printer(fn, t, cells)
            foot(fn, t, h, span(p, ms))
            for it, s, ins in outs:
                if t in STRS:
                    o = member(p, 'cg_var', ms[0])[0]
                    want = norm(s, ptrav(T.get(('in', 'cg_var', ms[0], 'cv'), 1, INF)))
                    if fn == 'cv_print' and len(it) == 3 and it[0] == it[2] == ('lit', '"'):
                        it = it[1:2]         # a file gets quoted strings
                    if len(it) != 1 or it[0][0] != 'str' or norm(s, it[0][1]) != want:
                        wrong(fn, t, ins, 'does not show exactly the string')
                elif t == 'CGV_URL':
                    want = [norm(s, ptrav(T.get(('in', 'cg_var', m, 'cv'), 1, INF))) for m in ms]
                    got = [norm(s, x[1]) for x in it if x[0] == 'str']
                    if [g for g in got if g in want] != want:
                        wrong(fn, t, ins, 'does not show protocol, user, password, address and path in that order')
                    elif not lits(it).startswith('://') or '/' not in lits(it)[3:]:
                        wrong(fn, t, ins, 'is not written as a URL')
                elif t in ('CGV_IPV4ADDR', 'CGV_IPV6ADDR', 'CGV_IPV4PFX', 'CGV_IPV6PFX'):
                    fam = 2 if 'V4' in t else 10
                    if not it or not isaddr(it[0], fam, t):
                        wrong(fn, t, ins, 'does not show its address'); continue
                    if t.endswith('PFX'):
                        if len(it) != 3 or it[1] != ('lit', '/') or it[2][0] != 'int' or it[2][4] or any(printed(it[2], ml, v) != v for v in (0, 32, 127)):
                            wrong(fn, t, ins, 'does not show its mask length after a slash')
                    elif len(it) != 1:
                        wrong(fn, t, ins, 'shows more than the address')
                elif t in ('CGV_MACADDR', 'CGV_UUID'):
                    n = len(span(p, ms)); o = member(p, 'cg_var', ms[0])[0]
                    nums = [x for x in it if x[0] == 'int']
                    if len(nums) != n or any(x[3] not in 'xX' or not x[4].startswith('02') for x in nums):
                        wrong(fn, t, ins, 'is not %d two-digit hexadecimal bytes' % n); continue
                    for k, x in enumerate(nums):
                        if not bytenum(s, x, base(), o + k):
                            wrong(fn, t, ins, 'does not show byte %d in its place' % k); break
                elif t == 'CGV_VOID':
                    if len(it) != 1 or it[0][0] != 'ptr' or norm(s, it[0][1]) != norm(s, ptrav(pv)):
                        wrong(fn, t, ins, 'does not show the pointer')
                elif t in ('CGV_EMPTY', 'CGV_ERR'):
                    if it:
                        wrong(fn, t, ins, 'shows something')
                elif not it:
                    wrong(fn, t, ins, 'shows nothing')
        fns[fn] = len(types)

    # ---- length
    f = p.defined['cv_len']
    for t in types:
        st = St(); a = cv(st, t)
        lens = {}

        class Len(Hook):
            def call(self, I, fr, ins, st, name, args):
                if name == 'strlen':
                    v = norm(st, args[0])
                    if v not in lens:
                        lens[v] = sym(('len', t, len(lens)), 0, 1 << 20)
                    return [(lens[v], st)]
        h = Foot(base(), uo, hi)
        I, ex = results(p, 'cv_len', [a], st, [h, Len()]); obl += 1
        foot('cv_len', t, h, span(p, MEMBERS[t]) if t in OWNED else None)
        for rv, s, ins in ex:
            if t in OWNED:
                want = len(MEMBERS[t])
                e = ('c', want)
                for v in lens.values():
                    e = linadd(e, v, 1)
                ok = len(lens) == want and norm(s, rv) == norm(s, e)
            else:
                want = len(span(p, MEMBERS[t]))
                # a prefix is kept in a structure of its own, whose size may be meant
                ok = rv == ('c', want) or t == 'CGV_IPV4PFX' and rv == ('c', member(p, 'cg_var', 'varu_ipv4addr')[1]) or \
                    t == 'CGV_IPV6PFX' and rv == ('c', member(p, 'cg_var', 'varu_ipv6addr')[1])
            if not ok:
                bad('len|%s' % t, '%s cv_len' % f.loc(ins), 'the length of a %s value is not that of %s' % (t, 'its strings with their terminators' if t in OWNED else 'its %d bytes' % want), 'length of the type')
    fns['cv_len'] = len(types)

    # ---- largest and smallest value
    for fn in ('cv_max_set', 'cv_min_set'):
        f = p.defined[fn]
        for t in types:
            st = St(); a = cv(st, t)
            h = Foot(base(), uo, hi)
            I, ex = results(p, fn, [a], st, [h]); obl += 1
            foot(fn, t, h)
            for rv, s, ins in ex:
                if t in INTS or t in ('CGV_DEC64', 'CGV_BOOL'):
                    m, w, signed = INTS.get(t) or {'CGV_DEC64': ('vardec64_i', 64, True), 'CGV_BOOL': ('varu_bool', 8, False)}[t]
                    o = member(p, 'cg_var', m)[0]
                    v = norm(s, I.load(s, a[1], o, 'i%d' % w, ('cg_var', o)))
                    want = (trange(w)[1] if signed else (1 << w) - 1) if fn == 'cv_max_set' else trange(w)[0] if signed else 0
                    if t == 'CGV_BOOL':
                        want = int(fn == 'cv_max_set')
                    if not isconst(v) or (cval(v) - want) % (1 << w):
                        bad('limit|%s|%s' % (fn, t), '%s %s' % (f.loc(ins), fn), '%s of a %s value does not store %d' % (fn, t, want), 'limits of the type')
        fns[fn] = len(types)

    # ---- parsing
    f = p.defined['cv_parse1']
    for t in types:
        st = St()
        cells = {m: 0 for m in MEMBERS[t]} if t in OWNED else {}
        if t == 'CGV_DEC64':
            cells = {'vardec64_n': sym('fd', 1, 18)}
        a = cv(st, t, cells)
        b = ('H', ('in', 'text'), 0); st.heap[b] = ('live', 'mem'); st.mem[b] = {'*': (('any',), None)}
        h = Foot(base(), uo, hi)

        class Heap(Hook):
            def __init__(self): self.dup = {}
            def alloc(self, I, fr, ins, st, name, args, b):
                self.dup[b] = name
        hp = Heap()
        I, ex = results(p, 'cv_parse1', [('p', b, 0), a, ZERO], st, [h, hp], maxinline=6,
                        when=lambda g, x: g.file.endswith('cligen_cv.c') and g.name != 'cligen_reason'); obl += 1
        foot('cv_parse1', t, h)
        acc = 0
        for rv, s, ins in ex:
            if rv is None or interval(s, rv)[1] < 1:
                continue
            acc += 1
            if t in ('CGV_VOID', 'CGV_EMPTY', 'CGV_ERR'):
                bad('parse|%s' % t, '%s cv_parse1' % f.loc(ins), 'text is accepted for a %s value' % t, 'parsed as its type'); break
            for m in MEMBERS[t]:
                o, sz, ty = member(p, 'cg_var', m)
                if m == 'vardec64_n':
                    continue
                if set(range(o, o + sz)) - set(h.w):
                    bad('parse|%s' % t, '%s cv_parse1' % f.loc(ins), 'text is accepted for a %s value without storing %s' % (t, m), 'parsed as its type')
                elif t in OWNED:
                    v = norm(s, I.load(s, a[1], o, 'ptr', ('cg_var', o)))
                    if v == ZERO:
                        bad('parse|%s' % t, '%s cv_parse1' % f.loc(ins), 'text is accepted for a %s value without storing %s on this path' % (t, m), 'parsed as its type')
        if not acc and t not in ('CGV_VOID', 'CGV_EMPTY', 'CGV_ERR'):
            bad('parse|%s' % t, '%s:%s cv_parse1' % (f.file, f.line), 'no text is accepted for a %s value' % t, 'parsed as its type')
    fns['cv_parse1'] = len(types)

    # ---- comparison, copy, release
    f = p.defined['cv_cmp']
    for t in types:
        st = St()
        a1 = cv(st, t, name='cv'); a2 = cv(st, t, i=1, name='cw')
        h1 = Foot(a1[1], uo, hi); h2 = Foot(a2[1], uo, hi)
        I, ex = results(p, 'cv_cmp', [a1, a2], st, [h1, h2]); obl += 1
        for h in (h1, h2):
            foot('cv_cmp', t, h)
    fns['cv_cmp'] = len(types)
    for t in types:
        st = St()
        old = cv(st, t, name='old')
        new = argobj(p, st, 1, 'cg_var', {}, 'new')
        orig = {}
        for m in MEMBERS[t] + EXTRA.get(t, []):
            o, sz, ty = member(p, 'cg_var', m)
            if sz in (1, 2, 4, 8) and m not in ('varu_time',):
                ll = lltype(sz, ty)
                I0 = SpecInterp(p)
                orig[m] = (o, ll, norm(st, I0.load(st, old[1], o, ll, ('cg_var', o))))
        I, ex = results(p, 'cv_cp', [new, old], st, []); obl += 1
        f = p.defined['cv_cp']; good = 0
        for rv, s, ins in ex:
            if rv != ZERO:
                continue
            good += 1
            to = member(p, 'cg_var', 'var_type')[0]
            if norm(s, I.load(s, new[1], to, 'i32', ('cg_var', to))) != ('c', enum(p, t)):
                bad('cp|%s' % t, '%s cv_cp' % f.loc(ins), 'the copy of a %s value is of another type' % t, 'copied as its type')
            for m, (o, ll, v0) in orig.items():
                v = norm(s, I.load(s, new[1], o, ll, ('cg_var', o)))
                if m in OWNED.get(t, ()):
                    if v == ZERO or v == norm(s, v0):
                        bad('cp|%s' % t, '%s cv_cp' % f.loc(ins), 'the copy of a %s value %s %s' % (t, 'has no' if v == ZERO else 'shares', m), 'copied as its type')
                elif v != norm(s, v0):
                    bad('cp|%s' % t, '%s cv_cp' % f.loc(ins), 'the copy of a %s value does not have its %s' % (t, m), 'copied as its type')
        if not good:
            bad('cp|%s' % t, '%s:%s cv_cp' % (f.file, f.line), 'a %s value cannot be copied' % t, 'copied as its type')
    fns['cv_cp'] = len(types)
    f = p.defined['cv_reset']
    for t in types:
        st = St(); a = cv(st, t); h = Foot(a[1], uo, hi)

        class Rel(Hook):
            def released(self, I, fr, ins, st, name, a):
                st.mon = st.mon | {('rel', norm(st, a))}
        I, ex = results(p, 'cv_reset', [a], st, [h, Rel()]); obl += 1
        for k, where in h.r.items():
            if k not in span(p, MEMBERS[t]):
                bad('foot|cv_reset|%s' % t, '%s cv_reset' % where, 'cv_reset of a %s value reads a part of the value that does not belong to the type' % t, 'footprint per type')
        for rv, s, ins in ex:
            to = member(p, 'cg_var', 'var_type')[0]
            if norm(s, I.load(s, a[1], to, 'i32', ('cg_var', to))) != ('c', enum(p, t)):
                bad('reset|%s' % t, '%s cv_reset' % f.loc(ins), 'a %s value that is reset changes its type' % t, 'reset as its type')
            for m in MEMBERS[t]:
                o, sz, ty = member(p, 'cg_var', m)
                if sz in (1, 2, 4, 8):
                    ll = lltype(sz, ty)
                    if norm(s, I.load(s, a[1], o, ll, ('cg_var', o))) != ZERO:
                        bad('reset|%s' % t, '%s cv_reset' % f.loc(ins), 'a %s value that is reset keeps its %s' % (t, m), 'reset as its type')
    fns['cv_reset'] = len(types)

    # ---- names
    txt = {}
    f = p.defined['cv_type2str']
    for t in types:
        I, ex = results(p, 'cv_type2str', [('c', enum(p, t))], St()); obl += 1
        got = {cstr(I, s, rv) for rv, s, ins in ex}
        if len(got) != 1 or None in got:
            bad('name|%s' % t, '%s:%s cv_type2str' % (f.file, f.line), '%s has no one name' % t, 'name table')
            continue
        txt[t] = got.pop()
    dup = {}
    for t, n in txt.items():
        if n in dup:
            bad('name|%s' % t, '%s:%s cv_type2str' % (f.file, f.line), '%s and %s have the same name %s' % (t, dup[n], n), 'name table')
        dup[n] = t
    f = p.defined['cv_str2type']

    class Eq(Hook):
        def __init__(self, n): self.n = n
        def call(self, I, fr, ins, st, name, args):
            if name in ('strcmp', 'strcasecmp', 'strncmp'):
                a, b = norm(st, args[0]), norm(st, args[1])
                x = cstr(I, st, a); y = cstr(I, st, b)
                if x is None:
                    x = self.n
                elif y is None:
                    y = self.n
                if name == 'strncmp':
                    k = norm(st, args[2])
                    if not isconst(k):
                        return None
                    x, y = x[:cval(k)], y[:cval(k)]
                if name == 'strcasecmp':
                    x, y = x.lower(), y.lower()
                return [(('c', (x > y) - (x < y)), st)]
    want = dict(NAMES)
    want['ipaddr'] = 'CGV_IPV4ADDR'
    for t, n in txt.items():
        if t != 'CGV_ERR':
            want.setdefault(n, t)
            if NAMES.get(n) != t:
                bad('name|%s' % t, '%s:%s cv_type2str' % (p.defined['cv_type2str'].file, p.defined['cv_type2str'].line), '%s is called %s' % (t, n), 'name table')
    for n in sorted(want):
        for k in range(len(n)):
            want.setdefault(n[:k + 1] + '~', 'CGV_ERR')          # no name is recognised by its first letters
            want.setdefault(n[:k], 'CGV_ERR')
        want.setdefault('~' + n, 'CGV_ERR')
        want.setdefault(n.upper(), 'CGV_ERR')
    for n in ('', 'int', 'int88', 'xyzzy', 'String', 'uint', 'ipv4', 'ipv4addrs', 'in'):
        want[n] = 'CGV_ERR'
    for n, t in sorted(want.items()):
        b = ('H', ('in', 'name', n), 0); st = St(); st.heap[b] = ('live', 'mem')
        st.mem[b] = {i: (('c', ord(c)), 'i8', ('t', 'i8')) for i, c in enumerate(n + '\0')}
        st.mem[b]['*'] = (('any',), None)
        I, ex = results(p, 'cv_str2type', [('p', b, 0)], st, [Eq(n)]); obl += 1
        for rv, s, ins in ex:
            if rv != ('c', enum(p, t)):
                bad('type|%s' % n, '%s cv_str2type' % f.loc(ins), 'the name "%s" is not read as %s' % (n, t), 'name table')
    fns['cv_type2str'] = len(types); fns['cv_str2type'] = len(want)
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS[:2],
            'coverage': dict(p.stats(), functions=fns, obligations=obl, types=types,
            explanation='footprint and output of %d operations specialised to %d value types (%d configurations)' % (len(fns), len(types), obl))}


def bytenum(s, item, b, off):
    """the item shows the unsigned byte at (b, off)"""
    v = item[1]
    for _ in range(6):
        if v[0] != 'l' or len(v[1]) != 1 or v[1][0][1] != 1 or v[2] != 0:
            return False
        d = T.desc[v[1][0][0]]
        if d[0] == 'op' and d[1] in ('zx8', 'and') and (d[1] == 'zx8' or d[3] == ('c', 255)):
            u = d[2]
            while u[0] == 'l' and T.desc[u[1][0][0]][0] == 'op' and T.desc[u[1][0][0]][1] in ('sx8', 'zx8', 'tr8'):
                u = T.desc[u[1][0][0]][2]
            e = T.desc[u[1][0][0]] if u[0] == 'l' and len(u[1]) == 1 else ()
            return b in e and off in e
        return False
    return False
