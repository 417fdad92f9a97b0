"""C06: copies share nothing the original owns, and destroying releases everything owned, once.

A table says which members of every structure own what they point to and which only refer to it.  The copying functions
are specialised to an original with all owned members set, with each one missing, and with vectors and lists of no,
one, two and three elements; in every copy each owned member must be a new block made from the same member of the original,
everything else the same value as in the original (up to the documented back references), and the original must be
untouched.  The destroying functions are specialised the same way; on every path each owned block, and the object, must be
released exactly once and nothing that is only referred to may be."""
from cvt import *

STRUCTS = {
    'cg_var': ({'var_name': 's', 'var_show': 's'}, []),
    'cvec': ({'vr_name': 's'}, []),
    'cg_callback': ({'cc_fn_str': 's', 'cc_cvec': 'v'}, ['cc_fn_vec', 'cc_flags']),
    'cg_obj': ({'coc_command': 's', 'coc_prefix': 's', 'coc_cvec': 'v', 'coc_filter': 'v', 'coc_helpstring': 's'},
               ['coc_type', 'coc_preference']),
    'var': ({'cgs_show': 's', 'cgs_expand_fn_str': 's', 'cgs_expand_fn_vec': 'v', 'cgs_translate_fn_str': 's', 'cgs_choice': 's',
             'cgs_rangecvv_low': 'v', 'cgs_rangecvv_upp': 'v', 'cgs_regex': 'v'},
            ['cgs_vtype', 'cgs_expandv_fn', 'cgs_translate_fn', 'cgs_rangelen', 'cgs_dec64_n']),
}
DUP = {'cvec_dup', 'strdup', 'strdup4', 'strndup'}
FREE = {'free', 'cvec_free', 'cv_free', 'co_free', 'pt_free', 'cligen_ph_free', 'cligen_parsetree_free'}


class Own(Hook):
    """what was duplicated from what, what was released how often; recorded on the path"""
    def __init__(self, dup=DUP, rel=FREE, more=None):
        self.dup = dup; self.rel = rel; self.more = more or {}; self.k = 0

    def call(self, I, fr, ins, st, name, args):
        if name in self.more:
            return self.more[name](I, fr, ins, st, args)
        if name in self.dup and fr.parent is not None or name in self.dup and fr.fn.name != name:
            a = norm(st, args[0])
            if a == ZERO:
                return [(ZERO, st)]
            b = ('H', ('in', 'dup', ins['i'], fr.fn.name, a), 0)
            st.heap[b] = ('live', 'mem'); st.mem[b] = {'*': (('any',), None)}
            st.mon = st.mon | {('dup', b, a)}
            s2 = st.copy(); s2.mon = s2.mon | {('fail',)}
            return [(('p', b, 0), st), (ZERO, s2)]
        if name in self.rel and fr.fn.name != name:
            self.note(st, norm(st, args[0]))
            return [(None if ins['t'] == 'void' else ZERO, st)]
        return None

    def note(self, st, a):
        if a == ZERO:
            return
        n = 1
        for m in st.mon:
            if m[0] == 'rel' and m[1] == a:
                n = m[2] + 1
                st.mon = st.mon - {m}
        st.mon = st.mon | {('rel', a, n)}

    def released(self, I, fr, ins, st, name, a):
        self.note(st, norm(st, a))


def count(st, a):
    for m in st.mon:
        if m[0] == 'rel' and m[1] == a:
            return m[2]
    return 0


def run(tier):
    p = program()
    fs = []; obl = 0; fns = {}; seen = set()

    def need(n):
        if n not in p.defined:
            raise Broken('%s is not there' % n)
        return p.defined[n]

    def bad(key, where, msg, rule):
        if key not in seen:
            seen.add(key); fs.append(finding(key, where, msg, rule))

    def off(struct, m):
        return member(p, 'cg_obj' if struct == 'var' else struct, m)

    def load(I, st, ptr, struct, m):
        o, sz, ty = off(struct, m)
        return norm(st, I.load(st, ptr[1], ptr[2] + o, lltype(sz, ty), (struct if struct != 'var' else 'cg_obj', o)))

    def block(st, struct, name, cells, rest=True):
        """a concrete block of the structure, owned elsewhere; what is not given is unknown"""
        b = ('H', ('in', name), 0)
        st.heap[b] = ('live', 'mem')
        m = {'*': (('any',), None)}
        for n, v in cells.items():
            o, sz, ty = member(p, struct, n)
            if v is None:
                v = ptrs(st, (name, n))
            m[o] = (val(v), lltype(sz, ty), (struct, o))
        st.mem[b] = m
        return ('p', b, 0)

    def ptrs(st, name):
        b = ('H', ('in', 'blk', name), 0)
        st.heap[b] = ('live', 'mem'); st.mem[b] = {'*': (('any',), None)}
        return ('p', b, 0)

    def vec(st, name, vals, ty='ptr', size=8):
        b = ('H', ('in', name), 0)
        st.heap[b] = ('live', 'mem')
        st.mem[b] = {i * size: (v, ty, ('t', ty)) for i, v in enumerate(vals)}
        st.mem[b]['*'] = (('any',), None)
        return ('p', b, 0)

    def scal(name, m, ty):
        return ptrs

    def source(st, struct, types, missing=None, name='old', fixed=None):
        """an object with all owned members set but one; returns pointer, {member: (struct, value, kind)}, [(struct, member, value)]"""
        cells = {}; own = {}; keep = []
        for s in types:
            o, k = STRUCTS[s]
            for m, kind in o.items():
                if m == missing:
                    cells[m] = ZERO
                else:
                    cells[m] = ptrs(st, (name, m)); own[m] = (s, cells[m], kind)
            for m in k:
                o2, sz, ty = off(s, m)
                if fixed and m in fixed:
                    cells[m] = val(fixed[m])
                elif ty.endswith('*'):
                    cells[m] = ptrs(st, (name, m))
                else:
                    cells[m] = sym((name, m), *(trange(sz * 8) if sz < 8 else (-INF, INF)))
                keep.append((s, m, cells[m]))
        for m, v in (fixed or {}).items():
            cells.setdefault(m, val(v))
        return block(st, struct, name, cells), own, keep, cells

    def okay(st, rv, good):
        """a path on which nothing failed and success is reported"""
        if ('fail',) in st.mon or rv is None:
            return False
        if good == 'zero':
            return rv == ZERO
        return rv[0] == 'p' or rv[0] == 'l' and interval(st, rv)[0] > 0

    def untouched(fn, what, I, s, ins, old, cells, struct):
        f = p.defined[fn]
        for m, v in cells.items():
            ss = 'var' if m.startswith('cgs_') else struct
            if load(I, s, old, ss, m) != norm(s, v):
                bad('orig|%s|%s' % (fn, m), '%s %s' % (f.loc(ins), fn), '%s changes the %s of the original' % (what, m), 'original untouched')
            if isinstance(v, tuple) and v[0] == 'p' and count(s, v):
                bad('orig|%s|%s' % (fn, m), '%s %s' % (f.loc(ins), fn), '%s releases the %s of the original' % (what, m), 'original untouched')

    def checkcopy(fn, what, I, s, ins, new, old, own, keep, cells, struct, extra=()):
        f = p.defined[fn]
        for m, (ss, v, kind) in own.items():
            g = load(I, s, new, ss, m)
            if g == ZERO:
                bad('copy|%s|%s' % (fn, m), '%s %s' % (f.loc(ins), fn), '%s: the copy has no %s' % (what, m), 'copied'); continue
            if g == v:
                bad('copy|%s|%s' % (fn, m), '%s %s' % (f.loc(ins), fn), '%s: the copy shares %s with the original' % (what, m), 'copied'); continue
            src = [x[2] for x in s.mon if x[0] == 'dup' and ('p', x[1], 0) == g]
            if src and v not in src:
                bad('copy|%s|%s' % (fn, m), '%s %s' % (f.loc(ins), fn), '%s: the %s of the copy is made from something else than the %s of the original' % (what, m, m), 'copied')
            if count(s, g):
                bad('copy|%s|%s' % (fn, m), '%s %s' % (f.loc(ins), fn), '%s: the %s of the copy has been released' % (what, m), 'copied')
        for ss, m, v in keep:
            if load(I, s, new, ss, m) != norm(s, v):
                bad('copy|%s|%s' % (fn, m), '%s %s' % (f.loc(ins), fn), '%s: the %s of the copy is not that of the original' % (what, m), 'copied')
        untouched(fn, what, I, s, ins, old, cells, struct)

    # ------------------------------------------------------------------ values
    need('cv_cp'); need('cv_dup'); need('cv_reset'); need('cv_free')
    CVT = [t for t in MEMBERS if t in p.enumval]
    n = 0
    for t in CVT:
        ownm = OWNED.get(t, [])
        for miss in [None, 'var_name', 'var_show'] + list(ownm):
            for fn in ('cv_cp', 'cv_dup', 'cv_reset', 'cv_free'):
                st = St()
                f = p.defined[fn]
                cells = {'var_type': val(enum(p, t))}; own = {}
                for m in ['var_name', 'var_show'] + list(ownm):
                    cells[m] = ZERO if m == miss else ptrs(st, ('old', m))
                    if m != miss:
                        own[m] = ('cg_var', cells[m], 's')
                keep = [('cg_var', 'var_type', cells['var_type'])]
                for m in ('var_const', 'var_flag'):
                    cells[m] = sym(('old', m), -128, 127); keep.append(('cg_var', m, cells[m]))
                if t == 'CGV_VOID':
                    cells['varu_void'] = ptrs(st, ('old', 'void')); keep.append(('cg_var', 'varu_void', cells['varu_void']))
                old = block(st, 'cg_var', 'old', cells)
                h = Own(rel={'free'}); n += 1
                if fn in ('cv_cp', 'cv_dup'):
                    if fn == 'cv_cp':
                        new = block(st, 'cg_var', 'new', {})
                        args = [new, old]
                    else:
                        args = [old]
                    I, ex = results(p, fn, args, st, [h])
                    good = 0
                    for rv, s, ins in ex:
                        if not okay(s, rv, 'zero' if fn == 'cv_cp' else 'ptr'):
                            untouched(fn, 'a failing %s of a %s value' % (fn, t), I, s, ins, old, cells, 'cg_var')
                            if fn == 'cv_cp':
                                for m, (ss, v, k) in own.items():
                                    if load(I, s, new, ss, m) == v:
                                        bad('orig|cv_cp|%s' % m, '%s cv_cp' % f.loc(ins), 'a failing copy of a %s value is left sharing %s with the original' % (t, m), 'original untouched')
                            continue
                        good += 1
                        checkcopy(fn, '%s of a %s value' % (fn, t), I, s, ins, new if fn == 'cv_cp' else rv, old, own, keep, cells, 'cg_var')
                    if not good:
                        bad('copy|%s|%s' % (fn, t), '%s:%s %s' % (f.file, f.line, fn), 'a %s value is never copied' % t, 'copied')
                else:
                    I, ex = results(p, fn, [old], st, [h])
                    for rv, s, ins in ex:
                        once(bad, f, fn, ins, s, 'a %s value' % t, {m: v for m, (x, v, k) in own.items()},
                             {'varu_void': cells['varu_void']} if t == 'CGV_VOID' else {}, {'the value itself': old}, fn == 'cv_free')
    fns['cv_cp, cv_dup, cv_reset, cv_free'] = n

    # ------------------------------------------------------------------ vectors
    sz = p.ditypes['cg_var']['size']
    for fn in ('cvec_dup', 'cvec_reset', 'cvec_free'):
        f = need(fn)
        for k in (0, 1, 2, 3):
            for named in (0, 1):
                st = St()
                V = ('p', ('H', ('in', 'vec'), 0), 0)
                st.heap[V[1]] = ('live', 'mem'); st.mem[V[1]] = {'*': (('any',), None)}
                nm = ptrs(st, 'name') if named else ZERO
                cells = {'vr_vec': V if k else ZERO, 'vr_len': ('c', k), 'vr_name': nm}
                old = block(st, 'cvec', 'old', cells)
                done = {}

                def cp(I, fr, ins, st, args):
                    st.mon = st.mon | {('cp', norm(st, args[0]), norm(st, args[1]))}
                    s2 = st.copy(); s2.mon = s2.mon | {('fail',)}
                    return [(ZERO, st), (('c', -1), s2)]

                def rs(I, fr, ins, st, args):
                    h.note(st, ('elem', norm(st, args[0])))
                    return [(ZERO, st)]
                h = Own(rel={'free'}, more={'cv_cp': cp, 'cv_reset': rs})
                if fn == 'cvec_dup':
                    h.dup = h.dup - {'cvec_dup'}
                I, ex = results(p, fn, [old], st, [h]); obl += 1
                good = 0
                for rv, s, ins in ex:
                    if fn == 'cvec_dup':
                        if not okay(s, rv, 'ptr'):
                            untouched(fn, 'a failing %s' % fn, I, s, ins, old, cells, 'cvec')
                            continue
                        good += 1
                        own = {'vr_name': ('cvec', nm, 's')} if named else {}
                        checkcopy(fn, 'a vector of %d' % k, I, s, ins, rv, old, own, [('cvec', 'vr_len', ('c', k))], cells, 'cvec')
                        nv = load(I, s, rv, 'cvec', 'vr_vec')
                        if k and (nv == V or nv == ZERO):
                            bad('copy|cvec|vec', '%s %s' % (f.loc(ins), fn), 'the copy of a vector of %d has no vector of its own' % k, 'copied'); continue
                        for i in range(k):
                            got = {x[2] for x in s.mon if x[0] == 'cp' and x[1] == at(nv, i * sz)}
                            if got != {at(V, i * sz)}:
                                bad('copy|cvec|elem', '%s %s' % (f.loc(ins), fn), 'element %d of the copy of a vector of %d is not made from element %d' % (i, k, i), 'copied')
                        if not named and load(I, s, rv, 'cvec', 'vr_name') != ZERO:
                            bad('copy|cvec|name', '%s %s' % (f.loc(ins), fn), 'the copy of a vector with no name has one', 'copied')
                    else:
                        good += 1
                        own = {'element %d' % i: ('elem', at(V, i * sz)) for i in range(k)}
                        if k:
                            own['the vector'] = V
                        if named:
                            own['vr_name'] = nm
                        once(bad, f, fn, ins, s, 'a vector of %d' % k, own, {}, {'the vector object': old}, fn == 'cvec_free')
                        for x in s.mon:
                            if x[0] == 'rel' and x[1][0] == 'elem' and x[1] not in own.values():
                                bad('free|%s|beyond' % fn, '%s %s' % (f.loc(ins), fn), '%s of a vector of %d releases an element that does not exist' % (fn, k), 'released once')
                if not good:
                    bad('copy|%s' % fn, '%s:%s %s' % (f.file, f.line, fn), '%s of a vector of %d never succeeds' % (fn, k), 'copied')
        fns[fn] = 8

    # ------------------------------------------------------------------ callbacks
    def chain(st, k, missing=None):
        nxt = ZERO; out = []
        for i in range(k - 1, -1, -1):
            cells = {'cc_next': nxt, 'cc_fn_str': ptrs(st, ('cb', i, 'str')), 'cc_cvec': ptrs(st, ('cb', i, 'cvec')), 'cc_fn_vec': ptrs(st, ('cb', i, 'fn')),
                     'cc_flags': sym(('cb', i, 'flags'), *trange(32))}
            if missing:
                cells[missing] = ZERO
            nxt = block(st, 'cg_callback', ('cb', i), cells)
            out.insert(0, (nxt, cells))
        return nxt, out

    f = need('co_callback_copy')
    for k in (0, 1, 2, 3):
        for miss in (None, 'cc_fn_str', 'cc_cvec'):
            st = St()
            head, cbs = chain(st, k, miss)
            D = ('A', 'dst', 0); st.mem[D] = {0: (ZERO, 'ptr', ('t', 'ptr'))}
            h = Own()
            I, ex = results(p, 'co_callback_copy', [head, ('p', D, 0)], st, [h]); obl += 1
            good = 0
            for rv, s, ins in ex:
                if not okay(s, rv, 'zero'):
                    continue
                good += 1
                q = norm(s, I.load(s, D, 0, 'ptr', ('t', 'ptr')))
                compchain(bad, p, f, I, s, ins, 'co_callback_copy', q, cbs, load, checkcopy, miss)
            if not good:
                bad('copy|co_callback_copy', '%s:%s co_callback_copy' % (f.file, f.line), 'a list of %d callbacks is never copied' % k, 'copied')
    f = need('co_callbacks_free')
    for k in (0, 1, 2, 3):
        st = St()
        head, cbs = chain(st, k)
        D = ('A', 'dst', 0); st.mem[D] = {0: (head, 'ptr', ('t', 'ptr'))}
        h = Own()
        I, ex = results(p, 'co_callbacks_free', [('p', D, 0)], st, [h]); obl += 1
        for rv, s, ins in ex:
            own = {}
            for i, (b, c) in enumerate(cbs):
                own.update({'callback %d' % i: b, 'cc_fn_str of callback %d' % i: c['cc_fn_str'], 'cc_cvec of callback %d' % i: c['cc_cvec']})
            once(bad, f, 'co_callbacks_free', ins, s, 'a list of %d callbacks' % k, own, {'cc_fn_vec': c['cc_fn_vec']} if k else {}, {}, False)
    fns['co_callback_copy'] = 12; fns['co_callbacks_free'] = 4

    # ------------------------------------------------------------------ nodes
    TYPES = [('CO_COMMAND', ['cg_obj']), ('CO_VARIABLE', ['cg_obj', 'var']), ('CO_REFERENCE', ['cg_obj'])]
    TYPES = [t for t in TYPES if t[0] in p.enumval]

    def node(st, t, types, miss, kids, ncb=1):
        head, cbs = chain(st, ncb)
        fixed = {'coc_type': enum(p, t), 'coc_callbacks': head, 'coc_flags': sym(('old', 'flags'), 0, 0), 'coc_prev': ptrs(st, 'up'),
                 'coc_ref': ptrs(st, 'ref'), 'coc_treeref_orig': ptrs(st, 'orig')}
        pt = ptrs(st, 'childtree') if kids else ZERO
        pv = vec(st, 'ptvec', [pt]) if kids != 2 else ZERO
        fixed['coc_ptvec'] = pv; fixed['coc_pt_len'] = int(kids != 2)
        old, own, keep, cells = source(st, 'cg_obj', types, miss, fixed=fixed)
        return old, own, keep, cells, cbs, pt, pv

    FLAGM = 'coc_flags'
    # co_expand_sub is private to the library: the copy of a node an expansion starts from, with the tree below shared
    for fn in ('co_copy', 'co_copy1') + (('co_expand_sub',) if 'co_expand_sub' in p.defined else ()):
        f = need(fn)
        for t, types in TYPES:
            for miss in [None] + [m for s in types for m in STRUCTS[s][0]]:
                for kids in (0, 1) if miss is None else (1,):
                    for rec in ((1, 0) if fn == 'co_copy1' and miss is None else (1,)):
                        st = St()
                        old, own, keep, cells, cbs, pt, pv = node(st, t, types, miss, kids)
                        up = ptrs(st, 'parent')
                        D = ('A', 'dst', 0); st.mem[D] = {0: (ZERO, 'ptr', ('t', 'ptr'))}

                        def ptdup(I, fr, ins, st, args):
                            return h.call(I, fr, ins, st, 'cvec_dup', args)
                        h = Own(more={})
                        h.dup = h.dup | {'pt_dup'}; h.rel = {'free', 'cvec_free', 'cv_free', 'pt_free'}
                        fl = sym('copyflags', 0, 1)
                        args = [old, up, fl, ('p', D, 0)] if fn == 'co_copy' else [old, up, ('c', rec), fl, ('p', D, 0)] if fn == 'co_copy1' else [old, up, ('p', D, 0)]
                        if fn == 'co_expand_sub':
                            if f.sig[1:] != ['cg_obj*', 'cg_obj*', 'cg_obj**']:
                                raise Broken('co_expand_sub has other arguments')
                            rec = 0
                        I, ex = results(p, fn, args, st, [h]); obl += 1
                        good = 0
                        for rv, s, ins in ex:
                            if not okay(s, rv, 'zero'):
                                untouched(fn, 'a failing %s of a %s' % (fn, t), I, s, ins, old, cells, 'cg_obj')
                                continue
                            q = norm(s, I.load(s, D, 0, 'ptr', ('t', 'ptr')))
                            what = '%s of a %s' % (fn, t)
                            if q[0] != 'p' or q == old:
                                bad('copy|%s|none' % fn, '%s %s' % (f.loc(ins), fn), '%s succeeds without a copy' % what, 'copied'); continue
                            good += 1
                            checkcopy(fn, what, I, s, ins, q, old, own, keep, cells, 'cg_obj')
                            if load(I, s, q, 'cg_obj', 'coc_prev') != up:
                                bad('copy|%s|prev' % fn, '%s %s' % (f.loc(ins), fn), '%s: the copy is not below the given parent' % what, 'copied')
                            if count(s, q):
                                bad('copy|%s|freed' % fn, '%s %s' % (f.loc(ins), fn), '%s: the copy has been released' % what, 'copied')
                            compchain(bad, p, f, I, s, ins, fn, load(I, s, q, 'cg_obj', 'coc_callbacks'), cbs, load, checkcopy, None)
                            nv = load(I, s, q, 'cg_obj', 'coc_ptvec')
                            if kids:
                                if nv == pv or nv[0] != 'p':
                                    bad('copy|%s|tree' % fn, '%s %s' % (f.loc(ins), fn), '%s: the copy has no tree of its own' % what, 'copied'); continue
                                nt = norm(s, I.load(s, nv[1], nv[2], 'ptr', ('t', 'ptr')))
                                src = [x[2] for x in s.mon if x[0] == 'dup' and ('p', x[1], 0) == nt]
                                if rec and pt not in src:
                                    bad('copy|%s|tree' % fn, '%s %s' % (f.loc(ins), fn), '%s: the tree of the copy is not a copy of its tree' % what, 'copied')
                                if not rec and nt != pt:
                                    bad('copy|%s|tree' % fn, '%s %s' % (f.loc(ins), fn), '%s without recursion does not refer to the same tree' % what, 'copied')
                            elif nv != ZERO and norm(s, I.load(s, nv[1], nv[2], 'ptr', ('t', 'ptr'))) != ZERO:
                                bad('copy|%s|tree' % fn, '%s %s' % (f.loc(ins), fn), '%s: the copy of a node with no tree has one' % what, 'copied')
                        if not good:
                            bad('copy|%s|%s' % (fn, t), '%s:%s %s' % (f.file, f.line, fn), 'a %s is never copied' % t, 'copied')
            fns[fn] = fns.get(fn, 0) + 1
    # a variable turned into the command it has been expanded to: nothing of the variable stays behind
    if 'transform_var_to_cmd' in p.defined:
        fn = 'transform_var_to_cmd'; f = p.defined[fn]
        if f.sig[1:] != ['cg_obj*', 'char*', 'char*']:
            raise Broken('transform_var_to_cmd has other arguments')
        for miss in [None] + list(STRUCTS['var'][0]) + ['coc_command', 'coc_helpstring']:
            for help in (0, 1):
                st = St()
                old, own, keep, cells, cbs, pt, pv = node(st, 'CO_VARIABLE', ['cg_obj', 'var'], miss, 1)
                cmd = ptrs(st, 'newcmd'); ht = ptrs(st, 'newhelp') if help else ZERO
                h = Own()
                I, ex = results(p, fn, [old, cmd, ht], st, [h]); obl += 1
                good = 0
                for rv, s, ins in ex:
                    if not okay(s, rv, 'zero'):
                        continue
                    good += 1
                    gone = [m for m in STRUCTS['var'][0] if m != miss] + [m for m in ('coc_command',) + (('coc_helpstring',) if help else ()) if m != miss]
                    stay = [m for m in STRUCTS['cg_obj'][0] if m not in gone and m != miss]
                    once(bad, f, fn, ins, s, 'a variable', {m: cells[m] for m in gone}, {m: cells[m] for m in stay}, {'the node': old}, False)
                    if load(I, s, old, 'cg_obj', 'coc_command') != cmd or help and load(I, s, old, 'cg_obj', 'coc_helpstring') != ht:
                        bad('copy|%s|given' % fn, '%s %s' % (f.loc(ins), fn), 'the command does not have the name and help text given', 'handed over')
                    if load(I, s, old, 'cg_obj', 'coc_type') != val(enum(p, 'CO_COMMAND')):
                        bad('copy|%s|type' % fn, '%s %s' % (f.loc(ins), fn), 'the variable does not become a command', 'handed over')
                    for m in stay:
                        if load(I, s, old, 'cg_obj', m) != cells[m]:
                            bad('copy|%s|%s' % (fn, m), '%s %s' % (f.loc(ins), fn), 'the command loses the %s of the variable' % m, 'handed over')
                if not good:
                    bad('copy|%s' % fn, '%s:%s %s' % (f.file, f.line, fn), 'a variable never becomes a command', 'copied')
        fns[fn] = 24
    f = need('co_free')
    for t, types in TYPES:
        for miss in [None] + [m for s in types for m in STRUCTS[s][0]]:
            for kids in (0, 1, 2) if miss is None else (1,):
                for rec in (0, 1):
                    st = St()
                    old, own, keep, cells, cbs, pt, pv = node(st, t, types, miss, kids, 2)
                    h = Own(rel=FREE - {'co_free'})
                    I, ex = results(p, 'co_free', [old, ('c', rec)], st, [h]); obl += 1
                    if not ex:
                        raise Broken('co_free: no result')
                    for rv, s, ins in ex:
                        o = {m: v for m, (x, v, k) in own.items()}
                        for i, (b, c) in enumerate(cbs):
                            o.update({'callback %d' % i: b, 'cc_fn_str of callback %d' % i: c['cc_fn_str'], 'cc_cvec of callback %d' % i: c['cc_cvec']})
                        r = {m: cells[m] for m in ('coc_prev', 'coc_ref', 'coc_treeref_orig') if m in cells}
                        if kids == 1 and rec:
                            o['the tree below'] = pt
                        elif kids:
                            r['the tree below (not recursive)'] = pt
                        if kids != 2:
                            o['coc_ptvec'] = pv
                        once(bad, f, 'co_free', ins, s, 'a %s' % t, o, r, {'the node': old}, True)
    fns['co_free'] = 2 * sum(3 + len([m for s in ty for m in STRUCTS[s][0]]) for _, ty in TYPES)

    # ------------------------------------------------------------------ trees
    TOP = 1
    for fn in ('pt_dup', 'pt_free'):
        f = need(fn)
        for k in (0, 1, 2, 3):
            for hole in [None] + list(range(k)):
                for rec in (1, 0):
                    st = St()
                    kids = []
                    for i in range(k):
                        kids.append(ZERO if hole == i else block(st, 'cg_obj', ('kid', i), {'coc_flags': ('c', 0), 'coc_type': enum(p, 'CO_COMMAND')}))
                    V = vec(st, 'kids', kids) if k else ZERO
                    old = block(st, 'parse_tree', 'old', {'pt_vec': V, 'pt_len': k, 'pt_set': sym('set', 0, 1)})
                    up = ptrs(st, 'parent')

                    def cocopy(I, fr, ins, st, args):
                        a = norm(st, args[0])
                        b = ('H', ('in', 'kidcopy', a), 0)
                        st.heap[b] = ('live', 'mem'); st.mem[b] = {'*': (('any',), None)}
                        st.mon = st.mon | {('dup', b, a), ('up', b, norm(st, args[1]))}
                        s2 = st.copy(); s2.mon = s2.mon | {('fail',)}
                        d = norm(st, args[3])
                        I.store(st, fr, ins, d[1], d[2], ('p', b, 0), 'ptr', ('t', 'ptr'))
                        return [(ZERO, st), (('c', -1), s2)]
                    h = Own(rel=FREE - {fn}, more={'co_copy': cocopy} if fn == 'pt_dup' else {})
                    I, ex = results(p, fn, [old, up, ('c', 0)] if fn == 'pt_dup' else [old, ('c', rec)], st, [h]); obl += 1
                    good = 0
                    for rv, s, ins in ex:
                        if fn == 'pt_free':
                            o = {'child %d' % i: x for i, x in enumerate(kids) if x != ZERO}
                            if k:
                                o['the vector'] = V
                            once(bad, f, fn, ins, s, 'a tree of %d' % k, o, {}, {'the tree': old}, True)
                            good += 1
                            continue
                        if not okay(s, rv, 'ptr'):
                            continue
                        good += 1
                        if load(I, s, rv, 'parse_tree', 'pt_len') != ('c', k):
                            bad('copy|pt_dup|len', '%s %s' % (f.loc(ins), fn), 'the copy of a tree of %d has another length' % k, 'copied'); continue
                        nv = load(I, s, rv, 'parse_tree', 'pt_vec')
                        for i in range(k):
                            g = norm(s, I.load(s, nv[1], nv[2] + 8 * i, 'ptr', ('t', 'ptr'))) if nv[0] == 'p' and nv != V else None
                            src = [x[2] for x in s.mon if x[0] == 'dup' and ('p', x[1], 0) == g]
                            ups = [x[2] for x in s.mon if x[0] == 'up' and ('p', x[1], 0) == g]
                            if g is None or (kids[i] == ZERO and g != ZERO) or kids[i] != ZERO and (kids[i] not in src or ups != [up]):
                                bad('copy|pt_dup|kid', '%s %s' % (f.loc(ins), fn), 'child %d of the copy of a tree of %d is not a copy of that child below the given parent' % (i, k), 'copied')
                        if load(I, s, rv, 'parse_tree', 'pt_set') != norm(s, sym('set', 0, 1)):
                            bad('copy|pt_dup|set', '%s %s' % (f.loc(ins), fn), 'the copy of a set is not a set', 'copied')
                    if not good:
                        bad('copy|%s' % fn, '%s:%s %s' % (f.file, f.line, fn), '%s of a tree of %d never succeeds' % (fn, k), 'copied')
        fns[fn] = 20

    # ------------------------------------------------------------------ other objects
    def plain(fn, struct, own, ref, what, self=True, zeroed=(), extra=None):
        nonlocal obl
        f = need(fn)
        for miss in [None] + list(own):
            st = St()
            cells = {m: ZERO if m == miss else ptrs(st, ('o', m)) for m in own}
            cells.update({m: ptrs(st, ('r', m)) for m in ref})
            if extra:
                cells.update(extra(st))
            old = block(st, struct, 'old', cells)
            h = Own(rel=FREE - {fn})
            I, ex = results(p, fn, [old], st, [h]); obl += 1
            if not ex:
                raise Broken('%s: no result' % fn)
            for rv, s, ins in ex:
                once(bad, f, fn, ins, s, what, {m: cells[m] for m in own if m != miss}, {m: cells[m] for m in ref}, {'the object': old}, self)
        fns[fn] = 1 + len(own)

    PH = [n for n, d in p.ditypes.items() if any(m['n'] == 'ph_parsetree' for m in d.get('m', ()))]
    if not PH:
        raise Broken('no structure for the head of a tree')
    PH = PH[0]
    plain('cligen_ph_free', PH, ['ph_name', 'ph_parsetree', 'ph_prompt', 'ph_output_pipe'], ['ph_next', 'ph_workpt'], 'a tree head')
    plain('mr_free', 'match_result', ['mr_pt', 'mr_reason'], ['mr_token', 'mr_co_match_orig'], 'a match result')
    plain('cbuf_free', 'cbuf', ['cb_buffer'], [], 'a text buffer')

    # closing a session: history, buffers, strings and all trees
    f = need('cligen_exit')
    CH = ['ch_prompt', 'ch_nomatch', 'ch_treename_keyword', 'ch_fn_str', 'ch_buf', 'ch_killbuf']
    for k in (0, 1, 2, 3):
        for hs in (1, 2):
            for miss in [None] + (CH if (k, hs) == (1, 1) else []):
                st = St()
                nxt = ZERO; heads = []
                for i in range(k - 1, -1, -1):
                    nxt = block(st, PH, ('ph', i), {'ph_next': nxt}); heads.append(nxt)
                lines = [ptrs(st, ('line', i)) for i in range(hs)]
                for i, l in enumerate(lines):
                    st.mem[l[1]][0] = (sym(('linechar', i), 1, 127), 'i8', ('t', 'i8'))
                HB = vec(st, 'histbuf', lines)
                cells = {m: ZERO if m == miss else ptrs(st, ('o', m)) for m in CH}
                cells.update({'ch_pt_head': nxt, 'ch_hist_size': hs, 'ch_hist_buf': HB, 'ch_co_match': ptrs(st, 'com'),
                              'ch_callback_arguments': ptrs(st, 'cba'), 'ch_userhandle': ptrs(st, 'uh'), 'ch_userdata': ptrs(st, 'ud'), 'ch_hist_arg': ptrs(st, 'ha')})
                old = block(st, 'cligen_handle', 'old', cells)
                h = Own(rel=FREE)

                def slen(I, fr, ins, st, args):
                    # an empty line is the constant "" and owns nothing
                    return [(sym('linelen', 1, 1 << 20), st)]
                h.more = {'strlen': slen, 'strcmp': lambda I, fr, ins, st, args: [(sym('linecmp', 1, 127), st)], 'cligen_check': lambda I, fr, ins, st, args: [(ZERO, st)]}
                I, ex = results(p, 'cligen_exit', [old], st, [h]); obl += 1
                if not ex:
                    raise Broken('cligen_exit: no result')
                for rv, s, ins in ex:
                    o = {m: cells[m] for m in CH if m != miss}
                    o.update({'tree %d' % i: x for i, x in enumerate(heads)})
                    o.update({'history line %d' % i: x for i, x in enumerate(lines)})
                    o['ch_hist_buf'] = HB
                    once(bad, f, 'cligen_exit', ins, s, 'a session', o, {m: cells[m] for m in ('ch_co_match', 'ch_callback_arguments', 'ch_userhandle', 'ch_userdata', 'ch_hist_arg')},
                         {'the session': old}, True)
    fns['cligen_exit'] = 8 + len(CH)
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS[:2] + ['vectors and lists of up to three elements stand for longer ones'],
            'coverage': dict(p.stats(), functions=fns, obligations=obl + n,
            explanation='ownership analysis of %d copying and destroying functions against the table of owning members (%d configurations)' % (len(fns) + 3, obl + n))}


def at(v, o):
    return ('p', v[1], v[2] + o)


def once(bad, f, fn, ins, s, what, own, ref, me, destroys):
    for m, v in own.items():
        c = count(s, v)
        if c != 1:
            bad('free|%s|%s' % (fn, m), '%s %s' % (f.loc(ins), fn), '%s of %s %s %s' % (fn, what, 'does not release' if not c else 'releases more than once', m), 'released once')
    for m, v in ref.items():
        if count(s, v):
            bad('free|%s|%s' % (fn, m), '%s %s' % (f.loc(ins), fn), '%s of %s releases %s, which it does not own' % (fn, what, m), 'released once')
    for m, v in me.items():
        c = count(s, v)
        if destroys and c != 1 or not destroys and c:
            bad('free|%s|self' % fn, '%s %s' % (f.loc(ins), fn), '%s of %s %s %s' % (fn, what, 'releases' if c and not destroys else 'does not release' if not c else 'releases more than once', m), 'released once')


def compchain(bad, p, f, I, s, ins, fn, q, cbs, load, checkcopy, miss):
    for i, (b, c) in enumerate(cbs):
        if q[0] != 'p' or q == b:
            bad('copy|%s|cb' % fn, '%s %s' % (f.loc(ins), fn), '%s: callback %d is %s in the copy' % (fn, i, 'shared' if q == b else 'missing'), 'copied')
            return
        own = {m: ('cg_callback', c[m], 's') for m in ('cc_fn_str', 'cc_cvec') if c[m] != ZERO}
        keep = [('cg_callback', m, c[m]) for m in ('cc_fn_vec', 'cc_flags')]
        checkcopy(fn, '%s, callback %d' % (fn, i), I, s, ins, q, b, own, keep, c, 'cg_callback')
        q = load(I, s, q, 'cg_callback', 'cc_next')
    if q != ZERO:
        bad('copy|%s|cb' % fn, '%s %s' % (f.loc(ins), fn), '%s: the copied list of callbacks has no end' % fn, 'copied')
