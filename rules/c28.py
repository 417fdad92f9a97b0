"""C28: what is put into an allocated block fits the size it was allocated with.

The size of every block is kept as a linear expression over the values of the path (lengths of strings, members,
arguments).  Every function that touches the members of a dynamic string is entered with its invariant (text length < buffer length
<= size of the buffer) and must leave with it; the functions that build a text in two passes or grow a buffer or a
vector are analysed from an arbitrary state, and so is every helper handed such a block together with its size.  At every store, copy and formatted print
into a block of known size, position >= 0 and position + length <= size must follow on the path."""
from c27 import *
from c27 import trail_
from scen import member, argobj, lltype
import libc
import math

SZ = -8  # the pseudo member that holds the size
BIG = 1 << 40


class Blocks(Arrays):
    def __init__(self, p, only=None):
        Arrays.__init__(self, p, {})
        self.only = only  # in a helper: the block it was handed

    def room(self, I, fr, st, a, op=None):
        if a[0] != 'p' or a[2] is None or self.only not in (None, a[1]):
            return None
        c = (st.mem.get(a[1]) or {}).get(SZ)
        if c is None:
            return None
        off = a[2] if isinstance(a[2], tuple) else ('c', a[2])
        return norm(st, c[0]), off

    def unknown(self, st, a):
        return a[0] == 'p' and a[2] is None and self.only in (None, a[1]) and SZ in (st.mem.get(a[1]) or {})

    def alloc(self, I, fr, ins, st, name, args, b):
        n = None
        args = [norm(st, a) for a in args]
        if name == 'malloc':
            n = args[0]
        elif name == 'calloc':
            n = args[1] if args[0] == ('c', 1) else args[0] if args[1] == ('c', 1) else \
                mul(args[0], cval(args[1])) if isconst(args[1]) else mul(args[1], cval(args[0])) if isconst(args[0]) else None
        elif name == 'realloc':
            n = args[1]
        elif name == 'strdup':
            l = libc.strlen_av(I, st, fr, ins, args[0])
            n = linadd(l, ('c', 1)) if l[0] in 'lc' else None
        m = dict(st.mem.get(b) or {})
        m.pop(SZ, None)
        if n is not None and n[0] in ('l', 'c'):
            m[SZ] = (n, 'i64', ('t', 'size'))
        st.mem[b] = m

    def need(self, fr, ins, st, room, n, what):
        key = (fr.fn.name, fr.fn.loc(ins), what)
        self.seen.add(key)
        size, off = room
        good = False
        if off is not None and n is not None:
            n = n if isinstance(n, tuple) else ('c', n)
            if n[0] in 'lc' and off[0] in 'lc':
                off = strip(off); size = strip(size); end = linadd(off, strip(n))
                good = fits(st, linadd(ZERO, off, -1)) and fits(st, linadd(end, size, -1))
        if n == ('c', 0) or n == 0:
            good = True
        if good:
            self.ok.add(key)
        else:
            self.bad.setdefault(key, ('%s + %s bytes of %s' % (show(off), show(n), show(size)), trail_(st)))

    def store(self, I, fr, ins, st, base, off, v):
        if ins['op'] != 'store':
            return
        r = self.room(I, fr, st, ('p', base, off))
        if r is not None:
            self.need(fr, ins, st, r, lltw(ins['vt']), 'a store')
        elif self.unknown(st, ('p', base, off)):
            self.need(fr, ins, st, (st.mem[base][SZ][0], None), None, 'a store')

    def call(self, I, fr, ins, st, name, args):
        if name is None:
            return None
        args = [norm(st, a) for a in args]
        if name == 'co_free':  # releasing an object leaves the tree it was taken from alone
            return [(ZERO, st)]
        if name in self.p.defined:
            fn = self.p.defined[name]
            for i, a in enumerate(args):
                r = self.room(I, fr, st, a)
                if r is None or i >= len(fn.params) or fn.params[i]['t'] != 'ptr':
                    continue
                left = linadd(r[0], r[1], -1) if r[1] is not None else None
                if left is None:
                    continue
                for j, x in enumerate(args):
                    if j < len(fn.params) and fn.params[j]['t'] != 'ptr' and x[0] in 'lc':
                        d = norm(st, linadd(strip(left), strip(x), -1))
                        if d[0] == 'c' and -16 < cval(d) < 64 and not isconst(left):
                            self.next.add((name, (i, j, cval(d))))
            return None
        if name in READS or name.startswith(('llvm.va', 'llvm.dbg')):
            return None
        for i, a in enumerate(args):
            r = self.room(I, fr, st, a)
            if r is None:
                if self.unknown(st, a) and (name in SIZED and i == SIZED[name][0] or name in ('strcpy', 'sprintf', 'strcat') and i == 0):
                    self.need(fr, ins, st, (st.mem[a[1]][SZ][0], None), None, name)
                continue
            if name in SIZED:
                d, n = SIZED[name]
                if i == d or i == 1 and self.only is None and 'mem' in name and 'set' not in name:  # what is copied is inside its block too
                    self.need(fr, ins, st, r, args[n], name + (' (from)' if i != d else ''))
            elif name in ('strcpy', 'stpcpy') and i == 0:
                l = libc.strlen_av(I, st, fr, ins, args[1])
                self.need(fr, ins, st, r, linadd(l, ('c', 1)) if l[0] in 'lc' else None, name)
            elif name == 'sprintf' and i == 0:
                self.need(fr, ins, st, r, printed(self.p, st, args[1], args[2:]), name)
            elif i in WRITTEN(name) and name not in ('realloc', 'regcomp'):
                self.need(fr, ins, st, r, None, name)
        if name == 'vsnprintf':
            v = symav(T.get(('op', 'printed', args[2]), -1, (1 << 31) - 1))
            return [(v, st)]
        if name not in libc.ALLOC and name != 'free' and any(a[0] == 'p' and SZ in (st.mem.get(a[1]) or {}) for a in args):
            keep = {a[1]: st.mem[a[1]][SZ] for a in args if a[0] == 'p' and SZ in (st.mem.get(a[1]) or {})}
            out = libc.call(I, fr, ins, st, name, args)
            for v, s in out:
                for b, c in keep.items():
                    m = dict(s.mem.get(b) or {})
                    m[SZ] = c
                    s.mem[b] = m
            return out
        return None


def strip(a, n=0):
    """lengths are below 2 GB (assumed): their conversions between the integer widths change nothing"""
    if a is None or a[0] != 'l' or n > 6:
        return a
    tot = ('c', a[2])
    for x, c in a[1]:
        d = T.desc[x]
        if d[0] == 'op' and d[1] in ('tr32', 'sx32', 'zx32') and d[2][0] in 'lc':
            l = lin(strip(d[2], n + 1))
            tot = linadd(tot, mklin({y: k * c for y, k in l[0].items()}, l[1] * c))
        else:
            tot = linadd(tot, mklin({x: c}, 0))
    return tot


def fits(st, e):
    """e <= 0, the common factor of its terms taken out"""
    e = norm(st, e)
    if e[0] == 'l':
        g = math.gcd(*(c for x, c in e[1]))
        if g > 1:
            e = mklin({x: c // g for x, c in e[1]}, -(-e[2] // g))
    return atmost(st, e, 0)


def mul(a, k):
    l = lin(a)
    return mklin({x: c * k for x, c in l[0].items()}, l[1] * k) if l is not None else None


def show(a):
    if a is None:
        return '?'
    if not isinstance(a, tuple):
        return str(a)
    if a[0] == 'c':
        return str(a[1])
    if a[0] == 'l':
        def nm(x):
            d = T.desc[x]
            return 'argument %d' % (d[2] + 1) if d[0] == 'in' and d[1] not in LEN and isinstance(d[2], int) else str(d[1]) if d[0] in ('in', 'op') else 'value%d' % x
        return ' + '.join([('' if c == 1 else '%d*' % c) + nm(x) for x, c in a[1]] + ([str(a[2])] if a[2] else []))
    return '?'


LEN = ('cb_strlen', 'cb_buflen', 'pt_len', 'vr_len', 'ch_bufsize', 'ch_killbufsize')
GROWING = ('cligen_buf_init', 'cligen_buf_increase', 'cligen_killbuf_increase', 'cligen_output', 'cligen_reason',
           'cvec_init', 'cvec_add', 'pt_realloc', 'pt_trunc', 'co_new_only', 'cv_strncpy', 'cv2str_dup', 'cvtype_max2str_dup')


# (structure, pointer to the vector, its length, size of an element, text length if kept)
VECTORS = [('cbuf', 'cb_buffer', 'cb_buflen', 1), ('parse_tree', 'pt_vec', 'pt_len', 8), ('cvec', 'vr_vec', 'vr_len', None),
           ('cligen_handle', 'ch_buf', 'ch_bufsize', 1), ('cligen_handle', 'ch_killbuf', 'ch_killbufsize', 1)]
INCREASE = {'cligen_buf_increase': 'ch_bufsize', 'cligen_killbuf_increase': 'ch_killbufsize'}
NOT = ('pt_copy',)  # counts the entries in one loop and fills them in another


def run(tier):
    p = program()
    VEC = []; TOUCH = set()
    for stn, ptr, ln, es in VECTORS:
        po, (lo_, ls, lt) = member(p, stn, ptr)[0], member(p, stn, ln)
        VEC.append((stn, ptr, ln, es or p.ditypes['cg_var']['size'], po, lo_, lltype(ls, lt)))
        TOUCH |= {(stn, po), (stn, lo_)}
    TEXT = member(p, 'cbuf', 'cb_strlen')[0]
    TOUCH.add(('cbuf', TEXT))
    todo = []
    for n, f in sorted(p.defined.items()):
        if n in NOT or generated(f.file + ':1'):
            continue
        geps = {i['i']: {tuple(t) for t in i.get('path') or ()} & TOUCH for b in f.blocks for i in b if i['op'] == 'getelementptr'}
        sets = {t for b in f.blocks for i in b if i['op'] == 'store' and i['a'][1][0] == 'v' for t in geps.get(i['a'][1][1], ())}
        if n in GROWING or sets or any(t[0] == 'cbuf' for g in geps.values() for t in g):
            todo.append((n, None))
    roots = list(todo)
    done = set(); fs = []; ok = set(); seen = set(); gave = []; inv = []
    while todo:
        n, ctx = todo.pop(0)
        if (n, ctx) in done:
            continue
        done.add((n, ctx))
        f = p.defined[n]
        h = Blocks(p, ('H', ('in', 'block', ctx[0]), 0) if ctx is not None else None)
        st = St(); args = []; objs = []
        for g, d in p.globals.items():
            if not d.get('const') and d.get('ty') == 'i64':
                st.mem[('G', g)] = {0: (symav(T.get(('in', 'G', g), 0, BIG)), 'i64', ('t', 'i64'))}
        for i, x in enumerate(f.params):
            ty = (f.sig[i + 1] if i + 1 < len(f.sig) else '').replace('struct ', '').replace(' *', '*').strip()
            ty = ty[:-1] if ty.endswith('*') else ty
            if ctx is not None and i == ctx[0]:
                b = ('H', ('in', 'block', i), 0)
                st.heap[b] = ('escaped', 'mem')
                j = ctx[1]
                st.mem[b] = {'*': (('any',), None), SZ: (linadd(symav(T.get(('in', n, j), 0, (1 << 31) - 1)), ('c', ctx[2])), 'i64', ('t', 'size'))}
                args.append(('p', b, 0))
            elif ctx is not None and i == ctx[1]:
                args.append(symav(T.get(('in', n, i), 0, (1 << 31) - 1)))
            elif x['t'] == 'ptr' and any(v[0] == ty for v in VEC):
                cells = {}
                for stn, ptr, ln, es, po, lo_, lty in VEC:
                    if stn != ty:
                        continue
                    L = symav(T.get(('in', ln, i), 1 if stn in ('cbuf', 'cligen_handle') else 0, BIG if lty == 'i64' else 1 << 28))
                    b = ('H', ('in', ptr, i), 0)
                    st.heap[b] = ('escaped', 'mem')
                    st.mem[b] = {'*': (('any',), None), SZ: (mul(L, es), 'i64', ('t', 'size'))}
                    cells[ptr] = ('p', b, 0); cells[ln] = L
                    if stn == 'cbuf':
                        S = cells['cb_strlen'] = symav(T.get(('in', 'cb_strlen', i), 0, BIG))
                        d = linadd(S, L, -1)
                        st.rel[d[1]] = -1 - d[2]
                o = argobj(p, st, i, ty, cells)
                args.append(o); objs.append((o[1], ty))
            elif x['t'] == 'ptr':
                args.append(ptrav(T.get(('arg', i, 'ptr'), 0, INF)))
            else:
                lo, hi = trange(width(x['t']))
                if x['t'] == 'i64':
                    lo, hi = 0, BIG
                args.append(symav(T.get(('in', n, i), lo, hi)))
        I = SpecInterp(p, {'strict': False}, [h], 2, True)
        I.genjoin = True
        I.joinstrip = strip
        I.inline_when = lambda fn, a: fn.nins < 80
        rty = f.sig[0].replace('struct ', '').replace(' *', '*').strip()
        for rv, s, ins in I.run(f, args, st):
            here = list(objs)
            if rv is not None and rty.endswith('*') and any(v[0] == rty[:-1] for v in VEC):
                v = norm(s, rv)
                if v[0] == 'p' and v[1][0] == 'H':
                    here.append((v[1], rty[:-1]))
            for b, ty in here:
                if s.heap.get(b, ('',))[0] == 'freed':
                    continue
                m = s.mem.get(b) or {}
                g = lambda o: norm(s, (m.get(o) or m.get('*') or (('any',),))[0])
                for stn, ptr, ln, es, po, lo_, lty in VEC:
                    if stn != ty:
                        continue
                    what = 'what %s.%s says of %s' % (stn, ln, ptr)
                    key = (n, 'exit', what)
                    seen.add(key)
                    B, L = g(po), g(lo_)
                    L = strip(L) if L[0] in 'lc' else L
                    if B == ZERO or B[0] == 'z':  # no block at all (failed, or released with its owner)
                        ok.add(key)
                        continue
                    z = ZERO if B[0] == 'p' and s.heap.get(B[1], ('',))[0] == 'freed' else (h.room(I, None, s, B) or (None,))[0]
                    good = z is not None and L[0] in 'lc' and fits(s, linadd(mul(L, es) if L[0] == 'l' else ('c', L[1] * es), strip(z), -1))
                    S = None
                    if stn == 'cbuf':
                        S = g(TEXT)
                        good = good and S[0] in 'lc' and atmost(s, linadd(S, L, -1), -1) and atmost(s, linadd(ZERO, S, -1), 0)
                    if good:
                        ok.add(key)
                    else:
                        h.bad.setdefault((n, f.loc(ins), what), ('%s%s * %d <= %s' % (show(S) + ' < ' if S else '', show(L), es, show(z)), trail_(s)))
            if n in INCREASE and rv is not None and objs:
                what = 'the room asked for'
                ln = INCREASE[n]
                v = norm(s, rv)
                key = (n, 'exit', what)
                seen.add(key)
                L = norm(s, ((s.mem.get(objs[0][0]) or {}).get(member(p, 'cligen_handle', ln)[0]) or (('any',),))[0])
                if decide(s, 'eq', v, ZERO) is False or L[0] in 'lc' and fits(s, linadd(linadd(norm(s, args[1]), ('c', 1)), strip(L), -1)):
                    ok.add(key)
                else:
                    h.bad.setdefault((n, f.loc(ins), what), ('%s > %s' % (show(L), show(args[1])), trail_(s)))
        if I.capped:
            gave.append(n)
        for (fn, loc, what), (size, tr) in sorted(h.bad.items()):
            fs.append(finding('block|%s|%s' % (fn, what), '%s %s' % (loc, fn), '%s is not shown to stay inside the block (%s)' % (what, size), 'block size', tr or ()))
        ok |= h.ok; seen |= h.seen
        todo += sorted(h.next)
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS[:3],
            'coverage': dict(p.stats(), functions=sorted(n for n, c in roots), contexts=len(done), not_analysed_to_the_end=gave, obligations=len(seen), obligations_shown=len(ok), sites=sorted('%s %s %s' % x for x in seen),
                             explanation='%d writes to blocks in %d functions' % (len(seen), len({n for n, c in done})))}
