"""Set/get pairs: what a setter stores, what its getter then returns, and aliasing of the new with the present value."""
from spec import *
from common import *

# an argument that is a truth value kept in a char
TRUTH = {'cligen_exiting_set', 'cv_const_set', 'pt_sets_set', 'co_sets_set'}
# the value kept is documented to depend on the terminal / to be limited
LIMITED = {'cligen_terminal_rows_set': 'set only when the terminal does not tell its own size',
           'cligen_terminal_width_set': 'limited to the editor buffer'}
# other memory a setter may touch: bookkeeping, and the line editor's copy of its settings
AUX = {'errno', '_co_count', '_co_created'}
AUXOF = {'cligen_terminal_width_set': {'gl_scrollw'}, 'gl_setwidth': {'gl_scrollw'}}


class Trace(Hook):
    def __init__(self):
        self.blk = {}; self.w = {}; self.r = set(); self.src = {}; self.sizes = {}

    def store(self, I, fr, ins, st, base, off, v):
        self.w.setdefault((base, off if isinstance(off, int) else None), []).append((fr.fn.loc(ins), fr.fn.name, v))

    def access(self, I, fr, ins, st, q, wr):
        q = norm(st, q)
        if q[0] == 'p':
            k = (q[1], q[2] if isinstance(q[2], int) else None)
            if wr and ins['op'] != 'store':
                self.w.setdefault(k, []).append((fr.fn.loc(ins), fr.fn.name, None))
            elif not wr:
                self.r.add(k)

    def alloc(self, I, fr, ins, st, name, args, b):
        if name == 'strdup':
            self.src.setdefault(b, set()).add((norm(st, args[0]), True))
        elif name in ('malloc', 'calloc'):
            self.sizes[b] = norm(st, args[-1])

    same = None

    def call(self, I, fr, ins, st, name, args):
        if name == 'strcmp' and self.same and len(args) == 2 and {norm(st, args[0]), norm(st, args[1])} == self.same:
            s2 = st.copy()
            st.mon = st.mon | {('S', 'same')}
            return [(ZERO, st), (I.fresh(s2, fr, ins['i'], 'ne', None, 1, 1), s2)]
        if name in ('strcpy', 'stpcpy', 'llvm.memcpy.p0.p0.i64', 'memcpy', 'llvm.memmove.p0.p0.i64', 'memmove', 'strncpy', 'strlcpy'):
            d = norm(st, args[0])
            if d[0] == 'p' and d[1][0] != 'H' and len(args) > 2:
                s = norm(st, args[1])
                cells = st.mem.get(s[1], {}) if s[0] == 'p' else {}
                self.blk[(d[1], d[2])] = (s, norm(st, args[2]), tuple(norm(st, c[0]) for o, c in sorted((x for x in cells.items() if x[0] != '*'), key=str)))
            if d[0] == 'p' and d[1][0] == 'H':
                s = norm(st, args[1])
                full = d[2] == 0
                if len(args) > 2:
                    ln = libc.strlen_av(I, st, fr, ins, s)
                    full = full and decide(st, 'sgt', args[2], ln) is True
                self.src.setdefault(d[1], set()).add((s, full))
        return None


import libc


def copies(p):
    """functions that hand back a fresh copy of their string argument (strdup and the library's own)"""


def pairs(p):
    for s in sorted(p.defined):
        if s.endswith('_set'):
            for g in (s[:-4] + '_get', s[:-4]):
                if g in p.defined and not generated(p.defined[s].file + ':1'):
                    yield s, g
                    break


def mkargs(p, f, rng=None, vals=None):
    st = St(); args = []
    for i, x in enumerate(f.params):
        if x['t'] == 'ptr':
            args.append(ptrav(T.get(('arg', i, 'ptr'), 0, INF)))
        else:
            lo, hi = rng or trange(width(x['t']))
            args.append(symav(T.get(('in', f.name, i, lo), lo, hi)))
    if f.params and f.params[0]['t'] == 'ptr':
        st.facts[args[0][1][1]] = (1, INF, ())
    return args, st


def onobj(f):
    return bool(f.params) and f.params[0]['t'] == 'ptr'


def get(p, g, args, st, obj):
    fg = p.defined[g]
    ga = [args[0]] if obj else []
    outs = []
    st = st.copy()
    while len(ga) < len(fg.params):
        b = ('A', 'out', len(ga)); st.mem[b] = {'*': (UNDEF, None)}; outs.append(b); ga.append(('p', b, 0))
    h = Trace()
    I = SpecInterp(p, None, [h], 4, True)
    res = []
    for rv, s, ins in I.run(fg, ga, st):
        vals = [norm(s, rv)] if not outs else [norm(s, s.mem[b][0][0]) if 0 in s.mem.get(b, {}) else ('none',) for b in outs]
        res.append((vals, s))
    return I, res, h


def string_setters(p):
    """(setter, getter, index of the string argument): setters that keep a copy of their string"""
    for s, g in pairs(p):
        f = p.defined[s]
        if onobj(f) and f.sig[-1] in ('char*', 'const char*') and len(f.params) == 2 and s not in TAKES:
            yield s, g, 1
    if 'cv_strncpy' in p.defined:
        yield 'cv_strncpy', 'cv_string_get', 1


# documented to take over the caller's block
TAKES = {'mr_reason_set', 'cv_string_set_direct'}


def strfield(p, s, g):
    """offset of the string in the object, as the getter reads it"""
    args, st = mkargs(p, p.defined[s])
    I, res, h = get(p, g, args, st, True)
    offs = set()
    for vals, s0 in res:
        for v in vals:
            for k, x in s0.mem.get(args[0][1], {}).items():
                if k != '*' and x[0] == v and v[0] == 'p':
                    offs.add(k)
    if len(offs) != 1:
        raise Broken('%s: the member read by %s is not recognised (%s)' % (s, g, offs))
    return offs.pop()


def run_string(p, s, g, k, old, new):
    """old: 'set'/'null'; new: 'other'/'null'/'inside'.  Yields (events, [(value, sources, state of its block, refused, loc)])"""
    f = p.defined[s]
    off = strfield(p, s, g)
    args, st = mkargs(p, f)
    V = ('H', ('in', 'present'), 0); N = ('H', ('in', 'new'), 0)
    for b in (V, N):
        st.heap[b] = ('live', 'mem'); st.mem[b] = {'*': (('any',), None)}
    st.mem[args[0][1]] = {off: (('p', V, 0) if old == 'set' else ZERO, 'ptr', None)}
    K = sym('K', 0, 1 << 20)
    arg = {'other': ('p', N, 0), 'null': ZERO, 'inside': ('p', V, K)}[new]
    args[k] = arg
    h = Trace()
    h.same = {arg, ('p', V, 0)}
    I = SpecInterp(p, None, [h], 4, True)
    out = []
    for rv, s1, ins in I.run(f, args, st.copy()):
        if any(m[0] == 'F' for m in s1.mon):
            continue
        if s1.mon and s1.heap[V][0] == 'live':
            continue            # the new string equals the present one, which is kept
        r = norm(s1, rv) if f.ret != 'void' else None
        if r == ('c', -1):
            out.append((None, None, None, True, f.loc(ins))); continue
        I2, res, h2 = get(p, g, args, s1, True)
        for vals, s2 in res:
            v = vals[0]
            blk = v[1] if v[0] == 'p' else None
            # only what the getter reads from the object itself
            cur = s1.mem.get(args[0][1], {}).get(off, (None,))[0]
            if cur is not None and norm(s1, cur) != v and old == 'set':
                continue
            out.append((v, h.src.get(blk), s1.heap.get(blk, ('',))[0], False, f.loc(ins)))
    ev = [e for d in I.events.values() for e in d.values()]
    return ev, out, arg, h, off, args
