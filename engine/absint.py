"""Path-partitioned abstract interpretation of the library's SSA form.

Values, memory, ownership and failure flags are tracked per abstract state; states that
agree on ownership, failures and the constants/pointers held in variables are joined at
every control-flow merge (property-directed partitioning), loops are widened, functions are
summarised bottom-up as sets of outcomes.  Nothing is executed and no solver is used: every
decision is an interval / equality / difference look-up in the abstract state."""
import sys
from front import Program, Broken, operands, sccs
sys.setrecursionlimit(20000)

I64 = (-(1 << 63), (1 << 63) - 1)
INF = 1 << 70
ZERO = ('c', 0)
UNDEF = ('u',)
CAPS = (48, 110, 220)
DEPTH = 5


def trange(w):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1)


def width(t):
    if t and t[0] == 'i' and t[1:].isdigit():
        return int(t[1:])
    return 64


# ---------------------------------------------------------------- symbols
class SymTab:
    def __init__(self):
        self.ids = {}; self.desc = []; self.dflt = []; self.deps = []; self.depth = []

    def get(self, desc, lo=-INF, hi=INF):
        i = self.ids.get(desc)
        if i is None:
            i = len(self.desc)
            self.ids[desc] = i
            self.desc.append(desc)
            self.dflt.append((lo, hi))
            d, dp = self._deps(desc)
            if desc[0] in ('arg', 'r', 'e', 'j', 'in'):
                d = d | {i}
            self.deps.append(frozenset(d))
            self.depth.append(dp + 1)
        return i

    def _deps(self, x):
        """root symbols a description depends on (symbols appear as ('s',id) or inside AVs)"""
        out = set(); dp = 0
        st = [x]
        while st:
            y = st.pop()
            if isinstance(y, tuple) and y:
                if y[0] == 'D' and len(y) == 2 and isinstance(y[1], int):
                    out |= self.deps[y[1]]; dp = max(dp, self.depth[y[1]])
                elif y[0] == 'l' and len(y) == 3 and isinstance(y[1], tuple):
                    for (s, c) in y[1]:
                        out |= self.deps[s]; dp = max(dp, self.depth[s])
                elif y[0] == 'E' and len(y) == 2 and isinstance(y[1], int):
                    out |= self.deps[y[1]]
                else:
                    st.extend(y)
        return out, dp


T = SymTab()


def av_syms(av, out):
    k = av[0]
    if k == 'l':
        for (s, c) in av[1]:
            out.add(s)
    elif k == 'p':
        if av[1][0] == 'D':
            out.add(av[1][1])
        if isinstance(av[2], tuple):
            for (s, c) in av[2][1]:
                out.add(s)
    elif k == 'cmp':
        av_syms(av[2], out); av_syms(av[3], out)


def base_deps(b):
    return T.deps[b[1]] if b[0] == 'D' else frozenset()


# ---------------------------------------------------------------- state
class St:
    __slots__ = ('env', 'mem', 'facts', 'rel', 'heap', 'mon', 'ep', 'gen', 'tr', 'tmp', 'maybe')

    def __init__(self):
        self.env = {}; self.mem = {}; self.facts = {}; self.rel = {}; self.heap = {}
        self.mon = frozenset(); self.ep = {}; self.gen = frozenset(); self.tr = None; self.tmp = None; self.maybe = frozenset()

    def copy(self):
        s = St.__new__(St)
        s.env = dict(self.env); s.mem = dict(self.mem); s.facts = dict(self.facts)
        s.rel = dict(self.rel) if self.rel else {}
        s.heap = dict(self.heap); s.mon = self.mon; s.ep = self.ep; s.gen = self.gen; s.tr = self.tr
        s.tmp = self.tmp; s.maybe = self.maybe
        return s


def isconst(a):
    return a[0] in ('c', 'z')


def cval(a):
    return a[1] if a[0] == 'c' else 0


def mklin(terms, k):
    t = tuple(sorted((s, c) for s, c in terms.items() if c))
    if not t:
        return ('c', k)
    return ('l', t, k)


def lin(a):
    """affine view of an int AV or None"""
    if a[0] == 'c':
        return {}, a[1]
    if a[0] == 'z':
        return {}, 0
    if a[0] == 'l':
        return dict(a[1]), a[2]
    return None


def linadd(a, b, m=1):
    la, lb = lin(a), lin(b)
    if la is None or lb is None:
        return None
    t = dict(la[0])
    for s, c in lb[0].items():
        t[s] = t.get(s, 0) + m * c
    return mklin(t, la[1] + m * lb[1])


def symav(s):
    return ('l', ((s, 1),), 0)


def ptrav(s):
    return ('p', ('D', s), 0)


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def fact(st, s):
    f = st.facts.get(s)
    if f is None:
        d = T.dflt[s]
        return d[0], d[1], ()
    return f


def setfact(st, s, lo, hi, ne):
    """returns False if infeasible"""
    while lo in ne:
        lo += 1
    while hi in ne:
        hi -= 1
    if lo > hi:
        return False
    ne = tuple(x for x in ne if lo < x < hi)
    if len(ne) > 60:
        ne = ne[-60:]
    st.facts[s] = (lo, hi, ne)
    return True


def norm(st, a):
    """replace symbols known to be constant"""
    if a[0] == 'l':
        t = a[1]
        for (s, c) in t:
            f = st.facts.get(s)
            if f and f[0] == f[1]:
                d = {}; k = a[2]
                for (s2, c2) in t:
                    f2 = st.facts.get(s2)
                    if f2 and f2[0] == f2[1]:
                        k += c2 * f2[0]
                    else:
                        d[s2] = d.get(s2, 0) + c2
                return mklin(d, k)
    elif a[0] == 'p' and a[1][0] == 'D':
        f = st.facts.get(a[1][1])
        if f and f[0] == 0 and f[1] == 0:
            if a[2] == 0:
                o = st.tmp.get(('zo', a[1][1])) if st.tmp else None
                return ('z', o) if o else ZERO
            if isinstance(a[2], int):
                return ('c', a[2])
    elif a[0] == 'p' and a[1][0] == 'H' and a[2] == 0 and st.heap.get(a[1], ('',))[0] == 'none':
        return ZERO
    elif a[0] == 'cmp':
        r = decide(st, a[1], a[2], a[3])
        if r is not None:
            return ('c', 1) if r else ZERO
    return a


def interval(st, a):
    if a[0] == 'c':
        return a[1], a[1]
    if a[0] == 'z':
        return 0, 0
    if a[0] == 'l':
        lo = hi = a[2]
        for (s, c) in a[1]:
            f = st.facts.get(s)
            l, h = (f[0], f[1]) if f else T.dflt[s]
            if c > 0:
                lo += c * l; hi += c * h
            else:
                lo += c * h; hi += c * l
        return lo, hi
    if a[0] == 'p':
        if nonnull(st, a):
            return 1, INF
        return 0, INF
    if a[0] == 'f':
        return 1, INF
    if a[0] == 'cmp':
        return 0, 1
    return -INF, INF


def nonnull(st, a):
    if a[0] == 'p':
        b = a[1]
        if b[0] != 'D':
            return not (b[0] == 'H' and b in st.maybe)
        f = fact(st, b[1])
        if f[0] > 0 or 0 in f[2]:
            return True
        return a[2] != 0
    return a[0] == 'f'


def reldiff(st, t):
    """upper bound c known for affine terms t == a-b (tuple of (sym,coef)), i.e. t <= c"""
    return st.rel.get(t)


def decide(st, pred, a, b):
    """three-valued comparison"""
    if a[0] == 'cmp' and isconst(b):
        r = decide(st, a[1], a[2], a[3])
        c = cval(b)
        if r is None:
            if pred in ('eq', 'ne') and c not in (0, 1):
                return pred == 'ne'
            return None
        v = 1 if r else 0
        return _cc(pred, v, c)
    if b[0] == 'cmp' and isconst(a):
        return decide(st, SWAP[pred], b, a)
    a = norm(st, a); b = norm(st, b)
    if isconst(a) and isconst(b):
        return _cc(pred, cval(a), cval(b))
    ap = a[0] in ('p', 'f'); bp = b[0] in ('p', 'f')
    if ap or bp:
        if isconst(b) and cval(b) == 0 or isconst(a) and cval(a) == 0:
            x = a if ap else b
            if pred in ('eq', 'ne'):
                if nonnull(st, x):
                    return pred == 'ne'
                return None
            if nonnull(st, x) and ap and pred in ('ugt',):
                return True
            return None
        if ap and bp and a[0] == 'p' and b[0] == 'p':
            if a[1] == b[1]:
                oa = a[2] if a[2] is None or not isinstance(a[2], int) else ('c', a[2])
                ob = b[2] if b[2] is None or not isinstance(b[2], int) else ('c', b[2])
                if oa is None or ob is None:
                    return None
                p2 = {'ult': 'slt', 'ugt': 'sgt', 'ule': 'sle', 'uge': 'sge'}.get(pred, pred)
                return decide(st, p2, oa, ob)
            if pred in ('eq', 'ne'):
                ka, kb = a[1][0], b[1][0]
                if ka in ('A', 'H', 'G') and kb in ('A', 'H', 'G'):
                    if a[1][0] == 'H' and a[1] != b[1] or a[1] != b[1]:
                        return pred == 'ne'
                if (ka == 'H' and kb == 'D' or ka == 'D' and kb == 'H'):
                    h = a[1] if ka == 'H' else b[1]
                    if st.heap.get(h, ('', 0))[0] == 'owned':
                        return pred == 'ne'
        if a[0] == 'f' and b[0] == 'f':
            if pred == 'eq':
                return a[1] == b[1]
            if pred == 'ne':
                return a[1] != b[1]
        return None
    if pred in ('eq', 'ne') and a == b and a[0] != 'u':
        return pred == 'eq'
    if a[0] == 'u' or b[0] == 'u':
        return None
    la, ha = interval(st, a); lb, hb = interval(st, b)
    d = linadd(a, b, -1)
    if d is not None:
        if d[0] == 'c':
            v = d[1]
            if pred in ('eq', 'ne'):
                return (v == 0) == (pred == 'eq')
            if pred[0] == 's' or (la >= 0 and lb >= 0) or (ha < 0 and hb < 0):
                return {'lt': v < 0, 'le': v <= 0, 'gt': v > 0, 'ge': v >= 0}[pred[1:]]
        dl, dh = interval(st, d)
        if st.rel and d[0] == 'l':
            c = st.rel.get(d[1])
            if c is not None:
                dh = min(dh, c + d[2])
            neg = tuple((s, -k) for s, k in d[1])
            c = st.rel.get(neg)
            if c is not None:
                dl = max(dl, -c + d[2])
        if pred[0] == 's' or pred in ('eq', 'ne') or (la >= 0 and lb >= 0) or (ha < 0 and hb < 0):
            p = pred if pred in ('eq', 'ne') else pred[1:]
            if p == 'eq' or p == 'ne':
                if dl > 0 or dh < 0:
                    return p == 'ne'
                if dl == 0 and dh == 0:
                    return p == 'eq'
                if len(d[1]) == 1 and d[1][0][1] in (1, -1):
                    s, c = d[1][0]
                    f = fact(st, s)
                    v = -d[2] * c
                    if v in f[2]:
                        return p == 'ne'
            elif p == 'lt':
                if dh < 0: return True
                if dl >= 0: return False
            elif p == 'le':
                if dh <= 0: return True
                if dl > 0: return False
            elif p == 'gt':
                if dl > 0: return True
                if dh <= 0: return False
            elif p == 'ge':
                if dl >= 0: return True
                if dh < 0: return False
            return None
    if pred[0] == 'u':
        # unsigned with possibly negative side
        if la >= 0 and hb < 0:
            return pred in ('ult', 'ule')
        if ha < 0 and lb >= 0:
            return pred in ('ugt', 'uge')
        if isconst(b) and cval(b) == 0:
            if pred == 'ult': return False
            if pred == 'uge': return True
            if pred == 'ugt':
                return decide(st, 'ne', a, b)
            if pred == 'ule':
                return decide(st, 'eq', a, b)
    return None


def _cc(pred, x, y):
    if pred == 'eq': return x == y
    if pred == 'ne': return x != y
    if pred[0] == 'u':
        if x < 0: x += 1 << 64
        if y < 0: y += 1 << 64
    p = pred[1:]
    return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]


def assume(st, cond, truth):
    """constrain st by an i1 AV; False when contradictory"""
    if isconst(cond):
        return bool(cval(cond)) == truth
    if cond[0] == 'cmp':
        pred = cond[1] if truth else NEG[cond[1]]
        return assume_cmp(st, pred, cond[2], cond[3])
    if cond[0] == 'l':
        return assume_cmp(st, 'ne' if truth else 'eq', cond, ZERO)
    return True


def assume_cmp(st, pred, a, b):
    if a[0] == 'cmp' and isconst(b) and pred in ('eq', 'ne'):
        c = cval(b)
        if c in (0, 1):
            t = (c == 1) == (pred == 'eq')
            return assume(st, a, t)
        return pred == 'ne'
    if b[0] == 'cmp' and isconst(a):
        return assume_cmp(st, SWAP[pred], b, a)
    r = decide(st, pred, a, b)
    if r is not None:
        return r
    a = norm(st, a); b = norm(st, b)
    if isconst(a) and not isconst(b):
        a, b = b, a; pred = SWAP[pred]
    # pointers
    if a[0] == 'p':
        if isconst(b) and cval(b) == 0 and a[1][0] == 'H' and a[1] in st.maybe and a[2] == 0:
            st.maybe = st.maybe - {a[1]}
            if pred == 'eq':
                st.heap[a[1]] = ('none', None)
            return True
        if isconst(b) and cval(b) == 0 and a[1][0] == 'D' and a[2] == 0:
            s = a[1][1]
            f = fact(st, s)
            if pred == 'eq':
                return setfact(st, s, 0, 0, f[2])
            if pred in ('ne', 'ugt'):
                return setfact(st, s, max(f[0], 0), f[1], f[2] + (0,))
        return True
    if a[0] == 'l':
        d = linadd(a, b, -1)
        if d is None or d[0] != 'l':
            return True
        # d pred 0
        la, ha = interval(st, a); lb, hb = interval(st, b)
        p = pred
        if pred[0] == 'u':
            if la >= 0 and lb >= 0:
                p = 's' + pred[1:]
            elif lb >= 0 and pred in ('ult', 'ule'):
                # a as unsigned below a non-negative bound: a is in [0, b)
                if not assume_cmp(st, 'sge', a, ZERO):
                    return False
                return assume_cmp(st, 's' + pred[1:], a, b)
            else:
                return True
        if len(d[1]) == 1:
            s, c = d[1][0]
            k = d[2]
            f = fact(st, s)
            lo, hi, ne = f
            if p == 'eq':
                if k % c: return False
                v = -k // c
                if v < lo or v > hi or v in ne: return False
                return setfact(st, s, v, v, ())
            if p == 'ne':
                if k % c == 0:
                    return setfact(st, s, lo, hi, ne + (-k // c,))
                return True
            # c*s + k < 0 etc
            import math
            if p in ('slt', 'sle'):
                lim = -k - (1 if p == 'slt' else 0)      # c*s <= lim
                if c > 0: hi = min(hi, lim // c)
                else: lo = max(lo, -(lim // -c))
            else:
                lim = -k + (1 if p == 'sgt' else 0)      # c*s >= lim
                if c > 0: lo = max(lo, -((-lim) // c))
                else: hi = min(hi, (-lim) // (-c))
            return setfact(st, s, lo, hi, ne)
        # two or more symbols: difference fact
        t = d[1]; k = d[2]
        neg = tuple((s, -c) for s, c in t)
        if p in ('slt', 'sle', 'eq'):
            c = -k - (1 if p == 'slt' else 0)
            o = st.rel.get(t)
            st.rel[t] = c if o is None else min(o, c)
        if p in ('sgt', 'sge', 'eq'):
            c = k - (1 if p == 'sgt' else 0)
            o = st.rel.get(neg)
            st.rel[neg] = c if o is None else min(o, c)
        if p == 'ne':
            # tighten x<=c to x<c
            o = st.rel.get(t)
            if o is not None and o == -k: st.rel[t] = o - 1
            o = st.rel.get(neg)
            if o is not None and o == k: st.rel[neg] = o - 1
        # push bounds through intervals when possible
        if p in ('slt', 'sle') and len(t) == 2:
            _tighten(st, a, b, p)
        if p in ('sgt', 'sge') and len(t) == 2:
            _tighten(st, b, a, 'slt' if p == 'sgt' else 'sle')
        return True
    return True


def _tighten(st, a, b, p):
    # a < b : a.hi <= b.hi - 1, b.lo >= a.lo + 1
    k = 1 if p == 'slt' else 0
    la, ha = interval(st, a); lb, hb = interval(st, b)
    if a[0] == 'l' and len(a[1]) == 1 and a[1][0][1] == 1 and hb < INF:
        s = a[1][0][0]; f = fact(st, s)
        if hb - k - a[2] < f[1]:
            setfact(st, s, f[0], hb - k - a[2], f[2])
    if b[0] == 'l' and len(b[1]) == 1 and b[1][0][1] == 1 and la > -INF:
        s = b[1][0][0]; f = fact(st, s)
        if la + k - b[2] > f[0]:
            setfact(st, s, la + k - b[2], f[1], f[2])


# ---------------------------------------------------------------- renaming
class Renamer:
    """rename symbols/bases in a state.  smap: root symbol -> symbol; bmap: base -> base"""

    def __init__(self, smap, bmap=None):
        self.smap = smap; self.bmap = bmap or {}
        self.memo = {}
        self.roots = frozenset(smap)

    def sym(self, s):
        if s in self.smap:
            return self.smap[s]
        if not self.bmap and not (T.deps[s] & self.roots):
            return s
        r = self.memo.get(s)
        if r is None:
            d = T.desc[s]
            d2 = self.rec(d)
            r = s if d2 == d else T.get(d2, *T.dflt[s])
            self.memo[s] = r
        return r

    def rec(self, x):
        if isinstance(x, tuple) and x:
            if x in self.bmap:
                return self.bmap[x]
            if x[0] == 'D' and len(x) == 2 and isinstance(x[1], int):
                return ('D', self.sym(x[1]))
            if x[0] == 'E' and len(x) == 2 and isinstance(x[1], int):
                return ('E', self.sym(x[1]))
            if x[0] == 'l' and len(x) == 3 and isinstance(x[1], tuple):
                return self.av(x)
            return tuple(self.rec(y) for y in x)
        return x

    def base(self, b):
        b = self.bmap.get(b, b)
        if b[0] == 'D':
            s = self.sym(b[1])
            return b if s == b[1] else ('D', s)
        if b[0] == 'H':
            b2 = self.rec(b)
            return b if b2 == b else b2
        return b

    def off(self, o):
        return self.av(o) if isinstance(o, tuple) else o

    def av(self, a):
        k = a[0]
        if k == 'l':
            ch = False
            for (s, c) in a[1]:
                if self.sym(s) != s:
                    ch = True; break
            if not ch:
                return a
            t = {}
            for (s, c) in a[1]:
                s2 = self.sym(s); t[s2] = t.get(s2, 0) + c
            return mklin(t, a[2])
        if k == 'p':
            b = self.base(a[1]); o = self.off(a[2])
            if isinstance(o, tuple) and o[0] == 'c':
                o = o[1]
            return a if (b is a[1] and o is a[2]) else ('p', b, o)
        if k == 'cmp':
            return ('cmp', a[1], self.av(a[2]), self.av(a[3]))
        return a

    def state(self, st):
        for i, a in st.env.items():
            b = self.av(a)
            if b is not a:
                st.env[i] = b
        mem = {}
        for b, cells in st.mem.items():
            b2 = self.base(b)
            nc = None
            for o, c in cells.items():
                if o == '*':
                    c2 = self.star(c); o2 = o
                else:
                    v = self.av(c[0]); o2 = self.off(o)
                    if isinstance(o2, tuple) and o2[0] == 'c':
                        o2 = o2[1]
                    c2 = c if v is c[0] else (v,) + c[1:]
                if c2 is not c or o2 is not o:
                    if nc is None:
                        nc = dict(cells)
                    if o2 is not o and o in nc:
                        del nc[o]
                    nc[o2] = c2
            if b2 in mem:
                mem[b2] = {}       # two bases collapsed: forget contents
            else:
                mem[b2] = nc if nc is not None else cells
        st.mem = mem
        fa = {}
        for s, f in st.facts.items():
            s2 = self.sym(s)
            if s2 != s and any(T.desc[r][:2] == ('in', 'older') for r in T.deps[s2]):
                continue
            if s2 in fa:
                g = fa[s2]
                fa[s2] = (min(f[0], g[0]), max(f[1], g[1]), tuple(x for x in f[2] if x in g[2]))
            else:
                fa[s2] = f
        st.facts = fa
        if st.rel:
            rel = {}
            for t, c in st.rel.items():
                d = {}
                for (s, k) in t:
                    s2 = self.sym(s); d[s2] = d.get(s2, 0) + k
                t2 = tuple(sorted((s, k) for s, k in d.items() if k))
                if len(t2) >= 2:
                    rel[t2] = max(c, rel[t2]) if t2 in rel else c
            st.rel = rel
        h = {}
        for b, v in st.heap.items():
            b2 = self.base(b)
            if b2 in h and h[b2] != v:
                h[b2] = ('any', None)
            else:
                h[b2] = v
        st.heap = h
        if st.maybe:
            st.maybe = frozenset(self.base(b) for b in st.maybe)
        if st.tmp and 'held' in st.tmp:
            t = dict(st.tmp); t['held'] = tuple(self.av(a) for a in t['held'])
            st.tmp = t

    def star(self, c):
        if c[0] == 'copy':
            return ('copy', self.base(c[1])) + c[2:]
        return c


def retired(s):
    """name for the previous generation of a symbol"""
    d = T.desc[s]
    return T.get(('in', 'old', s) if not (d[0] == 'in' and d[1] == 'old') else ('in', 'older', d[2]), *T.dflt[s])


def age(st, roots, bases=()):
    """an instruction in a loop is about to re-create these symbols / heap bases"""
    smap = {}
    for s in roots:
        o = T.get(('in', 'old', s), *T.dflt[s])
        oo = T.get(('in', 'older', s), *T.dflt[s])
        smap[s] = o; smap[o] = oo; smap[oo] = oo
        st.facts.pop(oo, None)
    bmap = {}
    for b in bases:
        o = ('H', 'old', b)
        bmap[b] = o
        if o in st.heap and b in st.heap:
            if st.heap[o][0] != st.heap[b][0]:
                st.heap[o] = ('any', None); st.heap[b] = ('any', None)
    Renamer(smap, bmap).state(st)
