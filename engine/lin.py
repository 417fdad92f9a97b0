"""Abstract interpretation with linear inequalities over symbolic quantities (a small polyhedra domain): sizes of blocks,
positions of terminators, indices and lengths are linear terms over symbols, the state keeps inequalities term >= 0.
Paths are kept apart up to a limit and then joined: inequalities that hold in both states are kept."""
import itertools, sys
sys.setrecursionlimit(50000)
NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}

# ---- linear terms: (const, ((sym, coef), ...)) sorted by sym

def K(c): return ('L', c, ())
def S(s): return ('L', 0, ((s, 1),))
Z0 = K(0); ONE = K(1)


def add(x, y, k=1):
    if not y[2]:
        return ('L', x[1] + k * y[1], x[2])
    d = dict(x[2])
    for s, c in y[2]:
        n = d.get(s, 0) + k * c
        if n:
            d[s] = n
        else:
            d.pop(s, None)
    return ('L', x[1] + k * y[1], tuple(sorted(d.items())))


def sub(x, y): return add(x, y, -1)
def plus(x, n): return ('L', x[1] + n, x[2])
def mulk(x, k): return ('L', x[1] * k, tuple((s, c * k) for s, c in x[2])) if k else Z0
def isk(x): return x[0] == 'L' and not x[2]
def issym(x): return x[0] == 'L' and x[1] == 0 and len(x[2]) == 1 and x[2][0][1] == 1


def lsub(x, s, t):
    """x with symbol s replaced by term t"""
    for q, c in x[2]:
        if q == s:
            return add(('L', x[1], tuple(p for p in x[2] if p[0] != s)), t, c)
    return x


def lmap(x, m):
    r = ('L', x[1], tuple(p for p in x[2] if p[0] not in m))
    for s, c in x[2]:
        t = m.get(s)
        if t is not None:
            r = add(r, t, c)
    return r


def norm(q):
    """divide by the gcd of the coefficients (integers)"""
    from math import gcd
    g = 0
    for s, c in q[2]:
        g = gcd(g, c)
    if g > 1:
        return ('L', q[1] // g, tuple((s, c // g) for s, c in q[2]))
    return q


_memo = {}


def infeasible(cons):
    """Fourier-Motzkin elimination; True if the inequalities (term >= 0) have no solution"""
    key = frozenset(cons)
    r = _memo.get(key)
    if r is None:
        if len(_memo) > 400000:
            _memo.clear()
        r = _memo[key] = fm(key)
    return r


def fm(cons):
    cs = set()
    for q in cons:
        if not q[2]:
            if q[1] < 0:
                return True
        else:
            cs.add(norm(q))
    steps = 0
    while cs:
        occ = {}
        for q in cs:
            for s, c in q[2]:
                o = occ.setdefault(s, [0, 0])
                o[c > 0] += 1
        s = min(occ, key=lambda k: (occ[k][0] * occ[k][1] - occ[k][0] - occ[k][1], k))
        pos = []; neg = []; rest = set()
        for q in cs:
            c = dict(q[2]).get(s, 0)
            (pos if c > 0 else neg).append((c, q)) if c else rest.add(q)
        steps += len(pos) * len(neg)
        if steps > 4000:
            return False
        best = {}
        for a, p in pos:
            for b, n in neg:
                x = norm(add(mulk(p, -b), n, a))
                if not x[2]:
                    if x[1] < 0:
                        return True
                else:
                    rest.add(x)
        # keep the tightest of parallel ones
        for q in rest:
            o = best.get(q[2])
            if o is None or q[1] < o[1]:
                best[q[2]] = q
        cs = set(best.values())
    return False


class LS:
    """state"""
    __slots__ = ('envs', 'mem', 'cons', 'zero', 'size', 'slen', 'prov', 'nn', 'dead', 'mon')

    def __init__(self):
        self.envs = []; self.mem = {}; self.cons = frozenset(); self.zero = {}; self.size = {}; self.slen = {}
        self.prov = {}; self.nn = frozenset(); self.mon = frozenset()

    def copy(self):
        r = LS()
        r.envs = [dict(e) for e in self.envs]; r.mem = dict(self.mem); r.cons = self.cons
        r.zero = dict(self.zero); r.size = dict(self.size); r.slen = dict(self.slen); r.prov = dict(self.prov)
        r.nn = self.nn; r.mon = self.mon
        return r

    # -- the constraint part
    def near(self, q):
        syms = {s for s, c in q[2]}
        out = set(); left = list(self.cons); grew = True
        while grew:
            grew = False; nl = []
            for c in left:
                if any(s in syms for s, k in c[2]):
                    out.add(c); grew = True
                    for s, k in c[2]:
                        syms.add(s)
                else:
                    nl.append(c)
            left = nl
        return out

    def holds(self, q):
        """q >= 0 follows"""
        if not q[2]:
            return q[1] >= 0
        if q in self.cons:
            return True
        neg = ('L', -q[1] - 1, tuple((s, -c) for s, c in q[2]))
        for c in self.cons:
            if c[2] == q[2] and c[1] <= q[1]:
                return True
        n = self.near(q)
        if not n:
            return False
        n.add(neg)
        return infeasible(n)

    def le(self, x, y): return self.holds(sub(y, x))
    def lt(self, x, y): return self.holds(plus(sub(y, x), -1))
    def eq(self, x, y): return x == y or self.le(x, y) and self.le(y, x)

    def need(self, q):
        """add q >= 0; False if that cannot be"""
        if not q[2]:
            return q[1] >= 0
        q = norm(q)
        if q in self.cons:
            return True
        neg = ('L', -q[1] - 1, tuple((s, -c) for s, c in q[2]))
        if self.holds(neg):
            return False
        if not self.holds(q):
            self.cons = frozenset([c for c in self.cons if not (c[2] == q[2] and c[1] >= q[1])] + [q])
        return True

    def replace(self, s, t):
        m = {s: t}
        self.cons = frozenset(x for x in (norm(lmap(c, m)) for c in self.cons) if x[2])
        for e in self.envs:
            for k in e:
                e[k] = vmap(e[k], m)
        self.mem = {k: vmap(v, m) for k, v in self.mem.items()}
        self.zero = {b: frozenset(lmap(e, m) for e in z) for b, z in self.zero.items()}
        self.size = {b: lmap(e, m) for b, e in self.size.items()}
        self.slen = {(b, lmap(o, m)): lmap(e, m) for (b, o), e in self.slen.items()}
        self.prov = {q: (b, lmap(o, m)) for q, (b, o) in self.prov.items() if q != s}

    def live(self):
        out = set()
        for e in self.envs:
            for v in e.values():
                vsyms(v, out)
        for k, v in self.mem.items():
            vsyms(v, out)
        for z in self.zero.values():
            for e in z:
                vsyms(e, out)
        for e in self.size.values():
            vsyms(e, out)
        return out

    def blocks(self):
        """blocks that the environments reach"""
        out = set()
        for e in self.envs:
            for v in e.values():
                vblocks(v, out)
        n = -1
        while n != len(out):
            n = len(out)
            for (b, o), v in self.mem.items():
                if b in out or b[0] in ('G', 'HANDLE', 'ROOT'):
                    vblocks(v, out)
        return out

    def equal(self):
        """a symbol that equals a term is replaced by it"""
        again = True
        while again:
            again = False
            by = {c[2]: c for c in self.cons}
            for c in self.cons:
                m = tuple((s, -k) for s, k in c[2])
                d = by.get(m)
                if d is not None and d[1] == -c[1]:
                    for s, k in reversed(c[2]):
                        if k in (1, -1):
                            self.replace(s, mulk(('L', c[1], tuple(p for p in c[2] if p[0] != s)), -k))
                            again = True
                            break
                    if again:
                        break

    def prune(self, keep=()):
        self.equal()
        bl = self.blocks() | set(keep)
        root = ('G', 'HANDLE', 'ROOT')
        self.mem = {k: v for k, v in self.mem.items() if k[0] in bl or k[0][0] in root}
        self.zero = {b: z for b, z in self.zero.items() if (b in bl or b[0] in root) and z}
        self.size = {b: z for b, z in self.size.items() if b in bl or b[0] in root}
        self.slen = {(b, o): z for (b, o), z in self.slen.items() if b in bl or b[0] in root}
        lv = self.live()
        self.slen = {(b, o): z for (b, o), z in self.slen.items() if all(s in lv for s, c in o[2] + z[2])}
        self.prov = {q: (b, o) for q, (b, o) in self.prov.items() if q in lv and all(s in lv for s, c in o[2])}
        self.project(lv)

    def project(self, lv):
        cs = set(self.cons)
        deads = {s for c in cs for s, k in c[2]} - lv
        while deads:
            occ = {s: [0, 0] for s in deads}
            for q in cs:
                for s, c in q[2]:
                    if s in occ:
                        occ[s][c > 0] += 1
            s = min(occ, key=lambda k: (occ[k][0] * occ[k][1], k))
            deads.discard(s)
            pos = []; neg = []; rest = set()
            for q in cs:
                c = dict(q[2]).get(s, 0)
                (pos if c > 0 else neg).append((c, q)) if c else rest.add(q)
            if len(pos) * len(neg) <= 30:
                for a, p in pos:
                    for b, n in neg:
                        x = norm(add(mulk(p, -b), n, a))
                        if x[2]:
                            rest.add(x)
            best = {}
            for q in rest:
                o = best.get(q[2])
                if o is None or q[1] < o[1]:
                    best[q[2]] = q
            cs = set(best.values())
        self.cons = frozenset(cs)


def vmap(v, m):
    k = v[0]
    if k == 'L':
        for s, c in v[2]:
            if s in m:
                return lmap(v, m)
        return v
    if k == 'P':
        o = vmap(v[2], m)
        return v if o is v[2] else ('P', v[1], o)
    if k == 'cmp':
        x, y = vmap(v[2], m), vmap(v[3], m)
        return v if x is v[2] and y is v[3] else ('cmp', v[1], x, y)
    if k in ('not', 'nz'):
        x = vmap(v[1], m)
        return v if x is v[1] else (k, x)
    if k == 'b2':
        return ('b2', v[1], vmap(v[2], m), vmap(v[3], m))
    return v


def vsyms(v, out):
    k = v[0]
    if k == 'L':
        for s, c in v[2]:
            out.add(s)
    elif k == 'P':
        for s, c in v[2][2]:
            out.add(s)
    elif k in ('cmp', 'b2'):
        vsyms(v[2], out); vsyms(v[3], out)
    elif k in ('not', 'nz'):
        vsyms(v[1], out)


def vblocks(v, out):
    k = v[0]
    if k == 'P':
        out.add(v[1])
    elif k in ('cmp', 'b2'):
        vblocks(v[2], out); vblocks(v[3], out)
    elif k in ('not', 'nz'):
        vblocks(v[1], out)


class Stop(Exception):
    pass


class Lin:
    CAP = 6
    ANON = ('O', 'H')
    MAXD = 6
    BUDGET = 60000

    def __init__(self, prog):
        self.p = prog
        self.ids = itertools.count(1)
        self.symtab = {}
        self.scc = {}
        for c in prog.order():
            for n in c:
                self.scc[n] = len(c) > 1 or n in prog.calls[n]
        self.steps = 0

    # ---- to be given by the rule
    def walk(self, f, st, args, used): return False        # callees analysed in their context
    def contract(self, st, fn, ins, name, args, chain): return None
    def on_write(self, st, fn, ins, blk, off, n, what): pass
    def load_hook(self, st, fn, ins, blk, off, ty): return None
    def store_hook(self, st, fn, ins, blk, off, v): return False
    def gep_hook(self, st, fn, ins, v): return None
    def gsize(self, name): return None

    def sym(self, hint=None, lo=None, st=None):
        s = next(self.ids)
        if lo is not None:
            st.cons = st.cons | {('L', -lo, ((s, 1),))}
        return S(s)

    def obj(self): return ('O', next(self.ids))

    # ---- values
    def val(self, st, o):
        k = o[0]
        if k == 'v':
            v = st.envs[-1].get(o[1])
            return v if v is not None else self.sym()
        if k == 'c':
            return K(o[1])
        if k == 'n':
            return Z0
        if k == 'a':
            v = st.envs[-1].get(('a', o[1]))
            if v is None:
                v = st.envs[-1][('a', o[1])] = self.sym()
            return v
        if k == 'f':
            return ('F', o[1])
        if k == 'g':
            b = ('G', o[1])
            self.gblock(st, b)
            return ('P', b, K(o[2] if len(o) > 2 and o[2] else 0))
        return self.sym()

    def gblock(self, st, b):
        if b not in st.size:
            g = self.gsize(b[1])
            if g:
                n, init = g
                st.size[b] = K(n)
                if init is not None:
                    st.zero[b] = frozenset([K(init)])

    def lin(self, st, v, lo=None):
        """an integer of v (pointers, functions: unknown)"""
        if v[0] == 'L':
            return v
        if v[0] in ('cmp', 'not', 'nz', 'b2'):
            s = self.sym()
            st.cons = st.cons | {s, sub(ONE, s)}
            return s
        return self.sym()

    def assume(self, st, c, t):
        k = c[0]
        if k == 'L':
            return self.assume(st, ('cmp', 'ne', c, Z0), t)
        if k in ('P', 'F'):
            return self.assume(st, ('cmp', 'ne', c, Z0), t)
        if k == 'not':
            return self.assume(st, c[1], not t)
        if k == 'nz':
            return self.assume(st, c[1], t)
        if k == 'b2':
            a, b = c[2], c[3]
            if c[1] == ('and' if t else 'or'):
                return self.assume(st, a, t) and self.assume(st, b, t)
            return True
        if k != 'cmp':
            return True
        pred, x, y = c[1], c[2], c[3]
        if not t:
            pred = NEG.get(pred)
        if x[0] in ('cmp', 'not', 'nz', 'b2'):
            if y == Z0 and pred in ('eq', 'ne'):
                return self.assume(st, x, pred == 'ne')
            x = self.lin(st, x)
        if y[0] in ('cmp', 'not', 'nz', 'b2'):
            y = self.lin(st, y)
        if x[0] == 'P' or y[0] == 'P':
            return self.ptrcmp(st, pred, x, y)
        if x[0] == 'F' or y[0] == 'F':
            if x[0] == 'F' and y == Z0 and pred == 'eq':
                return False
            return True
        d = sub(x, y)
        if pred == 'eq':
            if not (st.need(d) and st.need(sub(Z0, d))):
                return False
            if y == Z0 and issym(x):
                pv = st.prov.get(x[2][0][0])
                if pv:
                    st.zero[pv[0]] = st.zero.get(pv[0], frozenset()) | {pv[1]}
            return True
        if pred == 'ne':
            if st.eq(x, y):
                return False
            if y == Z0 and issym(x):
                pv = st.prov.get(x[2][0][0])
                if pv:
                    for e in st.zero.get(pv[0], ()):
                        if st.le(pv[1], e):
                            if not st.need(plus(sub(e, pv[1]), -1)):
                                return False
            if st.holds(d):
                return st.need(plus(d, -1))
            n = sub(Z0, d)
            if st.holds(n):
                return st.need(plus(n, -1))
            return True
        if pred is None:
            return True
        if pred[0] == 'u':
            sp = 's' + pred[1:]
            xp, yp = st.holds(x), st.holds(y)
            if pred in ('ugt', 'uge'):
                x, y, xp, yp, sp = y, x, yp, xp, SWAP[sp]
            # now x <(=) y unsigned
            if yp:
                if not st.need(x):
                    return False
            elif not xp:
                return True
            elif not yp:
                return True
            return st.need(sub(y, x) if sp == 'sle' else plus(sub(y, x), -1))
        return st.need({'slt': plus(sub(y, x), -1), 'sle': sub(y, x), 'sgt': plus(d, -1), 'sge': d}[pred])

    def ptrcmp(self, st, pred, x, y):
        if x[0] != 'P':
            x, y, pred = y, x, SWAP.get(pred, pred)
        if y[0] == 'P':
            if x[1] == y[1]:
                return self.assume(st, ('cmp', {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred), x[2], y[2]), True)
            return True
        if y == Z0:
            known = x[1] in st.nn or x[1][0] in ('G', 'A')
            if pred in ('eq', 'ule'):
                if known:
                    return False
                self.nullify(st, x[1])
            elif pred in ('ne', 'ugt'):
                st.nn = st.nn | {x[1]}
        return True

    def nullify(self, st, b):
        def f(v):
            if v[0] == 'P' and v[1] == b:
                return Z0
            if v[0] == 'cmp':
                return ('cmp', v[1], f(v[2]), f(v[3]))
            if v[0] in ('not', 'nz'):
                return (v[0], f(v[1]))
            return v
        for e in st.envs:
            for k in e:
                e[k] = f(e[k])
        for k in st.mem:
            st.mem[k] = f(st.mem[k])

    # ---- memory
    def load(self, st, fn, ins, p, ty, sz):
        if p[0] != 'P':
            return self.unknown(st, ty)
        b, o = p[1], p[2]
        v = self.load_hook(st, fn, ins, b, o, ty)
        if v is not None:
            return v
        if isk(o):
            c = st.mem.get((b, o[1]))
            if c is not None and (ty != 'ptr' or c[0] in ('P', 'F') or c == Z0):
                return c
        if sz == 1:
            z = st.zero.get(b, ())
            if o in z or any(st.eq(o, e) for e in z):
                return Z0
            s = self.sym()
            st.prov[s[2][0][0]] = (b, o)
            return s
        v = self.unknown(st, ty)
        if isk(o):
            st.mem[(b, o[1])] = v
        return v

    def unknown(self, st, ty):
        if ty == 'ptr':
            return ('P', self.obj(), Z0)
        return self.sym()

    def store(self, st, fn, ins, p, v, sz):
        if p[0] != 'P':
            return
        b, o = p[1], p[2]
        self.on_write(st, fn, ins, b, o, K(sz), 'store')
        if self.store_hook(st, fn, ins, b, o, v):
            return
        self.wrote(st, b, o, K(sz), keepcell=True)
        if sz == 1 and v == Z0:
            st.zero[b] = st.zero.get(b, frozenset()) | {o}
        if isk(o):
            for k in [k for k in st.mem if k[0] == b and k[1] != o[1] and o[1] - 8 < k[1] < o[1] + sz]:
                del st.mem[k]
            if v[0] in ('L', 'P', 'F'):
                st.mem[(b, o[1])] = v
            else:
                st.mem[(b, o[1])] = self.lin(st, v)
        else:
            for k in [k for k in st.mem if k[0] == b]:
                del st.mem[k]

    def wrote(self, st, b, o, n, keepcell=False):
        """bytes [o, o+n) of b are not what they were"""
        z = st.zero.get(b)
        if z:
            end = add(o, n)
            st.zero[b] = frozenset(e for e in z if st.lt(e, o) or st.le(end, e))
        if b[0] != 'A' or z:
            for k in [k for k in st.slen if k[0] == b]:
                del st.slen[k]
        for s in [s for s, pv in st.prov.items() if pv[0] == b]:
            del st.prov[s]
        if not keepcell:
            for k in [k for k in st.mem if k[0] == b]:
                del st.mem[k]

    def strlen(self, st, p):
        """length of the text at p"""
        if p[0] != 'P':
            return self.sym(lo=0, st=st)
        b, o = p[1], p[2]
        for (c, q), n in st.slen.items():
            if c == b and (q == o or st.eq(q, o)):
                return n
        if b[0] == 'G' and b not in st.size:
            self.gblock(st, b)
        z = st.zero.get(b, frozenset())
        if b[0] == 'G' and isk(o) and len(z) == 1 and self.isconst(b):
            n = sub(next(iter(z)), o)
            return n
        n = self.sym(lo=0, st=st)
        for e in z:
            if st.le(o, e):
                st.need(sub(sub(e, o), n))
        n2 = n
        st.slen[(b, o)] = n2
        st.zero[b] = st.zero.get(b, frozenset()) | {add(o, n2)}
        # the size bounds it where a terminator is known to exist only
        return n2

    def isconst(self, b): return False

    # ---- functions
    def run(self, fn, args, st, chain):
        st = st.copy()
        st.envs.append({('a', i): a for i, a in enumerate(args)})
        table = {}; work = [(0, None, st)]; out = []; njoin = {}
        headers = fn.headers
        while work:
            i = max(range(len(work)), key=lambda j: -fn.rpoidx[work[j][0]]) if len(work) > 1 else 0
            b, pred, s = work.pop(i)
            self.steps += 1
            if self.steps > self.BUDGET:
                raise Stop('%s: more than %d block visits' % (fn.name, self.BUDGET))
            for e, nb, s2 in self.block(fn, b, s, chain):
                if e is not None:
                    s2.envs.pop()
                    out.append((e[0], s2, e[1]))
                    continue
                s2 = self.enter(fn, b, nb, s2)
                back = nb in headers and fn.rpoidx[nb] <= fn.rpoidx[b]
                key = (nb, back) + self.part(st, s2)
                lst = table.setdefault(key, [])
                if any(self.covers(x, s2) for x in lst):
                    continue
                cap = 1 if back else self.CAP
                if len(lst) >= cap:
                    n = njoin[key] = njoin.get(key, 0) + 1
                    j = lst[0]
                    for x in lst[1:]:
                        j = self.join(j, x, False)
                    old = j
                    j = self.join(j, s2, back and n > 2)
                    if n > 60:
                        raise Stop('%s: no fixpoint' % fn.name)
                    work = [w for w in work if not (w[0] == nb and w[1] == key)]
                    table[key] = [j]
                    work.append((nb, key, j.copy()))
                else:
                    lst.append(s2)
                    work.append((nb, key, s2.copy()))
        return out

    def part(self, st, s):
        """states with different values of this are not joined"""
        e = s.envs[-1]
        sig = []
        for k in e:
            v = e[k]
            if v[0] == 'P':
                sig.append((str(k), v[1] if v[1][0] not in self.ANON and v[1][0] != 'DEAD' else v[1][0]))
            elif v == Z0 and not isinstance(k, tuple):
                sig.append((str(k), 0))
            elif isinstance(k, tuple) and k[0] == 'a' and isk(v):
                sig.append((str(k), v[1]))
        return (tuple(sorted(sig, key=str)), s.mon)

    def enter(self, fn, b, nb, st):
        env = st.envs[-1]; new = {}
        for ins in fn.blocks[nb]:
            if ins['op'] != 'phi':
                break
            for o, p in ins['inc']:
                if p == b:
                    new[ins['i']] = self.val(st, o)
                    break
        live = fn.livein[nb]
        st.envs[-1] = {k: v for k, v in env.items() if k in live or isinstance(k, tuple)}
        st.envs[-1].update(new)
        pass
        st.prune()
        return st

    # ---- join and order
    def slots(self, s):
        for i, e in enumerate(s.envs):
            for k, v in e.items():
                yield ('e', i, k), v
        for k, v in s.mem.items():
            yield ('m',) + k, v
        for b, v in s.size.items():
            yield ('s', b), v
        for (b, o), v in s.slen.items():
            if o == Z0:
                yield ('l', b), v

    def bmap(self, a, b):
        """unknown objects of a that play the role of unknown objects of b"""
        m = {}; used = set()
        sb = dict(self.slots(b))
        for k, v in self.slots(a):
            w = sb.get(k)
            if w is not None and v[0] == 'P' and w[0] == 'P' and v[1] != w[1] and v[1][0] == w[1][0] and v[1][0] in self.ANON:
                if m.get(w[1], v[1]) != v[1] or (w[1] not in m and v[1] in used):
                    m[w[1]] = None
                elif w[1] not in m:
                    m[w[1]] = v[1]; used.add(v[1])
        ab = a.blocks()
        return {x: y for x, y in m.items() if y is not None and x not in ab and y not in b.blocks()}

    def rename(self, b, m):
        if not m:
            return b
        def f(v):
            k = v[0]
            if k == 'P':
                return ('P', m.get(v[1], v[1]), v[2])
            if k == 'cmp':
                return ('cmp', v[1], f(v[2]), f(v[3]))
            if k in ('not', 'nz'):
                return (k, f(v[1]))
            if k == 'b2':
                return ('b2', v[1], f(v[2]), f(v[3]))
            return v
        r = b.copy()
        for e in r.envs:
            for k in e:
                e[k] = f(e[k])
        r.mem = {(m.get(k[0], k[0]), k[1]): f(v) for k, v in r.mem.items()}
        r.zero = {m.get(k, k): v for k, v in r.zero.items()}
        r.size = {m.get(k, k): v for k, v in r.size.items()}
        r.slen = {(m.get(k[0], k[0]), k[1]): v for k, v in r.slen.items()}
        r.prov = {q: (m.get(x, x), o) for q, (x, o) in r.prov.items()}
        r.nn = frozenset(m.get(x, x) for x in r.nn)
        return r

    def covers(self, a, b):
        """b is a special case of a"""
        b = self.rename(b, self.bmap(a, b))
        if not a.nn <= b.nn | {x for x in a.nn if x[0] in ('G', 'A')}:
            ab = a.blocks()
            if any(x in ab and x not in b.nn and x[0] not in ('G', 'A') for x in a.nn):
                return False
        sb = dict(self.slots(b)); sig = {}; later = []
        bound = set()
        for k, v in self.slots(a):
            w = sb.get(k)
            if w is None:
                return False
            if v[0] == 'L':
                if w[0] != 'L':
                    if issym(v) and v[2][0][0] not in sig and v[2][0][0] not in bound:
                        bound.add(v[2][0][0])      # anything
                        continue
                    return False
                if issym(v) and v[2][0][0] not in sig:
                    sig[v[2][0][0]] = w
                else:
                    later.append((v, w))
            elif v[0] == 'P':
                if w[0] != 'P' or v[1] != w[1]:
                    return False
                o = v[2]
                if issym(o) and o[2][0][0] not in sig:
                    sig[o[2][0][0]] = w[2]
                else:
                    later.append((o, w[2]))
            elif v != w:
                return False
        if any(s in bound for c in a.cons for s, k in c[2]):
            return False
        for v, w in later:
            if not b.eq(lmap(v, sig), w):
                return False
        for c in a.cons:
            if not b.holds(lmap(c, sig)):
                return False
        for k, v in a.slen.items():
            if k[1] != Z0 and b.slen.get(k) != v:
                return False
        for bl, z in a.zero.items():
            zb = b.zero.get(bl, ())
            for e in z:
                e2 = lmap(e, sig)
                if e2 in zb or any(b.eq(e2, x) for x in zb):
                    continue
                return False
        return a.mon >= b.mon

    def join(self, a, b, widen):
        b = self.rename(b, self.bmap(a, b))
        r = LS(); ma = {}; mb = {}; pair = {}
        r.mon = a.mon | b.mon
        r.nn = a.nn & b.nn
        anchors = []

        def intj(x, y):
            if x == y:
                return x
            k = (x, y)
            if k not in pair:
                j = self.sym()
                pair[k] = j; s = j[2][0][0]
                ma[s] = x; mb[s] = y
            return pair[k]

        def vj(x, y):
            if x == y:
                return x
            if x[0] == 'P' and y[0] == 'P' and x[1] == y[1]:
                return ('P', x[1], intj(x[2], y[2]))
            if x[0] == 'L' and y[0] == 'L':
                return intj(x, y)
            if (x[0] == 'P' or x == Z0) and (y[0] == 'P' or y == Z0):
                return ('P', self.obj(), Z0)
            return self.sym()
        for ea, eb in zip(a.envs, b.envs):
            r.envs.append({k: vj(ea[k], eb[k]) for k in ea if k in eb})
        for k, v in a.mem.items():
            w = b.mem.get(k)
            if w is not None:
                r.mem[k] = vj(v, w)
        for k, v in a.size.items():
            w = b.size.get(k)
            if w is not None:
                r.size[k] = vj(v, w)
        for k, v in a.slen.items():
            w = b.slen.get(k)
            if w is not None and k[1] == Z0:
                r.slen[k] = intj(v, w)
        # terminators
        for bl in a.zero:
            za, zb = a.zero[bl], b.zero.get(bl, frozenset())
            if not zb or not za:
                continue
            z = set()
            for e in za:
                if e in zb or any(b.eq(e, x) for x in zb):
                    z.add(e)
            for e in zb:
                if e not in z and any(a.eq(e, x) for x in za):
                    z.add(e)
            for (x, y), j in list(pair.items()):
                if any(a.eq(x, e) for e in za) and any(b.eq(y, e) for e in zb):
                    z.add(j)
            if not z:
                x = min(za, key=lambda e: (len(e[2]), e)); y = min(zb, key=lambda e: (len(e[2]), e))
                z.add(intj(x, y))
            r.zero[bl] = frozenset(z)
        cand = set()
        if True:
            cand |= a.cons
        inva = {}
        for s, x in ma.items():
            if issym(x):
                inva.setdefault(x[2][0][0], []).append(s)
        invb = {}
        for s, y in mb.items():
            if issym(y):
                invb.setdefault(y[2][0][0], []).append(s)
        def renamings(cons, inv):
            for c in cons:
                yield c
                hit = [s for s, k in c[2] if s in inv]
                if hit:
                    opts = [[(h, h)] + [(h, n) for n in inv[h][:3]] for h in hit]
                    for pick in itertools.islice(itertools.product(*opts), 24):
                        m = {h: S(n) for h, n in pick if h != n}
                        if m:
                            yield lmap(c, m)
        cand |= set(renamings(a.cons, inva))
        if not widen:
            cand |= set(renamings(b.cons, invb))
            js = [S(s) for s in ma]
            anchors = set(r.size.values()) | {v for v in r.mem.values() if v[0] == 'L' and v[2]} | {v for v in r.envs[-1].values() if v[0] == 'L' and v[2]}
            for z in r.zero.values():
                anchors |= set(z)
            anchors = sorted(anchors)[:24]
            for j in js:
                s = j[2][0][0]
                x, y = ma[s], mb[s]
                cand.add(j)
                if not any(q in ma for q, k in x[2]):
                    cand.add(sub(j, x)); cand.add(sub(x, j))
                cand.add(sub(j, y)); cand.add(sub(y, j))
                if isk(x) and isk(y):
                    cand.add(plus(j, -min(x[1], y[1]))); cand.add(plus(sub(Z0, j), max(x[1], y[1])))
                for n in anchors:
                    if n != j:
                        d = sub(n, j)
                        cand.add(d); cand.add(plus(d, -1)); cand.add(sub(j, n))
                        da, db = lmap(d, ma), lmap(d, mb)
                        if isk(da) and isk(db):
                            cand.add(plus(d, -min(da[1], db[1]))); cand.add(plus(sub(Z0, d), max(da[1], db[1])))
        keep = []
        for c in cand:
            if not c[2]:
                continue
            if a.holds(lmap(c, ma)) and b.holds(lmap(c, mb)):
                keep.append(c)
        r.cons = frozenset(keep)
        r.prune()
        if len(r.cons) > 12:
            self.reduce(r)
        return r

    def reduce(self, r):
        """drop inequalities that follow from the others"""
        cs = sorted(r.cons, key=lambda c: (-len(c[2]), -abs(c[1]), c))
        for c in cs:
            rest = r.cons - {c}
            t = LS(); t.cons = rest
            if t.holds(c):
                r.cons = rest

    # ---- instructions
    def block(self, fn, b, st, chain):
        res = []; work = [(0, st)]; L = fn.blocks[b]
        while work:
            i, st = work.pop()
            while True:
                ins = L[i]; i += 1
                op = ins['op']; env = st.envs[-1]
                if op == 'phi':
                    continue
                if op == 'ret':
                    res.append(((self.val(st, ins['a'][0]) if ins.get('a') else None, ins), None, st))
                    break
                if op == 'br':
                    if len(ins['to']) == 1:
                        res.append((None, ins['to'][0], st))
                    else:
                        c = self.val(st, ins['a'][0])
                        for t, nb in ((True, ins['to'][0]), (False, ins['to'][1])):
                            s = st.copy()
                            if self.assume(s, vnow(s, ins, self), t):
                                res.append((None, nb, s))
                    break
                if op == 'switch':
                    by = {}
                    for n, nb in ins['cases']:
                        by.setdefault(nb, []).append(n)
                    for nb, ns in by.items():
                        s = st.copy(); c = self.val(s, ins['a'][0])
                        if len(ns) == 1:
                            ok = self.assume(s, ('cmp', 'eq', c, K(ns[0])), True)
                        else:
                            ok = not (isk(c) and c[1] not in ns)
                            if ok and c[0] == 'L':
                                ok = s.need(plus(c, -min(ns))) and s.need(sub(K(max(ns)), c))
                        if ok:
                            res.append((None, nb, s))
                    s = st; ok = True; c = self.val(s, ins['a'][0])
                    for n, nb in ins['cases']:
                        ok = ok and self.assume(s, ('cmp', 'ne', self.val(s, ins['a'][0]), K(n)), True)
                    if ok:
                        res.append((None, ins['to'][0], s))
                    break
                if op in ('unreachable', 'indirectbr'):
                    break
                if op == 'call':
                    outs = self.call(fn, ins, st, chain)
                    for v, s in outs:
                        if ins['t'] != 'void':
                            s.envs[-1][ins['i']] = v if v is not None else self.unknown(s, ins['t'])
                    if len(outs) == 1:
                        st = outs[0][1]
                        continue
                    for v, s in outs:
                        work.append((i, s))
                    break
                if op == 'select':
                    x = vnow(st, ins, self)
                    s = st.copy()
                    if self.assume(s, x, False):
                        s.envs[-1][ins['i']] = self.val(s, ins['a'][2])
                        work.append((i, s))
                    if not self.assume(st, x, True):
                        break
                    st.envs[-1][ins['i']] = self.val(st, ins['a'][1])
                    continue
                if op == 'store':
                    self.store(st, fn, ins, self.val(st, ins['a'][1]), self.val(st, ins['a'][0]), ins['sz'])
                    continue
                if op == 'load':
                    p = self.val(st, ins['a'][0])
                    env.pop(ins['i'], None)
                    env[ins['i']] = self.load(st, fn, ins, p, ins['t'], ins['sz'])
                    continue
                env.pop(ins['i'], None)
                v = self.simple(fn, ins, st)
                st.envs[-1][ins['i']] = v
        return res

    def simple(self, fn, ins, st):
        op = ins['op']
        if op == 'alloca':
            b = ('A', fn.name, ins['i'])
            for k in [k for k in st.mem if k[0] == b]:
                del st.mem[k]
            st.zero.pop(b, None)
            n = self.allocsize(ins)
            if n:
                st.size[b] = K(n)
            return ('P', b, Z0)
        a = [self.val(st, x) for x in ins.get('a', ())]
        if op == 'getelementptr':
            h = self.gep_hook(st, fn, ins, a[0])
            if h is not None:
                return h
            if a[0][0] != 'P':
                return ('P', self.obj(), Z0)
            o = a[0][2]
            for x, m in ins.get('vars') or ():
                o = add(o, mulk(self.lin(st, self.val(st, x)), m))
            return ('P', a[0][1], plus(o, ins.get('co') or 0))
        if op in ('sext', 'bitcast', 'freeze', 'trunc'):
            x = a[0]
            if op == 'trunc' and ins['t'] == 'i1' and x[0] == 'L':
                return ('cmp', 'ne', x, Z0)
            if op == 'trunc' and ins['t'] == 'i8' and x[0] == 'L' and not isk(x):
                # the byte is zero if the number is
                if st.holds(plus(x, -1)) and st.holds(sub(K(255), x)):
                    s = self.sym(); return s
                return x if st.holds(x) and st.holds(sub(K(127), x)) else self.sym()
            return x
        if op == 'zext':
            x = a[0]
            if x[0] == 'L' and not isk(x) and ins.get('st') in ('i8', 'i16', 'i32') and not st.holds(x):
                if ins['st'] == 'i8':
                    s = self.sym()
                    st.cons = st.cons | {s, sub(K(255), s)}
                    pv = st.prov.get(x[2][0][0]) if issym(x) else None
                    if pv:
                        st.prov[s[2][0][0]] = pv
                    return s
                # unsigned reading of a number that may be negative
                s = self.sym(lo=0, st=st)
                return s
            return x
        if op == 'ptrtoint':
            return a[0]
        if op == 'inttoptr':
            return a[0] if a[0][0] in ('P',) or a[0] == Z0 else ('P', self.obj(), Z0)
        if op == 'icmp':
            x, y = a
            if y == Z0 and x[0] in ('cmp', 'not', 'nz', 'b2') and ins['pred'] in ('eq', 'ne'):
                return x if ins['pred'] == 'ne' else ('not', x)
            return ('cmp', ins['pred'], x, y)
        if op in ('add', 'sub'):
            x, y = a
            if x[0] == 'P' and y[0] == 'P' and op == 'sub' and x[1] == y[1]:
                return sub(x[2], y[2])
            if x[0] == 'P' and y[0] == 'L':
                return ('P', x[1], add(x[2], y, 1 if op == 'add' else -1))
            x, y = self.lin(st, x), self.lin(st, y)
            return add(x, y, 1 if op == 'add' else -1)
        if op in ('mul', 'shl'):
            x, y = self.lin(st, a[0]), self.lin(st, a[1])
            if op == 'shl' and isk(y) and 0 <= y[1] < 31:
                return mulk(x, 1 << y[1])
            if isk(x) and op == 'mul':
                x, y = y, x
            if isk(y) and op == 'mul':
                return mulk(x, y[1])
            return self.sym()
        if op == 'xor' and ins['t'] == 'i1' and a[1][0] == 'L' and isk(a[1]) and a[1][1] & 1:
            return ('not', a[0])
        if op in ('and', 'or') and ins['t'] == 'i1':
            return ('b2', op, a[0], a[1])
        if op == 'and' and isk(a[1]) and a[1][1] >= 0:
            s = self.sym(lo=0, st=st)
            st.need(sub(a[1], s))
            return s
        if op in ('udiv', 'sdiv', 'lshr', 'ashr') and isk(a[1]) and a[0][0] == 'L' and st.holds(a[0]):
            n = a[1][1] if op in ('udiv', 'sdiv') else 1 << a[1][1] if a[1][1] < 40 else 0
            if n > 0:
                s = self.sym(lo=0, st=st)
                st.need(sub(a[0], mulk(s, n)))                      # n*s <= x
                st.need(plus(sub(mulk(s, n), a[0]), n - 1))         # x <= n*s + n-1
                return s
        if op in ('urem', 'srem') and a[1][0] == 'L' and a[0][0] == 'L' and st.holds(plus(a[1], -1)):
            s = self.sym()
            st.need(plus(sub(a[1], s), -1))
            if op == 'urem' or st.holds(a[0]):
                st.need(s)
            return s
        return self.unknown(st, ins['t'])

    def allocsize(self, ins): return None

    # ---- calls
    def call(self, fn, ins, st, chain):
        name = ins.get('fn')
        if name and (name.startswith('llvm.dbg') or name.startswith('llvm.lifetime')):
            return [(None, st)]
        args = [self.val(st, o) for o in ins['a']]
        r = self.contract(st, fn, ins, name, args, chain)
        if r is not None:
            return r
        f = self.p.defined.get(name)
        if f is not None and not self.scc.get(name) and len(chain) < self.MAXD and self.walk(f, st, args, ins):
            outs = []
            for v, s, i2 in self.run(f, args, st, chain + ((fn.name, ins['i']),)):
                if v is not None:
                    s.envs[-1][('ret',)] = v
                s.prune()
                if any(self.covers(x, s) for x in outs):
                    continue
                outs.append(s)
            if len(outs) > 8:
                by = {}
                for s in outs:
                    v = s.envs[-1].get(('ret',))
                    k = (v if v is not None and isk(v) else v[:2] if v is not None and v[0] == 'P' else None, s.mon)
                    by[k] = self.join(by[k], s, False) if k in by else s
                outs = list(by.values())
            res = []
            for s in outs:
                v = s.envs[-1].pop(('ret',), None)
                res.append((v, s))
            return res
        r = self.libc(st, fn, ins, name, args)
        if r is not None:
            return r
        return self.opaque(st, fn, ins, name, args)

    def opaque(self, st, fn, ins, name, args):
        for a in args:
            if a[0] == 'P' and a[1][0] in ('A', 'O', 'H'):
                for k in [k for k in st.mem if k[0] == a[1]]:
                    del st.mem[k]
                if a[1][0] == 'A':
                    self.wrote(st, a[1], Z0, st.size.get(a[1], self.sym()))
                else:
                    # a string handed to a function that may change it stays terminated
                    z = st.zero.get(a[1])
                    for k in [k for k in st.slen if k[0] == a[1]]:
                        del st.slen[k]
        return [(None, st)]

    def alloc(self, st, ins, n):
        """two outcomes of an allocation of n bytes"""
        b = ('H', next(self.ids))
        s = st.copy()
        st.size[b] = n
        st.nn = st.nn | {b}
        return b, s

    def cpy(self, st, fn, ins, d, n, what):
        if d[0] == 'P':
            self.on_write(st, fn, ins, d[1], d[2], n, what)

    def libc(self, st, fn, ins, name, a):
        if name is None:
            return None
        nm = name
        if nm in ('malloc', 'calloc'):
            n = self.lin(st, a[0]) if nm == 'malloc' else None
            if nm == 'calloc':
                x, y = self.lin(st, a[0]), self.lin(st, a[1])
                n = mulk(x, y[1]) if isk(y) else mulk(y, x[1]) if isk(x) else self.sym(lo=0, st=st)
            b, s = self.alloc(st, ins, n)
            if nm == 'calloc':
                st.zero[b] = frozenset([Z0] + ([plus(n, -1)] if st.holds(plus(n, -1)) else []))
            return [(('P', b, Z0), st), (Z0, s)]
        if nm == 'realloc':
            n = self.lin(st, a[1])
            b, s = self.alloc(st, ins, n)
            if a[0][0] == 'P':
                o = a[0][1]
                if o in st.zero:
                    keep = frozenset(e for e in st.zero[o] if st.lt(e, n))
                    if keep:
                        st.zero[b] = keep
                if o in st.size:
                    pass
                for k in [k for k in st.mem if k[0] == o]:
                    st.mem[(b, k[1])] = st.mem[k]
                self.gone(st, o)
            return [(('P', b, Z0), st), (Z0, s)]
        if nm == 'free':
            return [(None, st)]
        if nm == 'strlen':
            return [(self.strlen(st, a[0]), st)]
        if nm in ('strdup', 'strndup'):
            n = self.strlen(st, a[0])
            if nm == 'strndup':
                m = self.sym(lo=0, st=st); st.need(sub(n, m)); st.need(sub(self.lin(st, a[1]), m)); n = m
            b, s = self.alloc(st, ins, plus(n, 1))
            st.zero[b] = frozenset([n]); st.slen[(b, Z0)] = n
            return [(('P', b, Z0), st), (Z0, s)]
        if nm in ('strcpy', 'stpcpy', 'strcat'):
            n = self.strlen(st, a[1])
            o = Z0 if nm != 'strcat' else self.strlen(st, a[0])
            if a[0][0] == 'P':
                d = ('P', a[0][1], add(a[0][2], o))
                self.cpy(st, fn, ins, d, plus(n, 1), nm)
                self.wrote(st, d[1], d[2], plus(n, 1))
                st.zero[d[1]] = st.zero.get(d[1], frozenset()) | {add(d[2], n)}
            return [(a[0], st)]
        if nm in ('strncpy', 'strncat'):
            m = self.strlen(st, a[1]); n = self.lin(st, a[2])
            if a[0][0] != 'P':
                return [(a[0], st)]
            if nm == 'strncat':
                o = self.strlen(st, a[0])
                w = self.sym(lo=0, st=st)          # min(m, n)
                st.need(sub(m, w)); st.need(sub(n, w))
                d = add(a[0][2], o)
                if st.le(m, n):
                    w = m
                elif st.le(n, m):
                    w = n
                self.cpy(st, fn, ins, ('P', a[0][1], d), plus(w, 1), nm)
                self.wrote(st, a[0][1], d, plus(w, 1))
                st.zero[a[0][1]] = st.zero.get(a[0][1], frozenset()) | {add(d, w)}
                return [(a[0], st)]
            self.cpy(st, fn, ins, a[0], n, nm)
            out = []
            s2 = st.copy()
            if s2.need(plus(sub(n, m), -1)):       # the terminator fits
                self.wrote(s2, a[0][1], a[0][2], n)
                s2.zero[a[0][1]] = s2.zero.get(a[0][1], frozenset()) | {add(a[0][2], m)}
                if s2.holds(plus(n, -1)):
                    pass
                out.append((vre(s2, ins, 0, self), s2))
            if st.need(sub(m, n)):
                self.wrote(st, a[0][1], a[0][2], n)
                out.append((vre(st, ins, 0, self), st))
            return out
        if nm in ('memcpy', 'memmove') or nm.startswith('llvm.memcpy') or nm.startswith('llvm.memmove'):
            n = self.lin(st, a[2])
            if a[0][0] == 'P':
                self.cpy(st, fn, ins, a[0], n, 'memmove' if 'move' in nm else 'memcpy')
                new = []
                if a[1][0] == 'P':
                    for e in st.zero.get(a[1][1], ()):
                        if st.le(a[1][2], e) and st.lt(e, add(a[1][2], n)):
                            new.append(add(sub(e, a[1][2]), a[0][2]))
                cells = {}
                if a[1][0] == 'P' and isk(a[1][2]) and isk(a[0][2]) and isk(n):
                    for (b, o), v in st.mem.items():
                        if b == a[1][1] and a[1][2][1] <= o < a[1][2][1] + n[1]:
                            cells[(a[0][1], o - a[1][2][1] + a[0][2][1])] = v
                self.wrote(st, a[0][1], a[0][2], n)
                st.mem.update(cells)
                if new:
                    st.zero[a[0][1]] = st.zero.get(a[0][1], frozenset()) | set(new)
            return [(a[0], st)]
        if nm == 'memset' or nm.startswith('llvm.memset'):
            n = self.lin(st, a[2])
            if a[0][0] == 'P':
                self.cpy(st, fn, ins, a[0], n, 'memset')
                b, o = a[0][1], a[0][2]
                self.wrote(st, b, o, n)
                if a[1] == Z0:
                    if st.holds(plus(n, -1)):
                        st.zero[b] = st.zero.get(b, frozenset()) | {o, plus(add(o, n), -1)}
                    if isk(n) and isk(o):
                        pass
            return [(a[0], st)]
        if nm in ('snprintf', 'vsnprintf'):
            n = self.lin(st, a[1]); r = self.fmtlen(st, a, nm)
            s = st.copy()
            if a[0][0] == 'P':
                # what is written: up to n bytes
                self.cpy(st, fn, ins, a[0], n, nm)
                out = []
                b, o = a[0][1], a[0][2]
                s1 = st.copy()
                if s1.need(plus(sub(n, r), -1)):
                    self.wrote(s1, b, o, plus(r, 1))
                    s1.zero[b] = s1.zero.get(b, frozenset()) | {add(o, r)}
                    out.append((r, s1))
                if st.need(sub(r, n)):
                    self.wrote(st, b, o, n)
                    if st.holds(plus(n, -1)):
                        st.zero[b] = st.zero.get(b, frozenset()) | {plus(add(o, n), -1)}
                    out.append((r, st))
                out.append((K(-1), s))
                return out
            return [(r, st), (K(-1), s)]
        if nm in ('sprintf', 'vsprintf'):
            r = self.fmtlen(st, a, nm)
            if a[0][0] == 'P':
                self.cpy(st, fn, ins, a[0], plus(r, 1), nm)
                self.wrote(st, a[0][1], a[0][2], plus(r, 1))
                st.zero[a[0][1]] = st.zero.get(a[0][1], frozenset()) | {add(a[0][2], r)}
            return [(r, st)]
        if nm in ('strchr', 'strstr', 'strrchr', 'strpbrk', 'index', 'rindex'):
            s = st.copy()
            if a[0][0] != 'P':
                return None
            n = self.strlen(st, a[0])
            k = self.sym(lo=0, st=st); st.need(sub(n, k))
            if nm in ('strchr', 'index') and isk(a[1]) and a[1][1]:
                st.need(plus(sub(n, k), -1))
            return [(('P', a[0][1], add(a[0][2], k)), st), (Z0, s)]
        if nm == 'fgets':
            n = self.lin(st, a[1]); s = st.copy()
            self.cpy(st, fn, ins, a[0], n, nm)
            if a[0][0] == 'P':
                self.wrote(st, a[0][1], a[0][2], n)
                t = self.sym(lo=0, st=st); st.need(plus(sub(n, t), -1))
                st.zero[a[0][1]] = st.zero.get(a[0][1], frozenset()) | {add(a[0][2], t)}
            return [(a[0], st), (Z0, s)]
        if nm in ('read', 'recv', 'fread', 'pread'):
            d = a[1] if nm != 'fread' else a[0]
            n = self.lin(st, a[2])
            s = st.copy()
            self.cpy(st, fn, ins, d, n, nm)
            if d[0] == 'P':
                self.wrote(st, d[1], d[2], n)
            r = self.sym(lo=0, st=st); st.need(sub(n, r))
            return [(r, st), (K(-1), s)]
        if nm in ('strcmp', 'strncmp', 'strcasecmp', 'write', 'fwrite', 'fputs', 'puts', 'printf', 'fprintf', 'vfprintf', 'fflush',
                  'isspace', 'isblank', 'isdigit', '__ctype_b_loc', '__errno_location', 'memcmp', 'putchar', 'fputc', 'putc', 'strerror', 'perror', 'abs'):
            return [(None, st)]
        return None

    def fmtlen(self, st, a, nm):
        """length of the formatted text: a number that only the format and its arguments decide"""
        return self.sym(lo=0, st=st)

    def gone(self, st, b):
        """block b has been given back"""
        st.zero.pop(b, None); st.size.pop(b, None)
        d = ('DEAD', b)
        def f(v):
            if v[0] == 'P' and v[1] == b:
                return ('P', d, v[2])
            return v
        for e in st.envs:
            for k in e:
                e[k] = f(e[k])
        for k in list(st.mem):
            if k[0] == b:
                del st.mem[k]
            else:
                st.mem[k] = f(st.mem[k])
        for k in [k for k in st.slen if k[0] == b]:
            del st.slen[k]


def vnow(st, ins, eng):
    return eng.val(st, ins['a'][0])


def vre(st, ins, i, eng):
    return eng.val(st, ins['a'][i])
