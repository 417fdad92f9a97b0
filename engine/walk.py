"""Sparse path-partitioned value numbering over the SSA form: values are names (where they come from), memory cells of
chosen members remember the name stored or loaded, and branches on comparisons with constants narrow the set of
constants that a name can stand for.  Small callees are walked in their calling context, the others by summary."""
import sys
sys.setrecursionlimit(50000)
NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b,
       'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}
ZERO = ('c', 0)


class WS:
    __slots__ = ('envs', 'mem', 'facts', 'dirty')

    def __init__(self, envs, mem, facts, dirty=False):
        self.envs = envs; self.mem = mem; self.facts = facts; self.dirty = dirty

    def copy(self):
        return WS([dict(e) for e in self.envs], dict(self.mem), dict(self.facts), self.dirty)

    def key(self):
        return (tuple(frozenset(e.items()) for e in self.envs), frozenset(self.mem.items()), self.dirty)


def names_in(v, out):
    k = v[0]
    if k == 'p':
        names_in(v[1], out)
    elif k == 'cmp':
        names_in(v[2], out); names_in(v[3], out)
    elif k == 'd':
        names_in(v[1], out); names_in(v[2], out)
    elif k == 'not':
        names_in(v[1], out)
    elif k == 't':
        out.add(v); names_in(v[1], out)
    elif k not in ('c', 'F'):
        out.add(v)


def subst(v, a, b):
    if v == a:
        return b
    k = v[0]
    if k == 'p' or k == 't':
        n = subst(v[1], a, b)
        return v if n is v[1] else (k, n) + v[2:]
    if k == 'cmp':
        x = subst(v[2], a, b); y = subst(v[3], a, b)
        return v if x is v[2] and y is v[3] else ('cmp', v[1], x, y)
    if k == 'd':
        x = subst(v[1], a, b); y = subst(v[2], a, b)
        return v if x is v[1] and y is v[2] else ('d', x, y)
    if k == 'not':
        n = subst(v[1], a, b)
        return v if n is v[1] else ('not', n)
    return v


def implies(f, g):
    """fact f is at least as strong as g"""
    if g is None:
        return True
    if f is None:
        return False
    if f[0] == 'in':
        return f[1] <= g[1] if g[0] == 'in' else not (f[1] & g[1])
    return g[0] == 'out' and g[1] <= f[1]


def union(f, g):
    if f is None or g is None:
        return None
    if f[0] == g[0]:
        return ('in', f[1] | g[1]) if f[0] == 'in' else (('out', f[1] & g[1]) if f[1] & g[1] else None)
    if f[0] == 'out':
        f, g = g, f
    r = g[1] - f[1]
    return ('out', r) if r else None


class Walker:
    CAP = 24
    MAXIN = 5

    def __init__(self, prog, tagger):
        self.p = prog; self.tag = tagger
        self.scc = {}
        for c in prog.order():
            for n in c:
                self.scc[n] = len(c) > 1 or n in prog.calls[n]
        self.summ = {}; self.steps = 0

    # ---- to be given by the analysis
    def default(self, v): return None                    # fact known of a name without one
    def track(self, tag): return False                   # members whose contents are remembered
    def relevant(self, f): return False                  # callees that are walked in context
    def on_access(self, st, site, fn, ins, addr, write): pass
    def on_store(self, st, site, fn, ins, addr, tag, v): return False
    def on_call(self, st, site, fn, ins, name, args): return None
    def kills(self, name): return ()
    def on_ret(self, st, fn, ins, v): pass
    def joined(self, st, new, parts): pass

    # ---- values
    def val(self, st, o):
        k = o[0]
        if k == 'v':
            return st.envs[-1].get(o[1], ('u', o[1]))
        if k == 'c':
            return ('c', o[1])
        if k == 'n':
            return ZERO
        if k == 'a':
            return st.envs[-1].get(('a', o[1]), ('a', o[1]))
        if k == 'f':
            return ('F', o[1])
        if k == 'g':
            return ('G', o[1]) if not (len(o) > 2 and o[2]) else ('p', ('G', o[1]), o[2])
        return ('u', k)

    def fact(self, st, v):
        if v[0] == 'c':
            return ('in', frozenset((v[1],)))
        if v[0] in ('A', 'G', 'F', 'p'):
            return ('out', frozenset((0,)))
        f = st.facts.get(v)
        return f if f is not None else self.default(v)

    def restrict(self, st, v, ok, exact=None):
        """keep only constants c with ok(c); exact: the one constant that is kept/removed"""
        f = self.fact(st, v)
        if f is not None and f[0] == 'in':
            n = frozenset(c for c in f[1] if ok(c))
            if not n:
                return False
            if v[0] != 'c':
                st.facts[v] = ('in', n)
            return True
        if exact is not None:
            pred, c = exact
            if f is not None and c in f[1]:
                if pred == 'eq':
                    return False
                return True
            if v[0] in ('A', 'G', 'F', 'p'):
                return True
            if pred == 'eq':
                st.facts[v] = ('in', frozenset((c,)))
            else:
                st.facts[v] = ('out', (f[1] if f else frozenset()) | {c})
        return True

    def assume(self, st, c, t):
        """narrow st by condition c being t; False if that cannot be"""
        k = c[0]
        if k == 'c':
            return bool(c[1]) == t
        if k == 'not':
            return self.assume(st, c[1], not t)
        if k == 'cmp':
            pred, x, y = c[1], c[2], c[3]
            if not t:
                pred = NEG.get(pred)
            if pred is None:
                return True
            if x[0] == 'c' and y[0] != 'c':
                x, y, pred = y, x, SWAP[pred]
            if y[0] == 'c':
                n = y[1]
                fn = CMP.get(pred)
                if fn is None:
                    if n == 0 and pred == 'ugt':
                        pred = 'ne'; fn = CMP['ne']
                    else:
                        return True
                return self.restrict(st, x, lambda z: fn(z, n), (pred, n) if pred in ('eq', 'ne') else None)
            fx, fy = self.fact(st, x), self.fact(st, y)
            if pred == 'eq':
                if x == y:
                    return True
                for a, b in ((x, fy), (y, fx)):
                    if b and b[0] == 'in' and not self.restrict(st, a, lambda z: z in b[1], ('eq', next(iter(b[1]))) if len(b[1]) == 1 else None):
                        return False
                    if b and b[0] == 'out':
                        for z in b[1]:
                            if not self.restrict(st, a, lambda w: w != z, ('ne', z)):
                                return False
                if x[0] in 'sot' and y[0] in 'sot':
                    self.unify(st, x, y)
            elif pred == 'ne':
                if x == y and x[0] in ('a', 's', 't'):
                    return False
                for a, b in ((x, fy), (y, fx)):
                    if b and b[0] == 'in' and len(b[1]) == 1:
                        z = next(iter(b[1]))
                        if not self.restrict(st, a, lambda w: w != z, ('ne', z)):
                            return False
            return True
        if k == 'd':
            return self.assume(st, ('cmp', 'ne', c[1], c[2]), t)
        return self.restrict(st, c, (lambda z: z != 0) if t else (lambda z: z == 0), ('ne' if t else 'eq', 0))

    def unify(self, st, x, y):
        """two names for one scalar"""
        if x[0] == 't' and y[0] != 't':
            x, y = y, x
        for e in st.envs:
            for k in e:
                if e[k] == y:
                    e[k] = x
        for k, c in list(st.mem.items()):
            if c[0] == y:
                st.mem[k] = (x, c[1])
        f = st.facts.get(y)
        if f is not None and implies(f, st.facts.get(x, self.default(x))):
            st.facts[x] = f

    def fresh(self, st, site, kind, *extra):
        v = ('s', site, kind) + extra
        self.rename(st, v)
        return v

    def rename(self, st, v):
        """the name is about to stand for a new value: older uses of it get another name"""
        used = set()
        for e in st.envs:
            for x in e.values():
                names_in(x, used)
        for (b, o), (x, t) in st.mem.items():
            names_in(b, used); names_in(x, used)
        if v not in used and v not in st.facts:
            return
        n = ('o', v)
        if n in used:
            for k in [k for k in st.mem if k[0] == n]:
                del st.mem[k]
            st.facts.pop(n, None); st.facts.pop(('t', n), None)
        else:
            for f in [f for f in st.facts if f != subst(f, v, n)]:
                st.facts[subst(f, v, n)] = st.facts[f]
        for f in [f for f in st.facts if f != subst(f, v, n)]:
            del st.facts[f]
        for e in st.envs:
            for k in e:
                e[k] = subst(e[k], v, n)
        m = {}
        for (b, o), (x, t) in st.mem.items():
            m[(subst(b, v, n), o)] = (subst(x, v, n), t)
        st.mem = m

    def split(self, a):
        return (a[1], a[2]) if a[0] == 'p' else (a, 0)

    # ---- memory
    def load(self, st, site, a, tag, ty):
        b, o = self.split(a)
        c = st.mem.get((b, o))
        if c is not None:
            return c[0]
        v = self.initial(st, b, o, tag)
        if v is None:
            v = self.fresh(st, site, 'ld', tag)
            b = subst(b, v, ('o', v))
        if b[0] == 'A' or b[0] == 'a' and tag == ('t', 'ptr') or self.track(tag):
            st.mem[(b, o)] = (v, tag)
        return v

    def initial(self, st, b, o, tag):
        return None

    def isfresh(self, b):
        return b[0] == 'A' or (b[0] in ('s', 'o') and 'new' in (b if b[0] == 's' else b[1]))

    def store(self, st, a, tag, v):
        b, o = self.split(a)
        if b[0] != 'A':
            for k in [k for k, c in st.mem.items() if c[1] == tag and k[0] != b and k[0][0] != 'A' and not (self.isfresh(b) and self.isfresh(k[0]))]:
                del st.mem[k]
        if b[0] == 'A' or b[0] == 'a' and tag == ('t', 'ptr') or self.track(tag):
            st.mem[(b, o)] = (v, tag)

    # ---- functions
    def run(self, fn, args, st, chain, report=True):
        """exit states [(value, state, ins)]; the frame of fn is pushed and popped here"""
        st = st.copy()
        st.envs.append({('a', i): a for i, a in enumerate(args)})
        cap = self.CAP if fn.nins < 1500 else 3
        table = {}; work = [(0, None, st)]; out = []; joined = {}
        steps = 0
        while work:
            # prefer the block first in order
            i = max(range(len(work)), key=lambda j: -fn.rpoidx[work[j][0]]) if len(work) > 1 else 0
            b, pred, s = work.pop(i)
            steps += 1; self.steps += 1
            if steps > 40000:
                self.gaveup(fn)
                return out
            for e, nb, s2 in self.block(fn, b, s, chain):
                if e is not None:
                    s2.envs.pop()
                    out.append((e[0], s2, e[1]))
                    continue
                s2 = self.enter(fn, b, nb, s2, chain)
                if s2 is None:
                    continue
                lst = table.setdefault(nb, [])
                if any(self.covers(x, s2) for x in lst):
                    continue
                if len(lst) >= (cap if nb not in joined else 1):
                    j = s2
                    for x in lst:
                        j = self.join(x, j, (chain, nb))
                    if any(self.covers(x, j) for x in lst):
                        continue
                    joined[nb] = joined.get(nb, 0) + 1
                    if joined[nb] > 200:
                        import os
                        if os.environ.get('WDBG'): print(fn.name, nb, [ (k,x) for k,x in j.facts.items()][:50], lst[0].key()==j.key(), j.key())
                        self.gaveup(fn)
                        continue
                    # what waits for this block is in j
                    work = [w for w in work if w[0] != nb]
                    table[nb] = [j]
                    work.append((nb, b, j.copy()))
                else:
                    lst.append(s2)
                    work.append((nb, b, s2.copy()))
        return out

    def gaveup(self, fn):
        raise Exception('%s: too many states' % fn.name)

    def covers(self, x, s):
        if x.key() != s.key():
            return False
        return all(implies(s.facts.get(k, self.default(k)), f) for k, f in x.facts.items())

    def enter(self, fn, b, nb, st, chain):
        env = st.envs[-1]
        new = {}
        for ins in fn.blocks[nb]:
            if ins['op'] != 'phi':
                break
            for o, p in ins['inc']:
                if p == b:
                    new[ins['i']] = self.val(st, o)
                    break
        live = fn.livein[nb]
        st.envs[-1] = {k: v for k, v in env.items() if k in live or isinstance(k, tuple)}
        for k, v in new.items():
            st.envs[-1][k] = v
        self.prune(st)
        return st

    def prune(self, st):
        used = set()
        for e in st.envs:
            for x in e.values():
                names_in(x, used)
        # cells of blocks that nobody names any more are of no use
        n = 0
        while n != len(used):
            n = len(used)
            for (b, o), (x, t) in st.mem.items():
                if b in used or b[0] in ('a', 'G'):
                    names_in(x, used); used.add(b)
        st.mem = {k: c for k, c in st.mem.items() if k[0] in used or k[0][0] in ('a', 'G')}
        st.facts = {k: f for k, f in st.facts.items() if k in used or k[0] == 't' and (k[1] in used or k[1][0] == 'a')}

    def join(self, a, b, where):
        r = WS([], {}, {}, a.dirty or b.dirty)
        cls = {}
        def name(x, y, hint):
            if x == y:
                return x
            k = (x, y)
            if k not in cls:
                cls[k] = ('j', where, hint)
            return cls[k]
        for i, (ea, eb) in enumerate(zip(a.envs, b.envs)):
            e = {}
            for k in ea:
                if k in eb:
                    e[k] = name(ea[k], eb[k], (i, k))
            r.envs.append(e)
        for k, c in a.mem.items():
            d = b.mem.get(k)
            if d is not None:
                r.mem[k] = (name(c[0], d[0], ('m', k)), c[1])
        for k, f in a.facts.items():
            u = union(f, b.facts.get(k, self.default(k)))
            if u is not None:
                r.facts[k] = u
        for k, f in b.facts.items():
            if k not in a.facts:
                u = union(f, self.default(k))
                if u is not None:
                    r.facts[k] = u
        for (x, y), n in cls.items():
            u = union(self.fact(a, x), self.fact(b, y))
            r.facts.pop(n, None)
            if u is not None:
                r.facts[n] = u
            self.joined(r, n, ((a, x), (b, y)))
        self.prune(r)
        return r

    def block(self, fn, b, st, chain):
        """[(exit or None, next block, state)]"""
        res = []
        work = [(0, st)]
        ins_list = fn.blocks[b]
        while work:
            i, st = work.pop()
            while True:
                ins = ins_list[i]; i += 1
                op = ins['op']; site = (chain, ins['i']); env = st.envs[-1]
                if op == 'phi':
                    continue
                if op == 'ret':
                    v = self.val(st, ins['a'][0]) if ins.get('a') else None
                    res.append(((v, ins), None, st))
                    break
                if op == 'br':
                    if len(ins['to']) == 1:
                        res.append((None, ins['to'][0], st))
                    else:
                        c = self.val(st, ins['a'][0])
                        for t, nb in ((True, ins['to'][0]), (False, ins['to'][1])):
                            s = st.copy()
                            if self.assume(s, c, t):
                                res.append((None, nb, s))
                    break
                if op == 'switch':
                    c = self.val(st, ins['a'][0])
                    by = {}
                    for n, nb in ins['cases']:
                        by.setdefault(nb, []).append(n)
                    for nb, ns in by.items():
                        s = st.copy()
                        if self.restrict(s, c, lambda z: z in ns, ('eq', ns[0]) if len(ns) == 1 else None):
                            res.append((None, nb, s))
                    s = st; ok = True
                    for n, nb in ins['cases']:
                        ok = ok and self.restrict(s, c, lambda z: z != n, ('ne', n))
                    if ok:
                        res.append((None, ins['to'][0], s))
                    break
                if op == 'unreachable' or op == 'indirectbr':
                    break
                if op == 'call':
                    outs = self.call(fn, ins, st, site, chain)
                    if len(outs) == 1:
                        v, st = outs[0]
                        if ins['t'] != 'void':
                            st.envs[-1][ins['i']] = v
                        continue
                    for v, s in outs:
                        if ins['t'] != 'void':
                            s.envs[-1][ins['i']] = v
                        work.append((i, s))
                    break
                if op == 'select':
                    c = self.val(st, ins['a'][0])
                    s = st.copy()
                    if self.assume(s, c, False):
                        s.envs[-1][ins['i']] = self.val(s, ins['a'][2])
                        work.append((i, s))
                    if not self.assume(st, c, True):
                        break
                    st.envs[-1][ins['i']] = self.val(st, ins['a'][1])
                    continue
                if op == 'store':
                    a = self.val(st, ins['a'][1]); v = self.val(st, ins['a'][0]); t = self.tag(fn, ins)
                    if not self.restrict(st, self.split(a)[0], lambda z: z != 0, ('ne', 0)):
                        break
                    self.on_access(st, site, fn, ins, a, True)
                    if not self.on_store(st, site, fn, ins, a, t, v):
                        self.store(st, a, t, v)
                    continue
                if op == 'load':
                    a = self.val(st, ins['a'][0])
                    if not self.restrict(st, self.split(a)[0], lambda z: z != 0, ('ne', 0)):
                        break
                    self.on_access(st, site, fn, ins, a, False)
                    env[ins['i']] = None
                    del env[ins['i']]
                    v = self.load(st, site, a, self.tag(fn, ins), ins['t'])
                    st.envs[-1][ins['i']] = v
                    continue
                v = self.simple(fn, ins, st, site)
                st.envs[-1][ins['i']] = v
        return res

    def simple(self, fn, ins, st, site):
        op = ins['op']
        st.envs[-1].pop(ins['i'], None)
        if op == 'alloca':
            v = ('A', site)
            for k in [k for k in st.mem if k[0] == v]:
                del st.mem[k]
            return v
        if op == 'getelementptr':
            b, o = self.split(self.val(st, ins['a'][0]))
            if ins.get('vars'):
                idx = tuple(self.val(st, x[0]) for x in ins['vars'])
                if any(i != ZERO for i in idx):
                    return self.fresh(st, site, 'ix')
            o += ins.get('co') or 0
            return ('p', b, o) if o else b
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            return self.val(st, ins['a'][0])
        if op == 'icmp':
            x, y = self.val(st, ins['a'][0]), self.val(st, ins['a'][1])
            if y[0] == 'c' and x[0] in ('cmp', 'not') and ins['pred'] in ('eq', 'ne') and y[1] == 0:
                return x if ins['pred'] == 'ne' else ('not', x)
            if x[0] == 'c' and y[0] == 'c' and ins['pred'] in CMP:
                return ('c', int(CMP[ins['pred']](x[1], y[1])))
            if x[0] == 'd' and y == ZERO and ins['pred'] in ('eq', 'ne'):
                return ('cmp', ins['pred'], x[1], x[2])
            return ('cmp', ins['pred'], x, y)
        if op == 'xor':
            x, y = self.val(st, ins['a'][0]), self.val(st, ins['a'][1])
            if y[0] == 'c' and ins['t'] == 'i1' and y[1] & 1:
                return ('not', x)
        if op in ('and', 'or', 'add', 'sub', 'mul'):
            x, y = self.val(st, ins['a'][0]), self.val(st, ins['a'][1])
            if x[0] == 'c' and y[0] == 'c':
                return ('c', {'and': x[1] & y[1], 'or': x[1] | y[1], 'add': x[1] + y[1], 'sub': x[1] - y[1], 'mul': x[1] * y[1]}[op])
            if op == 'sub' and x[0] in 'sot' and y[0] in 'sot':
                return ('d', x, y)
        return self.fresh(st, site, 'op')

    def call(self, fn, ins, st, site, chain):
        name = ins.get('fn')
        if name and (name.startswith('llvm.dbg') or name.startswith('llvm.lifetime')):
            return [(None, st)]
        args = [self.val(st, o) for o in ins['a']]
        r = self.on_call(st, site, fn, ins, name, args)
        if r is not None:
            return r
        f = self.p.defined.get(name)
        depth = len(chain)
        if f is not None and not self.scc[name] and depth < self.MAXIN and self.relevant(f):
            outs = []
            seen = {}
            for v, s, i2 in self.run(f, args, st, chain + ((fn.name, ins['i']),)):
                # exits that differ in nothing are one
                if v is not None:
                    s.envs[-1][('ret',)] = v
                self.prune(s)
                k = s.key()
                o = seen.get(k)
                if o is not None:
                    for q in set(o.facts) | set(s.facts):
                        u = union(o.facts.get(q, self.default(q)), s.facts.get(q, self.default(q)))
                        if u is None:
                            o.facts.pop(q, None)
                        else:
                            o.facts[q] = u
                    continue
                seen[k] = s
                outs.append(s)
            res = []
            for s in outs:
                v = s.envs[-1].pop(('ret',), None)
                res.append((v, s))
            return res
        return self.opaque(fn, ins, st, site, name, args)

    def opaque(self, fn, ins, st, site, name, args):
        kill = self.kills(name)
        if kill:
            for k in [k for k, c in st.mem.items() if c[1] in kill and k[0][0] != 'A']:
                del st.mem[k]
        for a in args:
            b, o = self.split(a)
            if b[0] == 'A':
                for k in [k for k in st.mem if k[0] == b]:
                    del st.mem[k]
        # locals whose address has escaped into memory are not followed
        v = self.fresh(st, site, 'call', name) if ins['t'] != 'void' else None
        return [(v, st)]
