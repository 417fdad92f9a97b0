"""C12: the attributes of variable nodes are touched only on variable nodes.

A node of another type is allocated without them, so every touch is also an access outside the node.  Every function
that touches such an attribute, sets a node's type or copies a whole node is walked (engine/walk.py): at each load,
store, copy or address hand-over that reaches into the variable part of a node, the type of that very node must be
known to be CO_VARIABLE on that path.  Where the node is an argument and the function does not establish this itself,
the obligation moves to its callers.  The parser's current variable is the only member trusted to hold a variable;
every store to it is checked.  A type is given only to a node of the size of that type."""
from common import *
from scen import member, enum
from spec import SpecInterp
from walk import *

MINSITES = 150


class C12(Walker):
    def __init__(self, p):
        I = SpecInterp(p)
        Walker.__init__(self, p, I.tag)
        self.mod = I.mod
        self.U = next(m['o'] for m in p.ditypes['cg_obj']['m'] if m['n'] == 'u')
        self.SZ = p.ditypes['cg_obj']['size']
        self.TO = member(p, 'cg_obj', 'coc_type')[0]
        self.VAR = enum(p, 'CO_VARIABLE')
        self.ENUM = frozenset(p.enums['cg_objtype'].values())
        if self.SZ <= self.U:
            raise Broken('struct cg_obj has no variable part')
        mk = [s for s in p.ditypes if any(x['n'] == 'cy_var' for x in p.ditypes[s].get('m', ()))]
        if not mk:
            raise Broken('the parser has no current variable')
        self.CY = (mk[0], member(p, mk[0], 'cy_var')[0])
        self.TT = ('cg_obj_common', self.TO)
        self.names = {m['o']: m['n'] for m in p.ditypes['cg_varspec']['m']}
        # members that hold nodes
        self.ptrs = {(s, m['o']) for s in p.ditypes for m in p.ditypes[s].get('m', ()) if (m['st'] or m['t']) in ('cg_obj*', 'cg_obj**')}
        self.direct = {n for n, f in p.defined.items() if self.touches(f)}
        rel = set(self.direct); ch = True
        rets = {n for n, f in p.defined.items() if f.sig and f.sig[0] in ('cg_obj*',)}
        self.size = {n: sum(len(b) for b in f.blocks) for n, f in p.defined.items()}
        def caller(n):
            return {f.name for f, ins in p.callers.get(n, ())}
        while ch:
            ch = False
            for n in list(rel):
                # a small function is walked in its callers
                if self.size[n] <= 70 and not self.scc[n]:
                    new = caller(n) - rel
                    if new:
                        rel |= new; ch = True
        self.rel = rel
        self.small = {n for n in p.defined if (n in rel) and self.size[n] <= 70 and not self.scc[n]}
        self.small |= {n for n, f in p.defined.items() if self.size[n] <= 40 and not self.scc[n] and not f.headers
                       and any('cg_obj*' == s or 'cg_objtype' in s for s in f.sig)}
        self.req = {}; self.summ = {}; self.modt = {}
        self.cur = None
        self.sites = set(); self.applied = set(); self.inlined = {}
        # functions through which a type may be changed
        self.viol = {}

    def touches(self, f):
        for b in f.blocks:
            for ins in b:
                if ins['op'] == 'getelementptr' and any(t[0] == 'cg_varspec' and ins['set'] != 'cg_varspec' or t[0] == 'cg_obj' and t[1] >= self.U or tuple(t) == self.CY or tuple(t) == self.TT for t in ins['path'] or ()):
                    return True
                if ins['op'] == 'call' and 'memcpy' in (ins.get('fn') or ''):
                    return any(s == 'cg_obj*' for s in f.sig)
        return False

    # ---- facts
    def default(self, v):
        if v[0] == 't' or v[0] in 'so' and self.TT in v:
            return ('in', self.ENUM)
        if v[0] == 'o' and v[1][0] == 't':
            return ('in', self.ENUM)
        return None

    def track(self, tag):
        return tag in self.ptrs or tag == self.TT or tag == self.CY or tag[0] == 'match_result' or tag[0] == 'parse_tree'

    def relevant(self, f):
        return f.name in self.small

    def initial(self, st, b, o, tag):
        if tag == self.TT and o == self.TO and not st.dirty:
            return ('t', b)
        return None

    def types(self, st, x):
        """possible types of the node that x points to"""
        c = st.mem.get((x, self.TO))
        if c is None:
            v = ('t', x)
            if st.dirty:
                return self.ENUM
        else:
            v = c[0]
        f = self.fact(st, v)
        if f is None:
            return self.ENUM
        return f[1] if f[0] == 'in' else self.ENUM - f[1]

    def typename(self, st, x):
        c = st.mem.get((x, self.TO))
        return c[0] if c else (('t', x) if not st.dirty else None)

    def joined(self, r, n, parts):
        u = frozenset()
        for st, x in parts:
            if x == ZERO:
                continue
            u |= self.types(st, x)
        if u and u != self.ENUM:
            if not r.dirty:
                r.facts[('t', n)] = ('in', u)
            else:
                tn = ('j', 'type', n)
                r.mem[(n, self.TO)] = (tn, self.TT)
                r.facts[tn] = ('in', u)

    # ---- obligations
    def asize(self, st, x):
        c = st.mem.get((x, 'size'))
        return c[0][1] if c and c[0][0] == 'c' else None

    def site(self, fn, ins):
        self.sites.add((fn.name, ins['i']))

    def report(self, kind, fn, ins, msg, st):
        self.viol.setdefault(self.cur, {})['%s|%s|%s' % (kind, fn.name, msg)] = (fn.loc(ins), msg)

    def trusted(self, x):
        while x[0] == 'o':
            x = x[1]
        return x[0] == 's' and self.CY in x

    def need(self, st, fn, ins, x, what):
        self.site(fn, ins)
        if x == ZERO or self.trusted(x):
            return
        n = self.asize(st, x)
        if n is not None and n < self.SZ:
            self.report('size', fn, ins, '%s of a node of %d bytes, which has none' % (what, n), st); return
        ty = self.types(st, x)
        if ty <= {self.VAR} or n is not None:
            return
        tn = self.typename(st, x)
        if tn is not None and tn[0] == 't' and tn[1][0] == 'a' and self.VAR in ty and self.topsig(tn[1]) == 'cg_obj*':
            self.req.setdefault(self.cur, {}).setdefault(tn[1][1], (fn.loc(ins), what))
            return
        if not ty:
            return
        self.report('touch', fn, ins, '%s of a node that may be of another type' % what, st)

    def varpart(self, fn, ins, o):
        """operand is an address inside the variable part of a node: name of the member"""
        for k in range(8):
            if o[0] != 'v':
                return None
            d = fn.defs.get(o[1])
            if d is None or d['op'] not in ('getelementptr', 'bitcast'):
                return None
            if d['op'] == 'getelementptr':
                for t in d['path'] or ():
                    if t[0] == 'cg_obj' and t[1] >= self.U:
                        return True
            o = d['a'][0]
        return None

    def on_access(self, st, site, fn, ins, addr, write):
        b, o = self.split(addr)
        if o >= self.U and self.isnode(st, fn, ins, b, addr, ins['a'][1 if write else 0]):
            self.need(st, fn, ins, b, self.names.get(o - self.U, 'the variable part'))
        elif b[0] in 'so' and self.trusted_part(b):
            pass

    def trusted_part(self, b):
        return False

    def isnode(self, st, fn, ins, b, addr, opnd):
        if (b, 'node') in st.mem or b[0] == 'a' and self.topsig(b) == 'cg_obj*':
            return True
        if self.varpart(fn, ins, opnd):
            st.mem[(b, 'node')] = (('c', 1), None)
            return True
        return False

    def topsig(self, b):
        f = self.p.defined.get(self.cur)
        return f.sig[b[1] + 1] if f and b[1] + 1 < len(f.sig) else None

    def on_store(self, st, site, fn, ins, addr, tag, v):
        # an address inside the variable part that is kept is a touch
        if v[0] == 'p' and v[2] >= self.U and self.isnode(st, fn, ins, v[1], v, ins['a'][0]):
            self.need(st, fn, ins, v[1], 'the variable part')
        if tag == self.CY:
            self.site(fn, ins)
            b, o = self.split(addr)
            if v != ZERO and not self.trusted(v) and self.fact(st, v) != ('in', frozenset((0,))):
                ty = self.types(st, v)
                if not ty <= {self.VAR}:
                    self.report('current', fn, ins, 'the current variable of the parser is set to a node that may be of another type', st)
            return False
        if tag == self.TT:
            x, o = self.split(addr)
            self.settype(st, fn, ins, x, v)
            return True
        return False

    def settype(self, st, fn, ins, x, v):
        self.site(fn, ins)
        f = self.fact(st, v)
        new = f[1] & self.ENUM if f and f[0] == 'in' else self.ENUM - (f[1] if f else frozenset())
        n = self.asize(st, x)
        if n is not None:
            if n < self.SZ and self.VAR in new:
                self.report('small', fn, ins, 'a node of %d bytes, without room for the variable part, is made a variable' % n, st)
        elif self.VAR in new and self.typename(st, x) != v and not self.types(st, x) <= {self.VAR}:
            if x[0] == 'a' and new <= {self.VAR}:
                self.req.setdefault(self.cur, {}).setdefault(x[1], (fn.loc(ins), 'the type'))
            else:
                self.report('turn', fn, ins, 'a node that may be of another type is made a variable', st)
        if x[0] == 'a':
            self.modt.setdefault(self.cur, set()).add(x[1])
        elif not self.isfresh(x):
            self.modt.setdefault(self.cur, set()).add('*')
        self.changed(st, x)
        st.mem[(x, self.TO)] = (v, self.TT)

    def changed(self, st, x):
        """the type of x changes: what is known of nodes that may be the same is forgotten"""
        if self.isfresh(x):
            return
        for k in [k for k, c in st.mem.items() if c[1] == self.TT and k[0] != x and not self.isfresh(k[0])]:
            del st.mem[k]
        if not st.dirty:
            st.dirty = True
            # names of initial types stay valid for nodes that are distinct
            for e in list(st.facts):
                if e[0] == 't' and self.isfresh(e[1]):
                    st.mem.setdefault((e[1], self.TO), (e, self.TT))

    def on_call(self, st, site, fn, ins, name, args):
        if name in ('malloc', 'calloc', 'realloc'):
            n = args[0] if name == 'malloc' else None
            if name == 'calloc' and args[0][0] == args[1][0] == 'c':
                n = ('c', args[0][1] * args[1][1])
            v = self.fresh(st, site, 'new', name)
            if n is not None:
                f = self.fact(st, n)
                if n[0] == 'c':
                    st.mem[(v, 'size')] = (n, None)
            return [(v, st)]
        if name in ('llvm.memcpy.p0.p0.i64', 'memcpy', 'memmove', 'llvm.memmove.p0.p0.i64') and len(args) > 2:
            (x, ox), (y, oy), n = self.split(args[0]), self.split(args[1]), args[2]
            if ox == 0 and oy == 0 and n[0] == 'c' and n[1] >= self.U and (self.known(st, fn, ins, 0, x) or self.known(st, fn, ins, 1, y)):
                self.site(fn, ins)
                if n[1] > self.U:
                    self.need(st, fn, ins, y, 'the variable part')
                    if self.typename(st, x) != self.typename(st, y) and not (x[0] == 'a' and y[0] == 'a'):
                        self.need(st, fn, ins, x, 'the variable part')
                s = self.asize(st, x)
                ty = self.types(st, y)
                if s is not None and s < self.SZ and self.VAR in ty:
                    self.report('small', fn, ins, 'a node of %d bytes becomes a copy of a node that may be a variable' % s, st)
                if n[1] <= self.U and self.VAR in ty and not self.types(st, x) <= {self.VAR} and self.typename(st, x) != self.typename(st, y):
                    self.report('turn', fn, ins, 'a node that may be of another type is made a copy of a variable', st)
                c = st.mem.get((y, self.TO))
                v = c[0] if c else ('t', y) if not st.dirty else None
                if x[0] == 'a':
                    self.modt.setdefault(self.cur, set()).add(x[1])
                elif not self.isfresh(x):
                    self.modt.setdefault(self.cur, set()).add('*')
                self.changed(st, x)
                for k in [k for k in st.mem if k[0] == x and k[1] not in ('size', 'node')]:
                    del st.mem[k]
                for k, c in list(st.mem.items()):
                    if k[0] == y and k[1] not in ('size', 'node'):
                        st.mem[(x, k[1])] = c
                if v is not None:
                    st.mem[(x, self.TO)] = (v, self.TT); st.mem[(y, self.TO)] = (v, self.TT)
                return [(args[0], st)]
            return None
        if name and name.startswith('llvm.memset') or name == 'memset':
            x, o = self.split(args[0])
            if o == 0 and args[2][0] == 'c' and args[2][1] > self.U and self.known(st, fn, ins, 0, x):
                s = self.asize(st, x)
                if s is None:
                    self.need(st, fn, ins, x, 'the variable part')
                elif s < args[2][1]:
                    self.report('size', fn, ins, 'a node of %d bytes is cleared as one of %d' % (s, args[2][1]), st)
            return [(args[0], st)]
        # handing over an address inside the variable part
        for k, a in enumerate(args):
            if a[0] == 'p' and a[2] >= self.U and self.isnode(st, fn, ins, a[1], a, ins['a'][k]):
                self.need(st, fn, ins, a[1], self.names.get(a[2] - self.U, 'the variable part'))
        return None

    def known(self, st, fn, ins, k, x):
        """the pointer is one to a node"""
        if (x, 'node') in st.mem or (x, 'size') in st.mem and st.mem[(x, 'size')][0][1] in (self.U, self.SZ):
            return True
        if any(kk[0] == x and c[1] and c[1][0] in ('cg_obj_common', 'cg_obj') for kk, c in st.mem.items()):
            return True
        o = ins['a'][k]
        if o[0] == 'a' and fn.sig[o[1] + 1] == 'cg_obj*':
            return True
        return x[0] == 'a' and self.topsig(x) == 'cg_obj*'

    def opaque(self, fn, ins, st, site, name, args):
        if name in self.p.defined:
            self.applied.add(name)
        for k in self.req.get(name, ()):
            if k < len(args):
                self.need(st, fn, ins, args[k], '%s (by %s)' % (self.req[name][k][1], name))
        for k in sorted(self.modt.get(name, ()), key=str):
            if k == '*':
                self.modt.setdefault(self.cur, set()).add('*')
                self.changed(st, ('?',))
            elif k < len(args):
                x = args[k]
                if x[0] == 'a':
                    self.modt.setdefault(self.cur, set()).add(x[1])
                elif not self.isfresh(x):
                    self.modt.setdefault(self.cur, set()).add('*')
                st.mem.pop((x, self.TO), None)
                self.changed(st, x)
        mod = self.mod.get(name, frozenset())
        f = self.p.defined.get(name)
        for k in [k for k, c in st.mem.items() if c[1] in mod and c[1] != self.TT and k[0][0] != 'A']:
            del st.mem[k]
        sm = self.summ.get(name)
        tys = {k: self.typename(st, a) for k, a in enumerate(args) if f is not None and k + 1 < len(f.sig) and f.sig[k + 1] == 'cg_obj*'}
        pre = st.copy()
        for k, a in enumerate(args):
            b, o = self.split(a)
            if b[0] != 'A':
                continue
            had = {q: st.mem[q] for q in st.mem if q[0] == b}
            for q in had:
                del st.mem[q]
            if f is not None and k + 1 < len(f.sig) and f.sig[k + 1] == 'cg_obj**' and sm and sm.get(k):
                v = self.node(st, site, ('out', k), sm[k], args, tys)
                st.mem[(b, o)] = (v, ('t', 'ptr'))
            elif f is not None and k + 1 < len(f.sig) and f.sig[k + 1] != 'cg_obj**' and had and f.sig[k + 1].count('*') == 1 and not f.sig[k + 1].startswith(('cligen_', 'match_')):
                pass
        if ins['t'] == 'void':
            return [(None, st)]
        if f is not None and f.sig and f.sig[0] == 'cg_obj*' and sm and sm.get('ret'):
            return [(self.node(st, site, 'ret', sm['ret'], args, tys), st)]
        return [(self.fresh(st, site, 'call', name), st)]

    def node(self, st, site, what, d, args, tys):
        """the node that a callee hands out: d = (fresh, type)"""
        v = self.fresh(st, site, 'new' if d[0] else 'out', what)
        t = d[1]
        if t is not None and t[0] == 'const':
            tn = self.fresh(st, site, 'type', what, self.TT)
            st.facts[tn] = ('in', t[1])
            st.mem[(v, self.TO)] = (tn, self.TT)
        elif t is not None and t[0] == 'same' and tys.get(t[1]) is not None:
            st.mem[(v, self.TO)] = (tys[t[1]], self.TT)
        elif d[0]:
            pass
        return v

    # ---- summaries
    def describe(self, st, v, ent):
        """what is handed out: (fresh, type) or None"""
        if v is None or v == ZERO or self.fact(st, v) == ('in', frozenset((0,))):
            return ZERO
        tn = self.typename(st, v)
        ty = self.types(st, v)
        fr = self.isfresh(v)
        if tn is not None:
            t = tn
            if t[0] == 't' and t[1][0] == 'a' and fr:
                return (True, ('same', t[1][1]))
        if ty != self.ENUM:
            return (fr, ('const', ty))
        return (fr, None)

    def merge(self, a, b):
        if a is None or a == ZERO:
            return b
        if b == ZERO:
            return a
        t = None
        if a[1] == b[1]:
            t = a[1]
        elif a[1] and b[1] and a[1][0] == b[1][0] == 'const':
            t = ('const', a[1][1] | b[1][1])
        return (a[0] and b[0], t)

    def analyse(self, n):
        f = self.p.defined[n]
        self.cur = n
        self.viol.pop(n, None)
        args = [('a', i) for i in range(len(f.params))]
        st = WS([], {}, {})
        sm = {}
        for v, s, ins in self.run(f, args, st, ()):
            if f.sig and f.sig[0] == 'cg_obj*':
                sm['ret'] = self.merge(sm.get('ret'), self.describe(s, v, None))
            for k in range(len(args)):
                if k + 1 < len(f.sig) and f.sig[k + 1] == 'cg_obj**':
                    c = s.mem.get((('a', k), 0))
                    if c is not None:
                        sm[k] = self.merge(sm.get(k), self.describe(s, c[0], None))
        self.summ[n] = {k: d for k, d in sm.items() if d and d != ZERO}


def run(tier):
    p = program()
    w = C12(p)
    order = [n for c in p.order() for n in c if n in w.rel]
    # in the order of calls; again where a summary or an obligation changes
    todo = list(order); rounds = 0
    while todo and rounds < 6:
        rounds += 1
        nxt = set()
        for n in todo:
            before = (w.summ.get(n), set(w.req.get(n, {})), set(w.modt.get(n, ())))
            w.analyse(n)
            after = (w.summ.get(n), set(w.req.get(n, {})), set(w.modt.get(n, ())))
            if before != after:
                for f, ins in p.callers.get(n, ()):
                    if f.name not in order and (w.req.get(n) or w.modt.get(n)):
                        order.append(f.name)
                    if f.name in order and (order.index(f.name) <= order.index(n) or rounds > 1 or f.name not in w.summ):
                        nxt.add(f.name)
        todo = [n for n in order if n in nxt]
    if todo:
        raise Broken('the obligations of callers do not settle: %s' % todo[:4])
    api = public_api(p)
    fs = []
    ctx_only = set()
    for n in sorted(w.viol):
        f = p.defined[n]
        # judged in the context of its callers, each of which is walked
        if n in w.small and n not in api and n not in w.applied and not f.addr and p.callers.get(n):
            ctx_only.add(n); continue
        for key, (loc, msg) in sorted(w.viol[n].items()):
            fs.append(finding(key, loc, 'in %s: %s' % (n, msg), 'variable attributes on variable nodes only'))
    req = {}
    for n in sorted(w.req):
        f = p.defined[n]
        req[n] = sorted(w.req[n])
        if not p.callers.get(n) or f.addr:
            for k, (loc, what) in w.req[n].items():
                fs.append(finding('arg|%s|%d' % (n, k), loc, '%s: %s of argument %d is touched although the function may be given a node of another type' % (n, what, k), 'variable attributes on variable nodes only'))
    sites = {s for s in w.sites}
    if len(sites) < MINSITES:
        raise Broken('only %d accesses to variable parts found' % len(sites))
    cov = dict(p.stats(), functions_walked=len(order), accesses=len(sites), steps=w.steps, rounds=rounds,
               functions_given_a_variable=req, judged_in_their_callers=sorted(ctx_only),
               explanation='%d accesses to variable parts, type stores and node copies in %d functions' % (len(sites), len(order)))
    return {'findings': fs, 'coverage': cov,
            'assumptions': ['node types are one of the declared enumerators', 'application callbacks do not change the type of a node',
                            'the current variable of the parser is a variable or null (every store to it is checked)']}
