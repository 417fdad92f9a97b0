from absint import *
from absint import _cc
import libc, zlib

FIELD_DFLT = {}


class Outcome:
    __slots__ = ('ret', 'st', 'fails', 'deref')


class Event(object):
    __slots__ = ('kind', 'fn', 'loc', 'msg', 'data', 'path')

    def __init__(self, kind, fn, loc, msg, data, path):
        self.kind = kind; self.fn = fn; self.loc = loc; self.msg = msg; self.data = data; self.path = path

    def __repr__(self):
        return '%s %s (%s): %s' % (self.kind, self.fn, self.loc, self.msg)


def trail(tr, n=14):
    out = []
    while tr is not None and len(out) < n:
        out.append(tr[0]); tr = tr[1]
    return out[::-1]


class Frame:
    __slots__ = ('id', 'fn', 'args', 'depth', 'groups', 'slots', 'coarse', 'parent', 'inl', 'curloop')

    def __init__(self):
        self.groups = {}; self.slots = {}; self.coarse = False; self.parent = None; self.depth = 0; self.inl = False; self.curloop = False


_fid = {}


def frameid(key):
    """a number for an activation that does not depend on the order of exploration"""
    r = _fid.get(key)
    if r is None:
        b = repr(key).encode()
        r = _fid[key] = (zlib.crc32(b) << 28 ^ zlib.adler32(b)) + (1 << 40)
    return r


class Interp:
    def __init__(self, prog, policy):
        self.prog = prog; self.policy = policy
        self.summ = {}
        self.events = {}
        self.collect = True
        self.mod = {}
        self.capped = {}
        self.coarse = {}
        self.nofix = set()
        self.origin = {}
        self.arrays = set()
        self.steps = 0
        self.inline_all = False
        self.inline_depth = 0
        self.tagcache = {}
        self.plain = self._plain()
        self.dereferenced = {}
        self.dflt = self._field_defaults()
        self.hooks = []
        self.maxinline = 3
        self.exact = False
        self._modsets()

    # ---- static facts
    def _field_defaults(self):
        d = {}
        for n, t in self.prog.ditypes.items():
            if t['union']:
                continue
            for m in t['m']:
                st = m['st']
                w = m['sz']
                if st in ('unsigned int', 'unsigned long', 'unsigned char', 'unsigned short', 'unsigned long long', 'size_t'):
                    d[(n, m['o'])] = (0, (1 << w) - 1)
        return d

    def tag(self, fn, ins):
        """field tag of a load/store: (struct, offset) when the address is a field, else its type"""
        k = (fn.name, ins['i'])
        t = self.tagcache.get(k)
        if t is None:
            o = ins['a'][0] if ins['op'] == 'load' else ins['a'][1]
            t = ('t', ins['t'] if ins['op'] == 'load' else ins.get('vt'))
            if o[0] == 'v':
                d = fn.defs[o[1]]
                if d['op'] == 'getelementptr' and d['path']:
                    p = d['path'][-1]
                    t = (p[0], p[1])
            elif o[0] == 'g' and o[1] in self.plain:
                t = ('g', o[1])
            self.tagcache[k] = t
        return t

    def argtag(self, fn, ins, k):
        """the field whose address is argument k of a call"""
        a = ins['a'][k] if k < len(ins['a']) else ('c', 0)
        if a[0] == 'v':
            d = fn.defs[a[1]]
            if d['op'] == 'getelementptr' and d['path']:
                p = d['path'][-1]
                return (p[0], p[1])
        return None

    def _plain(self):
        """private scalar variables whose address is only ever used to load and store them"""
        from front import operands
        cand = {n for n, g in self.prog.globals.items() if g.get('internal') and not g.get('decl') and g.get('size', 99) <= 8 and g.get('ty') in ('i8', 'i16', 'i32', 'i64', 'ptr')}
        for f in self.prog.defined.values():
            for b in f.blocks:
                for ins in b:
                    a = ins.get('a', ())
                    for k, o in enumerate(operands(ins)):
                        if o[0] == 'g' and o[1] in cand:
                            if ins['op'] == 'load' or ins['op'] == 'store' and o is a[1]:
                                continue
                            cand.discard(o[1])
        return cand

    def _modsets(self):
        direct = {}
        for f in self.prog.defined.values():
            s = set()
            for b in f.blocks:
                for ins in b:
                    if ins['op'] == 'store':
                        o = ins['a'][1]
                        if o[0] == 'v' and f.defs[o[1]]['op'] == 'alloca':
                            continue
                        s.add(self.tag(f, ins))
                    elif ins['op'] == 'call':
                        n = ins.get('fn')
                        if n and n not in self.prog.defined:
                            m = libc.writes(n)
                            if m is None:
                                continue
                            for k in m:
                                if k >= len(ins['a']):
                                    continue
                                a = ins['a'][k]
                                s.add(('t', 'i8'))
                                if n.startswith('llvm.mem') or n in ('memcpy', 'memset', 'memmove'):
                                    # whole-object writes: every field of the pointed-to type
                                    s |= self.alltags(self._ptype(f, a))
            direct[f.name] = s
        # fields whose address is handed to a callee that stores through it
        thru = {n: set() for n in direct}; pend = []
        for f in self.prog.defined.values():
            for b in f.blocks:
                for ins in b:
                    if ins['op'] == 'store' and ins['a'][1][0] == 'a':
                        thru[f.name].add(ins['a'][1][1])
                    elif ins['op'] == 'call' and ins.get('fn') in direct:
                        for k, a in enumerate(ins['a']):
                            if a[0] == 'a':
                                pend.append((f.name, a[1], ins['fn'], k))
        more = True
        while more:
            more = False
            for (g, i, c, k) in pend:
                if k in thru[c] and i not in thru[g]:
                    thru[g].add(i); more = True
        for f in self.prog.defined.values():
            for b in f.blocks:
                for ins in b:
                    if ins['op'] == 'call' and ins.get('fn') in direct:
                        for k in thru[ins['fn']]:
                            t = self.argtag(f, ins, k)
                            if t:
                                direct[f.name].add(t)
        self.mod = {n: frozenset(s) for n, s in direct.items()}
        for comp in self.prog.order():
            u = set()
            for n in comp:
                u |= direct[n]
                for c in self.prog.calls[n]:
                    if c in self.mod:
                        u |= self.mod[c]
            for n in comp:
                self.mod[n] = frozenset(u)

    def alltags(self, t):
        if t == '*':
            return {('t', 'ptr')}
        out = set()
        st = self.prog.structs.get(t)
        if not st:
            return out
        for o, ty in zip(st['offs'], st['tys']):
            out.add((t, o))
            if ty.startswith('%struct.'):
                out |= self.alltags(ty[8:])
            elif ty.startswith('%union.'):
                # any member type may be behind the union
                for x in self.prog.structs:
                    if x.startswith('anon'):
                        out |= {(x, q) for q in self.prog.structs[x]['offs']}
        return out

    def _ptype(self, f, a):
        """type of the object an operand points to, as far as the declarations tell"""
        t = ''
        if a[0] == 'a' and len(f.sig) > a[1] + 1:
            t = f.sig[a[1] + 1]
        elif a[0] == 'v':
            d = f.defs[a[1]]
            if d['op'] == 'alloca':
                return d.get('ast', '')
            if d['op'] == 'getelementptr':
                if d['path']:
                    st = self.prog.structs.get(d['path'][-1][0])
                    if st and d['path'][-1][1] in st['offs']:
                        ty = st['tys'][st['offs'].index(d['path'][-1][1])]
                        return ty.split('.', 1)[1] if ty.startswith('%') else ''
                if d['set']:
                    return d['set']
                return '*' if any(v[1] == 8 for v in d['vars']) else ''
            if d['op'] == 'call' and d.get('fn') in self.prog.defined:
                sg = self.prog.defined[d['fn']].sig
                t = sg[0] if sg else ''
        t = t.rstrip('*')
        return self.prog.typedefs.get(t, t)

    # ---- symbols
    def root(self, fr, iid):
        return T.get(('r', fr.id, iid))

    def fresh(self, st, fr, iid, extra=0, ty=None, lo=None, hi=None):
        R = self.root(fr, iid)
        if lo is None:
            if ty == 'ptr':
                lo, hi = 0, INF
            elif ty and ty[0] == 'i':
                lo, hi = trange(width(ty))
            else:
                lo, hi = -INF, INF
        s = T.get(('q', ('E', R), extra), lo, hi)
        st.gen = st.gen | {R}
        if ty == 'ptr':
            return ptrav(s)
        return symav(s)

    def newheap(self, st, fr, iid, extra, label, kind='mem', size=None):
        R = self.root(fr, iid)
        b = ('H', ('E', R), extra)
        st.gen = st.gen | {R}
        st.heap[b] = ('owned', kind)
        self.origin[b] = label
        return b

    # ---- memory
    def key_off(self, off):
        return off

    def load(self, st, base, off, ty, tag, fr=None, iid=None, mat=True):
        if off is None:
            if fr is None:
                return symav(T.get(('q', ('E', T.get(('r', -1, -1))), ('lu', base)), -INF, INF)) if ty != 'ptr' else \
                    ptrav(T.get(('q', ('E', T.get(('r', -1, -1))), ('lu', base, 'p')), 0, INF))
            return self.fresh(st, fr, iid, 'ld', ty)
        cells = st.mem.get(base)
        if cells is not None:
            c = cells.get(off)
            if c is not None:
                if c[1] == ty or (c[1] == 'ptr') == (ty == 'ptr') or isconst(c[0]):
                    v = norm(st, c[0])
                    return v
                # type-punned access
                if isinstance(off, int):
                    return self.msym(st, base, off, ty, tag, 'pun')
            s = cells.get('*')
            if s is not None and isinstance(off, int):
                if s[0] == 'copy':
                    if s[3] is None or off < s[3]:
                        return self.load(st, s[1], off + s[2], ty, tag, fr, iid, mat)
                else:
                    lim = s[1]
                    if lim is None or off < lim:
                        if s[0][0] == 'u' or s[0][0] == 'any':
                            v = self.msym(st, base, off, ty, tag, s[0][0])
                            return v
                        return s[0]
            elif s is not None and s[0] != 'copy' and s[0][0] == 'c':
                return self.msym(st, base, off, ty, tag, 'x')
        elif base[0] == 'G':
            g = self.prog.globals.get(base[1])
            if g and g['const']:
                v = self.constload(g, off, ty)
                if v is not None:
                    return v
        v = self.msym(st, base, off, ty, tag)
        if mat:
            nc = dict(cells) if cells else {}
            nc[off] = (v, ty, tag)
            st.mem[base] = nc
        return norm(st, v)

    def constcell(self, init, off, ty):
        if init.get('zero'):
            return ZERO
        if 's' in init and ty == 'i8':
            x = init['s'].encode('utf-8', 'replace')
            if off < len(x):
                v = x[off]
                return ('c', v - 256 if v > 127 else v)
            return ZERO
        if 'ints' in init and init.get('es') and off % init['es'] == 0 and 0 <= off // init['es'] < len(init['ints']):
            return ('c', init['ints'][off // init['es']])
        if 'agg' in init and init.get('es'):
            i = off // init['es']
            if 0 <= i < len(init['agg']):
                return self.constcell(init['agg'][i], off % init['es'], ty)
        elif init.get('of'):
            k = max((i for i, o in enumerate(init['of']) if o <= off), default=None)
            if k is not None and k < len(init['agg']):
                return self.constcell(init['agg'][k], off - init['of'][k], ty)
        if 'op' in init and off == 0:
            o = init['op']
            if o[0] == 'g':
                return ('p', ('G', o[1]), o[2])
            if o[0] == 'f':
                return ('f', o[1])
        return None

    def constload(self, g, off, ty):
        init = g.get('init')
        if not init:
            return None
        if isinstance(off, int):
            return self.constcell(init, off, ty)
        if isinstance(off, tuple) and init.get('agg') and init.get('es'):
            # a column of a constant table, row unknown
            d = lin(off)
            es = init['es']
            if d and len(d[0]) == 1 and all(c % es == 0 for c in d[0].values()) and 0 <= d[1] < es and ty != 'ptr':
                vs = [self.constcell(e, d[1], ty) for e in init['agg']]
                if vs and all(v is not None and isconst(v) for v in vs):
                    xs = [cval(v) for v in vs]
                    return ('l', ((T.get(('tab', g.get('dn', ''), off), min(xs), max(xs)), 1),), 0)
            return None
        if isinstance(off, tuple) and 'ints' in init and init.get('es'):
            xs = init['ints']
            return ('l', ((T.get(('tab', g.get('dn', ''), off), min(xs), max(xs)), 1),), 0)
        return None

    def msym(self, st, base, off, ty, tag, extra=None):
        lo, hi = (0, INF) if ty == 'ptr' else trange(width(ty)) if ty[0] == 'i' else (-INF, INF)
        d = self.dflt.get(tag)
        if d and ty != 'ptr':
            lo, hi = d
        if ty == 'i1':
            lo, hi = 0, 1
        e = st.ep.get(tag)
        b = base
        if base[0] == 'D' and T.depth[base[1]] > DEPTH:
            b = ('D', self._collapse(base[1]))
        if extra is None and e is None:
            s = T.get(('m', b, off, tag, ty), lo, hi)
        elif extra is not None:
            s = T.get(('m' + extra, b, off, tag, ty), lo, hi)
        else:
            s = T.get(('k', ('E', e), b, off, tag, ty), lo, hi)
        return ptrav(s) if ty == 'ptr' else symav(s)

    def _collapse(self, s):
        """bounded access paths: a deep path is named by its root only"""
        roots = tuple(sorted(T.deps[s]))
        x = T.get(('deep', tuple(('E', r) for r in roots)), 0, INF)
        return x

    def store(self, st, fr, ins, base, off, av, ty, tag):
        cells = st.mem.get(base)
        nc = dict(cells) if cells else {}
        if isinstance(off, int):
            w = max(1, width(ty) // 8)
            for o in list(nc):
                if o == '*' or o == off:
                    continue
                if isinstance(o, int):
                    c = nc[o]
                    w2 = max(1, width(c[1]) // 8)
                    if o < off + w and off < o + w2:
                        del nc[o]
                else:
                    if nc[o][2] == tag:
                        del nc[o]
            nc[off] = (av, ty, tag)
        else:
            for o in list(nc):
                if o != '*' and nc[o][2] == tag or (o != '*' and not isinstance(o, int)):
                    del nc[o]
            s = nc.get('*')
            if s is not None and s[0] != 'copy' and base[0] != 'D':
                # contents at unknown positions are now unknown
                nc['*'] = (('any',), None)
            if off is not None:
                nc[off] = (av, ty, tag)
            if base[0] == 'D':
                R = self.root(fr, ins['i'])
                st.gen = st.gen | {R}
                ep = dict(st.ep); ep[tag] = R; st.ep = ep
        st.mem[base] = nc
        # ownership: a block stored in memory that outlives this frame is owned there
        if av[0] == 'p' and av[1][0] == 'H':
            self.stored(st, base, off, av[1])
        elif av[0] == 'p' and av[1][0] == 'D':
            if (base[0] in ('D', 'G') and self._argbase(av[1])) or off is None:
                if st.heap.get(av[1], ('', 0))[0] != 'freed' and T.desc[av[1][1]][0] == 'arg' and base != av[1]:
                    st.heap[av[1]] = ('captured', None)

    def _argbase(self, b):
        return b[0] == 'D' and T.desc[b[1]][0] == 'arg'

    def stored(self, st, base, off, h):
        s = st.heap.get(h)
        if not s or s[0] != 'owned':
            return
        if base[0] in ('D', 'G') or not isinstance(off, int) or base in self.arrays:
            # (elements of an array of variable length are not told apart)
            self.escape(st, h)
        elif base[0] == 'H' and st.heap.get(base, ('escaped',))[0] not in ('owned',):
            self.escape(st, h)

    def escape(self, st, h):
        s = st.heap.get(h)
        if s and s[0] == 'owned':
            st.heap[h] = ('escaped', s[1])
            cells = st.mem.get(h)
            if cells:
                for o, c in cells.items():
                    if o != '*' and c[0][0] == 'p' and c[0][1][0] == 'H':
                        self.escape(st, c[0][1])

    def escape_av(self, st, a):
        if a[0] == 'p' and a[1][0] == 'H':
            self.escape(st, a[1])
        elif a[0] == 'p' and self._argbase(a[1]):
            if st.heap.get(a[1], ('', 0))[0] != 'freed':
                st.heap[a[1]] = ('captured', None)

    # ---- events
    def report(self, kind, fr, ins, st, msg, **data):
        if not self.collect:
            return
        loc = fr.fn.loc(ins) if ins is not None else '%s:%s' % (fr.fn.file, fr.fn.line)
        key = (kind, fr.fn.name, loc, msg)
        owner = self.cur
        d = self.events.setdefault(owner, {})
        if key not in d:
            data['mon'] = tuple(sorted(m[1] for m in st.mon if m[0] == 'F'))
            d[key] = Event(kind, fr.fn.name, loc, msg, data, trail(st.tr))

    def note(self, st, fr, ins, text):
        st.tr = ('%s %s: %s' % (fr.fn.name, fr.fn.loc(ins), text), st.tr)

    # ---- operand evaluation
    def ev(self, st, fr, o):
        k = o[0]
        if k == 'v':
            a = st.env.get(o[1])
            if a is None:
                return UNDEF
            return norm(st, a)
        if k == 'c':
            return ('c', o[1])
        if k == 'n':
            return ZERO
        if k == 'a':
            return norm(st, fr.args[o[1]]) if o[1] < len(fr.args) else UNDEF
        if k == 'g':
            return ('p', ('G', o[1]), o[2])
        if k == 'f':
            return ('f', o[1])
        return UNDEF

    # ---- running a function
    def run(self, fn, args, st, depth=0, parent=None, callins=None):
        fr = Frame()
        key = (parent.id if parent else 0, callins['i'] if callins else 0, fn.name)
        fr.id = frameid(key)
        fr.fn = fn; fr.args = args; fr.depth = depth; fr.parent = parent
        fr.inl = parent is not None and parent.curloop
        return self.explore(fr, st)

    def explore(self, fr, st0):
        import heapq
        fn = fr.fn
        work = []      # (rpo, seq, block, state)
        seq = 0
        exits = []
        self.enter_block(fr, 0, st0, None, work)
        n = 0
        while work:
            _, _, b, st = heapq.heappop(work)
            n += 1
            if n > self.policy.get('coarse', 4000) and not fr.coarse:
                # too many distinguishable histories: go on with one joined state per key of results
                fr.coarse = True
                self.coarse[fn.name] = n
                fr.groups = {}
            if n > self.policy.get('maxblocks', 60000):
                self.capped[fn.name] = n
                break
            self.exec_block(fr, b, st, work, exits)
        return exits

    def enter_block(self, fr, b, st, pred, work):
        import heapq
        fn = fr.fn
        blk = fn.blocks[b]
        if pred is not None and blk[0]['op'] == 'phi':
            vals = []
            for ins in blk:
                if ins['op'] != 'phi':
                    break
                for (o, p) in ins['inc']:
                    if p == pred:
                        vals.append((ins['i'], self.ev(st, fr, o)))
                        break
            for i, v in vals:
                st.env[i] = v
        if len(fn.preds[b]) > 1 or b in fn.headers:
            jr = T.get(('r', fr.id, ('jb', b)))
            if jr in st.gen:
                age(st, [jr]); self._age_extra(st, jr)
            self.prune(fr, b, st)
            g = fr.groups.setdefault(b, {})
            if fr.coarse:
                key = self.pkey(fr, b, st, 2)
                bucket = g.setdefault(key, [])
                ent = bucket[0] if bucket else None
            else:
                key = self.pkey(fr, b, st)
                ngr = sum(len(x) for x in g.values())
                if key not in g and ngr > CAPS[0]:
                    lvl = 1 if ngr <= CAPS[1] else 2 if ngr <= CAPS[2] else 3
                    key = self.pkey(fr, b, st, lvl)
                ent = None
                bucket = g.setdefault(key, [])
                for e in bucket:
                    if self.compat(e[0], st):
                        ent = e; break
                if ent is None and len(bucket) >= 4:
                    ent = bucket[-1]
            if ent is None:
                bucket.append([st.copy(), 1])
            else:
                old, cnt = ent
                new, changed = self.join(fr, b, old, st, cnt > (2 if b in fn.headers else 6))
                if not changed:
                    return
                new.tr = st.tr
                ent[0] = new; ent[1] = cnt + 1
                if cnt > 60:
                    self.nofix.add((fn.name, b))
                    return
                st = new.copy()
        heapq.heappush(work, (fn.rpoidx[b], self.seq(), b, st))

    _seq = 0

    def seq(self):
        self._seq += 1
        return self._seq

    def _age_extra(self, st, R):
        o = T.get(('in', 'old', R)); oo = T.get(('in', 'older', R))
        if st.ep:
            m = {R: o, o: oo}
            if any(v in m for v in st.ep.values()):
                st.ep = {k: m.get(v, v) for k, v in st.ep.items()}
        st.gen = st.gen - {R}

    def begin(self, fr, ins, st):
        """ageing before an instruction inside a loop generates its symbols again"""
        R = T.get(('r', fr.id, ins['i']))
        if R in st.gen:
            age(st, [R]); self._age_extra(st, R)
        if ins['op'] == 'call':
            J = T.get(('r', fr.id, ('jb', ('c', ins['i']))))
            if J in st.gen:
                age(st, [J]); self._age_extra(st, J)

    # ---- pruning, keys, joins
    def prune(self, fr, b, st, rets=None):
        fn = fr.fn
        if b is not None:
            live = fn.livein[b]
            blk = fn.blocks[b]
            ph = set()
            for ins in blk:
                if ins['op'] != 'phi':
                    break
                ph.add(ins['i'])
            st.env = {i: v for i, v in st.env.items() if i in live or i in ph}
        # reachability
        work = []
        seen = set()

        def add(a):
            if a[0] == 'p':
                bb = a[1]
                if bb not in seen:
                    seen.add(bb); work.append(bb)
            elif a[0] == 'l':
                for (s, c) in a[1]:
                    pass
            elif a[0] == 'cmp':
                add(a[2]); add(a[3])
        for a in st.env.values():
            add(a)
        if rets:
            for a in rets:
                add(a)
        f = fr
        while f is not None:
            for a in f.args:
                add(a)
            f = f.parent
        if fr.parent is not None:
            # callers' frames are suspended: keep everything they may hold
            for bb in st.mem:
                if bb[0] == 'A' and bb[1] != fr.id and bb not in seen:
                    seen.add(bb); work.append(bb)
            held = st.tmp.get('held') if st.tmp else None
            if held:
                for a in held:
                    add(a)
        for bb in st.mem:
            if (bb[0] == 'G' or bb[0] == 'D' and self._nameable(bb[1])) and bb not in seen:
                seen.add(bb); work.append(bb)
        while work:
            bb = work.pop()
            cells = st.mem.get(bb)
            if cells:
                for o, c in cells.items():
                    if o == '*':
                        if c[0] == 'copy' and c[1] not in seen:
                            seen.add(c[1]); work.append(c[1])
                        continue
                    a = c[0]
                    if a[0] == 'p' and a[1] not in seen:
                        seen.add(a[1]); work.append(a[1])
        dead = [bb for bb in st.heap if bb[0] == 'H' and bb not in seen]
        for bb in dead:
            s = st.heap[bb]
            if s[0] == 'owned':
                self.leak(fr, b, st, bb)
            del st.heap[bb]
        for bb in [x for x in st.mem if x[0] in ('A', 'H', 'D') and x not in seen]:
            del st.mem[bb]
        # ownership marks of unnameable, unreferenced blocks
        for bb in [x for x in st.heap if x[0] == 'D' and x not in seen and (T.depth[x[1]] > 3 or not self._nameable(x[1]))]:
            del st.heap[bb]
        # facts about values nothing refers to any more
        if len(st.facts) > 24:
            used = set()
            for a in st.env.values():
                av_syms(a, used)
            if rets:
                for a in rets:
                    av_syms(a, used)
            f = fr
            while f is not None:
                for a in f.args:
                    av_syms(a, used)
                f = f.parent
            if st.tmp and 'held' in st.tmp:
                for a in st.tmp['held']:
                    av_syms(a, used)
            for bb, cells in st.mem.items():
                if bb[0] == 'D':
                    used.add(bb[1])
                for o, c in cells.items():
                    if o != '*':
                        av_syms(c[0], used)
            usedroots = set(used)
            for s in list(st.facts):
                if s in usedroots:
                    continue
                d = T.desc[s]
                if d[0] in ('arg',):
                    continue
                if d[0] in ('m',) and T.depth[s] <= 4 and all(T.desc[r][0] == 'arg' for r in T.deps[s]):
                    continue
                if d[0] == 'op':
                    # tests on live values stay correlated
                    q = set(); self._opsyms(d, q)
                    if q and q <= usedroots:
                        continue
                del st.facts[s]
        if st.rel:
            if len(st.rel) > 40:
                keep = list(st.rel.items())[-40:]
                st.rel = dict(keep)

    def extra(self):
        return {}

    def _opsyms(self, d, out):
        for x in d[2:]:
            if isinstance(x, tuple) and x and x[0] in ('l', 'p', 'cmp', 'c', 'z'):
                av_syms(x, out)

    def _nameable(self, s):
        return all(T.desc[r][0] == 'arg' for r in T.deps[s])

    def orig(self, b):
        while b not in self.origin and b[0] == 'H' and b[1] == 'old':
            b = b[2]
        return self.origin.get(b, '?')

    def leak(self, fr, b, st, bb):
        kind = st.heap[bb][1]
        if kind in ('mem', 'fd', 'FILE', 'rx') and not self.policy.get('noleak'):
            if b is None:
                ins = None
                loc = 'exit'
            else:
                ins = next((x for x in fr.fn.blocks[b] if x.get('ln')), fr.fn.blocks[b][0])
            self.report('leak:' + kind, fr, ins, st, 'block from %s is dropped without being released, returned or stored' % self.orig(bb),
                        origin=self.orig(bb))

    def vkey(self, st, a, lvl=0):
        k = a[0]
        if k == 'c':
            return a if -16 <= a[1] <= 16 or lvl == 0 else 'C'
        if k == 'z' or k == 'f':
            return a[:1] if k == 'z' else a
        if k == 'p':
            b = a[1]
            if b[0] == 'D':
                h = st.heap.get(b)
                if h and h[0] == 'freed' and lvl < 2:
                    return ('F', b)
                if h and h[0] != 'captured' and not self._nameable(b[1]):
                    return ('P', b)
                return 'N' if nonnull(st, a) else 'M'
            if b[0] == 'H' and st.heap.get(b, ('any',))[0] not in ('owned', 'freed'):
                return 'N'
            return ('P', b)
        if k == 'cmp' and self.exact:
            a = norm(st, a)
            return a if a[0] == 'c' else None
        return None

    def pkey(self, fr, b, st, lvl=0):
        fn = fr.fn
        out = [bool(st.mon) if fr.coarse else st.mon]
        held = self.rootheld(st)
        heap = tuple(sorted(((bb, s[0]) for bb, s in st.heap.items() if bb[0] == 'H' and bb in held and (s[0] == 'owned' or s[0] == 'freed' and lvl < 2)), key=repr)) if st.heap and lvl < 3 else ()
        out.append(heap)
        if lvl < 2:
            out.append(self.handed(st))
        if lvl >= 2:
            if lvl == 2:
                # keep only what decides the function result
                out.append(tuple(sorted((i, self.vkey(st, v, 1)) for i, v in st.env.items()
                                        if v[0] == 'c' and (i in fn.retvals or fn.names.get(i) in ('retval', 'ret', 'rc')))))
            return tuple(out)
        slots = fr.slots.setdefault(b, {}) if b is not None else {}
        e = []
        for i, v in sorted(st.env.items()):
            k = self.vkey(st, v, lvl)
            if self.exact:
                if k is not None:
                    e.append((i, k))
                continue
            if isinstance(k, tuple) and k and k[0] == 'c' and i in fn.counters:
                continue
            if isinstance(k, tuple) and k and k[0] == 'c':
                seen = slots.setdefault(i, set())
                if k not in seen:
                    if len(seen) >= (5 if b not in fn.headers else 3):
                        k = None
                    else:
                        seen.add(k)
                if lvl >= 1 and k is not None and fn.names.get(i) is None:
                    k = None
            elif v[0] == 'cmp':
                k = None
            if k is not None:
                e.append((i, k))
        out.append(tuple(e))
        if lvl == 0:
            m = []
            for bb, cells in st.mem.items():
                if bb[0] == 'D' or bb[0] == 'G':
                    if self.exact:
                        m += [(bb, o, c[0]) for o, c in cells.items() if o != '*' and (c[0][0] in 'cf' or c[0][0] == 'p' and c[0][1][0] != 'D')]
                        continue
                    for o, c in cells.items():
                        if o != '*' and c[0][0] == 'p' and c[0][1][0] == 'H' and st.heap.get(c[0][1], ('',))[0] in ('owned', 'freed'):
                            m.append((bb, o, self.vkey(st, c[0], lvl)))
                    continue
                for o, c in cells.items():
                    if o == '*':
                        continue
                    if bb[0] == 'H' and c[1] == 'ptr':
                        if c[0][0] == 'p' and c[0][1][0] == 'H' and c[0][1] in held:
                            m.append((bb, o, c[0][1]))
                        elif c[0][0] == 'f':
                            m.append((bb, o, c[0]))
                        continue
                    k = self.vkey(st, c[0], lvl)
                    if isinstance(k, tuple) and k[0] == 'c' and not self.exact:
                        seen = slots.setdefault((bb, o), set())
                        if k not in seen:
                            if len(seen) >= 3:
                                k = None
                            else:
                                seen.add(k)
                    if k is not None:
                        m.append((bb, o, k))
            out.append(tuple(sorted(m, key=repr)))
        return tuple(out)

    def group(self, groups, k, fr, b, s):
        l = groups.setdefault(k, [])
        for i, g in enumerate(l):
            if self.compat(g, s):
                l[i] = self.join(fr, b, g, s, False)[0]
                return
        if len(l) >= 5:
            l[-1] = self.join(fr, b, l[-1], s, False)[0]
            return
        l.append(s)

    def handed(self, st):
        """blocks put where a pointer parameter of this function points (a result handed out by reference)"""
        out = []
        for bb, cells in st.mem.items():
            if bb[0] == 'D' and T.desc[bb[1]][0] == 'arg':
                c = cells.get(0)
                if c and c[2] == ('t', 'ptr') and c[0][0] == 'p' and c[0][1][0] == 'H' and st.heap.get(c[0][1], ('',))[0] == 'escaped':
                    out.append((bb, c[0][1]))
        return tuple(sorted(out, key=repr))

    def rootheld(self, st):
        """heap blocks referred to by variables (not only by fields of other heap blocks)"""
        out = set()
        for a in st.env.values():
            if a[0] == 'p' and a[1][0] == 'H':
                out.add(a[1])
        for bb, cells in st.mem.items():
            if bb[0] != 'H':
                for o, c in cells.items():
                    if o != '*' and c[0][0] == 'p' and c[0][1][0] == 'H':
                        out.add(c[0][1])
        return out

    def absent_ok(self, A, B, h):
        """block h exists in A only: B must hold null wherever A's heap fields refer to h"""
        for a in A.env.values():
            if a[0] == 'p' and a[1] == h:
                return False
        for bb, cells in A.mem.items():
            for o, c in cells.items():
                if o != '*' and c[0][0] == 'p' and c[0][1] == h:
                    if bb[0] != 'H' or c[0][2] != 0 or not isinstance(o, int):
                        return False
                    bc = B.mem.get(bb)
                    if bc is None or B.heap.get(bb, ('none',))[0] == 'none':
                        continue
                    x = bc.get(o)
                    if x is None:
                        s = bc.get('*')
                        if s is None or s[0] == 'copy' or s[0] != ZERO:
                            return False
                        continue
                    v = norm(B, x[0])
                    if v != ZERO:
                        return False
        return True

    def compat(self, A, B):
        """blocks named by pointers: same release status, or the pointer is null in the state that lacks it"""
        if A.heap == B.heap:
            return True
        for X, Y in ((A, B), (B, A)):
            for bb, s in X.heap.items():
                if bb[0] == 'H':
                    y = Y.heap.get(bb, ('none',))[0]
                    if s[0] == 'owned' and y == 'none' and not self.absent_ok(X, Y, bb):
                        return False
                    if s[0] == 'owned' and y in ('freed',) or s[0] == 'freed' and y == 'owned':
                        return False
                    continue
                y = Y.heap.get(bb)
                if y is None:
                    if s[0] == 'captured':
                        continue
                    f = Y.facts.get(bb[1])
                    if not (f and f[0] == 0 and f[1] == 0):
                        return False
                elif y[0] != s[0]:
                    f = Y.facts.get(bb[1])
                    g = X.facts.get(bb[1])
                    if not (f and f[0] == 0 and f[1] == 0) and not (g and g[0] == 0 and g[1] == 0):
                        return False
        return True

    def join(self, fr, b, A, B, widen):
        """least upper bound of two states at block b; (state, changed?)"""
        N = St()
        N.mon = A.mon | B.mon; N.tr = B.tr; N.tmp = A.tmp if A.tmp == B.tmp else self.jointmp(A, B)
        changed = A.mon != N.mon
        jr = T.get(('r', fr.id, ('jb', b)))
        pairs = {}
        newf = {}
        usedj = [False]
        carried = []

        def jsym(slot, va, vb, isptr, A_, B_):
            usedj[0] = True
            pk = (va, vb)
            s = pairs.get(pk)
            if s is None:
                s = T.get(('q', ('E', jr), ('j', slot, isptr)), 0 if isptr else -INF, INF)
                la, ha = interval(A_, va); lb, hb = interval(B_, vb)
                lo, hi = min(la, lb), max(ha, hb)
                if widen and va == (ptrav(s) if isptr else symav(s)):
                    if lo < la:
                        lo = 0 if lo >= 0 else -1 if lo >= -1 else -INF
                    if hi > ha:
                        hi = INF
                elif widen and not isptr:
                    if lo < la: lo = 0 if lo >= 0 else -1 if lo >= -1 else -INF
                    if hi > ha: hi = INF
                ne = ()
                if isptr:
                    if nonnull(A_, va) and nonnull(B_, vb):
                        lo = max(lo, 1)
                else:
                    if lo <= 0 <= hi and decide(A_, 'ne', va, ZERO) and decide(B_, 'ne', vb, ZERO):
                        ne = (0,)
                newf[s] = (lo, hi, ne)
                pairs[pk] = s
                if isptr and va[0] == 'p' and vb[0] == 'p' and va[2] == 0 and vb[2] == 0:
                    carried.append((s, va[1], vb[1]))
            return ptrav(s) if isptr else symav(s)

        def jav(slot, va, vb):
            if va == vb and va[0] != 'cmp':
                return va
            if va[0] == 'cmp' or vb[0] == 'cmp':
                na = norm(A, va) if va[0] == 'cmp' else va; nb = norm(B, vb) if vb[0] == 'cmp' else vb
                if na == nb or va == vb:
                    return va if va == vb else na
                va, vb = na, nb
            if va[0] == 'u':
                va = vb if False else va
            if va[0] == 'u' or vb[0] == 'u':
                o = vb if va[0] == 'u' else va
                isp = o[0] in ('p', 'f')
                self._lose(N, o)
                s = T.get(('q', ('E', jr), ('ju', slot, isp)), 0 if isp else -INF, INF)
                usedj[0] = True
                return ptrav(s) if isp else symav(s)
            if isconst(va) and isconst(vb) and cval(va) == 0 and cval(vb) == 0:
                return ('z', va[1] if va[0] == 'z' else vb[1])
            ispa = va[0] in ('p', 'f'); ispb = vb[0] in ('p', 'f')
            if ispa or ispb:
                for x, y, X, Y in ((va, vb, A, B), (vb, va, B, A)):
                    if x[0] == 'p' and x[1][0] == 'H' and x[2] == 0 and y == ZERO and slot[0] == 'm' and slot[1][0] == 'H' \
                            and X.heap.get(x[1], ('',))[0] == 'owned' and Y.heap.get(x[1], ('none',))[0] == 'none':
                        N.maybe = N.maybe | {x[1]}
                        return x
                if va[0] == 'p' and vb[0] == 'p' and va[1] == vb[1]:
                    oa = va[2] if isinstance(va[2], tuple) else ('c', va[2]) if va[2] is not None else None
                    ob = vb[2] if isinstance(vb[2], tuple) else ('c', vb[2]) if vb[2] is not None else None
                    if oa is None or ob is None:
                        return ('p', va[1], None)
                    o = jav(('o', slot), oa, ob)
                    return ('p', va[1], o[1] if o[0] == 'c' else o)
                self._lose2(N, A, va); self._lose2(N, B, vb)
                return jsym(slot, va, vb, True, A, B)
            if va[0] == 'cmp' or vb[0] == 'cmp' or va[0] == 'any' or vb[0] == 'any':
                return jsym(slot, va, vb, False, A, B)
            return jsym(slot, va, vb, False, A, B)
        N.heap = dict(A.heap)
        N.maybe = A.maybe | B.maybe
        if A.heap != B.heap:
            for h, s in B.heap.items():
                a = A.heap.get(h)
                if a is None or a[0] == 'none':
                    N.heap[h] = s if h[0] == 'H' or s[0] == 'captured' or self._isnull(A, h) else ('any', s[1])
                elif s[0] == 'none':
                    pass
                elif a[0] != s[0]:
                    N.heap[h] = s if h[0] == 'D' and self._isnull(A, h) else a if h[0] == 'D' and self._isnull(B, h) else ('any', s[1])
            for h in A.heap:
                if h not in B.heap and h[0] == 'D' and A.heap[h][0] != 'captured' and not self._isnull(B, h):
                    N.heap[h] = ('any', A.heap[h][1])
        for i, va in A.env.items():
            vb = B.env.get(i)
            if vb is None:
                continue
            N.env[i] = jav(('e', i), va, vb)
        bases = set(A.mem) | set(B.mem)
        for bb in sorted(bases, key=repr):
            ca = A.mem.get(bb); cb = B.mem.get(bb)
            if ca is cb:
                N.mem[bb] = ca
                continue
            if bb[0] in ('A', 'H') and (ca is None or cb is None):
                N.mem[bb] = ca if ca is not None else cb
                continue
            out = {}
            ca = ca or {}; cb = cb or {}
            sa = ca.get('*'); sb = cb.get('*')
            if sa is not None or sb is not None:
                if sa == sb:
                    out['*'] = sa
                elif sa is not None and sb is not None and bb[0] != 'D':
                    out['*'] = (('any',), None)
                elif bb[0] != 'D':
                    out['*'] = (('any',), None)
            for o in list(ca) + [x for x in cb if x not in ca]:
                if o == '*':
                    continue
                xa = ca.get(o); xb = cb.get(o)
                if xa is not None and xb is not None:
                    if xa == xb:
                        out[o] = xa
                        continue
                    na = norm(A, xa[0]); nb = norm(B, xb[0])
                    if na == nb and isconst(na):
                        out[o] = (na, xa[1], xa[2])
                    elif xa[1] == xb[1] or isconst(xa[0]) or isconst(xb[0]):
                        out[o] = (jav(('m', bb, o), xa[0], xb[0]), xa[1] if not isconst(xa[0]) else xb[1], xa[2])
                    else:
                        self._lose2(N, A, xa[0]); self._lose2(N, B, xb[0])
                    continue
                x = xa or xb
                other = B if xa is not None else A
                if not isinstance(o, int):
                    self._lose2(N, A if xa is not None else B, x[0])
                    continue
                v = self.load(other, bb, o, x[1], x[2], mat=False)
                va, vb = (norm(A, x[0]), norm(B, v)) if xa is not None else (norm(A, v), norm(B, x[0]))
                if x[0] == v:
                    out[o] = x
                elif va == vb:
                    out[o] = x
                else:
                    out[o] = (jav(('m', bb, o), va, vb), x[1], x[2])
            N.mem[bb] = out
        for s, ba, bb in carried:
            # fields known to be null behind both pointers stay null behind the joined one
            ca = A.mem.get(ba) or {}; cb = B.mem.get(bb) or {}
            if ('D', s) in N.mem and (ba != ('D', s) and bb != ('D', s)):
                continue
            nc = None
            for o, c in (ca if len(ca) <= len(cb) else cb).items():
                if not isinstance(o, int) or c[1] != 'ptr':
                    continue
                x = ca.get(o); y = cb.get(o)
                if x is None or y is None:
                    continue
                if norm(A, x[0]) == ZERO and norm(B, y[0]) == ZERO:
                    nc = nc or dict(N.mem.get(('D', s)) or {})
                    nc[o] = (ZERO, 'ptr', x[2])
            if nc:
                N.mem[('D', s)] = nc
        if A.facts is B.facts:
            N.facts = dict(A.facts)
        else:
            NF = N.facts = dict(A.facts)
            BF = B.facts
            diff = [(s, f) for s, f in NF.items() if BF.get(s) is not f]
            for s, f in diff:
                g = BF.get(s)
                if g is None:
                    d = T.dflt[s]
                    g = (d[0], d[1], ())
                if f == g:
                    continue
                lo = f[0] if f[0] < g[0] else g[0]; hi = f[1] if f[1] > g[1] else g[1]
                if widen:
                    d = T.dflt[s]
                    if lo < f[0]: lo = 0 if lo >= 0 else d[0]
                    if hi > f[1]: hi = d[1]
                ne = ()
                if f[2] or g[2]:
                    ne = tuple(x for x in f[2] if x in g[2] or x < g[0] or x > g[1])
                    ne += tuple(x for x in g[2] if x not in ne and (x < f[0] or x > f[1]))
                if (lo, hi) != T.dflt[s] or ne:
                    NF[s] = (lo, hi, ne)
                else:
                    del NF[s]
        for s, f in newf.items():
            if (f[0], f[1]) != T.dflt[s] or f[2]:
                N.facts[s] = f
            else:
                N.facts.pop(s, None)
        if A.rel and B.rel:
            for t, c in A.rel.items():
                d = B.rel.get(t)
                if d is not None:
                    if widen and d > c:
                        continue
                    N.rel[t] = max(c, d)
        if self.reljoin:
            self.joinrel(N, A, B, pairs, newf, jr, widen)
        if self.genjoin:
            self.joinmore(N, A, B, pairs, newf, widen)
        N.ep = A.ep
        if A.ep != B.ep:
            ep = {}
            for t in set(A.ep) | set(B.ep):
                x, y = A.ep.get(t), B.ep.get(t)
                if x == y:
                    ep[t] = x
                else:
                    ep[t] = T.get(('r', fr.id, ('jep', b)))
            N.ep = ep
        N.gen = A.gen | B.gen
        if usedj[0]:
            N.gen = N.gen | {jr}
        if not changed:
            changed = (N.env != A.env or N.facts != A.facts or N.heap != A.heap or N.mem != A.mem or N.rel != A.rel
                       or N.ep != A.ep or N.maybe != A.maybe)
        return N, changed

    reljoin = False

    def joinrel(self, N, A, B, pairs, newf, jr, widen):
        """differences between a joined value and a value both states know, bounded in both"""
        def ub(S, a, r, sign):
            l = linadd(a, symav(r), -1) if sign > 0 else linadd(symav(r), a, -1)
            if l is None:
                return None
            if isconst(l):
                return cval(l)
            c = S.rel.get(l[1])
            h = interval(S, l)[1]
            if c is not None:
                h = min(h, c + l[2])
            return h if h < (1 << 40) else None
        for (va, vb), s in pairs.items():
            if va[0] not in ('l', 'c', 'z') or vb[0] not in ('l', 'c', 'z'):
                continue
            cands = set()
            for S, v in ((A, va), (B, vb)):
                if v[0] != 'l' or len(v[1]) != 1 or v[1][0][1] != 1:
                    continue
                x = v[1][0][0]
                cands.add(x)
                for t in S.rel:
                    if len(t) == 2:
                        if t[0][0] == x: cands.add(t[1][0])
                        elif t[1][0] == x: cands.add(t[0][0])
            for r in cands:
                if r == s or r in newf or T.desc[r][0] not in ('arg', 'in', 'm') or T.desc[r][1] in ('old', 'older'):
                    continue
                for sign in (1, -1):
                    ca = ub(A, va, r, sign); cb = ub(B, vb, r, sign)
                    if ca is None or cb is None:
                        continue
                    c = max(ca, cb)
                    t = linadd(symav(s), symav(r), -1) if sign > 0 else linadd(symav(r), symav(s), -1)
                    if t is None or t[0] != 'l':
                        continue
                    if widen and va == symav(s) and c > ca:
                        continue
                    o = N.rel.get(t[1])
                    if o is None or c < o:
                        N.rel[t[1]] = c

    genjoin = False
    joinstrip = None

    def joinmore(self, N, A, B, pairs, newf, widen):
        """relations of any number of values that hold of the joined value in both states"""
        def ub(S, e):
            if self.joinstrip:
                e = self.joinstrip(e)
            if isconst(e):
                return cval(e)
            h = interval(S, e)[1]
            c = S.rel.get(e[1])
            if c is not None:
                h = min(h, c + e[2])
            mine = dict(e[1])
            for t, c in S.rel.items():
                if any(mine.get(x, 0) * n > 0 for x, n in t):
                    h = min(h, interval(S, linadd(e, ('l', t, -c), -1))[1])
            return h
        if self.joinstrip:  # the same value in both states, converted between integer widths
            ps = [(self.joinstrip(va), self.joinstrip(vb), s) for (va, vb), s in pairs.items() if va[0] in 'lc' and vb[0] in 'lc']
            for i, (a1, b1, s1) in enumerate(ps):
                for a2, b2, s2 in ps[:i]:
                    if a1 == a2 and b1 == b2 and s1 != s2:
                        e = linadd(symav(s1), symav(s2), -1)
                        N.rel[e[1]] = 0
                        N.rel[linadd(ZERO, e, -1)[1]] = 0
        for (va, vb), s in pairs.items():
            if va[0] not in 'lc' or vb[0] not in 'lc':
                continue
            done = set()
            for S, v in ((A, va), (B, vb)):
                if v[0] != 'l':
                    continue
                mine = {x for x, c in v[1]}
                cand = [] if s in mine else [(1, linadd(ZERO, v, -1)), (-1, v)]
                for t in S.rel:
                    if any(x in mine for x, c in t):
                        cand += [(1, linadd(('l', t, 0), v, -1)), (-1, linadd(('l', t, 0), v))]
                for k, (sign, R) in enumerate(cand):
                    if True:
                        if R is None or R[0] != 'l' or any(x in mine and (k > 1 or s in mine) or x == s or x in newf for x, c in R[1]):
                            continue
                        R = ('l', R[1], 0)
                        if (sign, R) in done:
                            continue
                        done.add((sign, R))
                        ea = linadd(R, va, sign); eb = linadd(R, vb, sign); e = linadd(R, symav(s), sign)
                        if ea is None or eb is None or e is None or e[0] != 'l':
                            continue
                        ca, cb = ub(A, ea), ub(B, eb)
                        c = max(ca, cb)
                        if c >= 1 << 40 or widen and va == symav(s) and c > ca:
                            continue
                        o = N.rel.get(e[1])
                        if o is None or c - e[2] < o:
                            N.rel[e[1]] = c - e[2]

    def jointmp(self, A, B):
        """suspended variables of the callers: values that differ become unknown"""
        t = dict(A.tmp or {})
        x, y = (A.tmp or {}).get('held'), (B.tmp or {}).get('held')
        if x and y and x != y and len(x) == len(y):
            out = []
            for a, b in zip(x, y):
                if a == b:
                    out.append(a)
                else:
                    isp = a[0] in ('p', 'f') or b[0] in ('p', 'f')
                    u = T.get(('unk', 'h', isp), 0 if isp else -INF, INF)
                    out.append(ptrav(u) if isp else symav(u))
            t['held'] = tuple(out)
        return t or None

    def _isnull(self, S, h):
        f = S.facts.get(h[1])
        return bool(f and f[0] == 0 and f[1] == 0)

    def _lose(self, N, a):
        if a[0] == 'p' and a[1][0] == 'H' and N.heap.get(a[1], ('',))[0] == 'owned':
            N.heap[a[1]] = ('escaped', N.heap[a[1]][1])

    def _lose2(self, N, S, a):
        if a[0] == 'p' and a[1][0] == 'H':
            s = S.heap.get(a[1])
            if s and s[0] == 'owned':
                N.heap[a[1]] = ('escaped', s[1])

    # ---- executing a block
    def exec_block(self, fr, b, st, work, exits):
        fn = fr.fn
        states = [st]
        blk = fn.blocks[b]
        inloop = fr.inl or b in fn.inloop
        fr.curloop = inloop
        for ins in blk:
            op = ins['op']
            if op == 'phi':
                continue
            if op in ('br', 'switch', 'ret', 'unreachable'):
                for s in states:
                    self.term(fr, b, ins, s, work, exits)
                return
            nxt = []
            for s in states:
                self.steps += 1
                if op == 'call':
                    if inloop:
                        self.begin(fr, ins, s)
                    for (rv, s2) in self.call(fr, ins, s):
                        if rv is not None and ins['t'] != 'void':
                            s2.env[ins['i']] = rv
                        nxt.append(s2)
                else:
                    if inloop and op in ('load', 'store', 'alloca', 'extractvalue', 'freeze', 'va_arg'):
                        self.begin(fr, ins, s)
                    if self.simple(fr, ins, s):
                        nxt.append(s)
            states = nxt
            if not states:
                return

    def deref(self, fr, ins, st, p, write=False):
        """check an access through AV p; returns (base, off) or None when the path ends here"""
        p = norm(st, p)
        if p[0] == 'z':
            self.report('nullderef', fr, ins, st, 'result of %s is %s without the failure having been checked' %
                        (p[1], 'written through' if write else 'dereferenced'), origin=p[1])
            return None
        if p[0] == 'c':
            if 0 <= p[1] < 4096:
                self.report('constnull', fr, ins, st, 'null pointer is dereferenced')
            return None
        if p[0] == 'p':
            b = p[1]
            h = st.heap.get(b)
            if b in st.maybe:
                st.maybe = st.maybe - {b}
            if h and h[0] == 'freed':
                self.report('uaf', fr, ins, st, 'released block (%s) is %s' % (h[1], 'written' if write else 'read'))
            if b[0] == 'D':
                f = fact(st, b[1])
                if f[0] <= 0 and 0 not in f[2]:
                    setfact(st, b[1], max(f[0], 1), f[1], f[2])
                if T.desc[b[1]][0] == 'arg' and fr.parent is None:
                    self.derefs.add(T.desc[b[1]][1])
            for h in self.hooks:
                h.access(self, fr, ins, st, p, write)
            return p[1], p[2]
        if p[0] == 'l':
            if len(p[1]) == 1 and p[1][0][1] == 1:
                return ('D', p[1][0][0]), p[2]
        if p[0] == 'u':
            self.report('undefptr', fr, ins, st, 'uninitialised pointer is dereferenced')
            return None
        return ('D', T.get(('unk', 0), 0, INF)), None

    def simple(self, fr, ins, st):
        op = ins['op']; i = ins['i']
        ev = self.ev
        if op == 'load':
            p = ev(st, fr, ins['a'][0])
            r = self.deref(fr, ins, st, p)
            if r is None:
                return False
            v = self.load(st, r[0], r[1], ins['t'], self.tag(fr.fn, ins), fr, i)
            if v[0] == 'any':
                v = self.fresh(st, fr, i, 'any', ins['t'])
            st.env[i] = v
            return True
        if op == 'store':
            v = ev(st, fr, ins['a'][0]); p = ev(st, fr, ins['a'][1])
            r = self.deref(fr, ins, st, p, True)
            if r is None:
                return False
            for h in self.hooks:
                h.store(self, fr, ins, st, r[0], r[1], v)
            self.store(st, fr, ins, r[0], r[1], v, ins['vt'], self.tag(fr.fn, ins))
            return True
        if op == 'getelementptr':
            p = ev(st, fr, ins['a'][0])
            off = ('c', ins['co'])
            for (o, sc) in ins['vars']:
                x = ev(st, fr, o)
                l = lin(x)
                if l is None:
                    off = None; break
                off = linadd(off, mklin({s: c * sc for s, c in l[0].items()}, l[1] * sc))
            st.env[i] = self.padd(st, p, off)
            return True
        if op == 'icmp':
            a = ev(st, fr, ins['a'][0]); b = ev(st, fr, ins['a'][1])
            r = decide(st, ins['pred'], a, b)
            if r is not None:
                st.env[i] = ('c', 1 if r else 0)
            elif a[0] == 'u' or b[0] == 'u':
                st.env[i] = self.fresh(st, fr, i, 'u', None, 0, 1)
            else:
                st.env[i] = ('cmp', ins['pred'], a, b)
            return True
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            a = ev(st, fr, ins['a'][0])
            st.env[i] = self.cast(st, fr, ins, a)
            return True
        if op in ('add', 'sub', 'mul', 'shl', 'and', 'or', 'xor', 'sdiv', 'udiv', 'srem', 'urem', 'lshr', 'ashr'):
            a = ev(st, fr, ins['a'][0]); b = ev(st, fr, ins['a'][1])
            st.env[i] = self.arith(st, fr, ins, op, a, b)
            return True
        if op == 'alloca':
            base = ('A', fr.id, i)
            st.env[i] = ('p', base, 0)
            st.mem[base] = {'*': (UNDEF, None)}
            return True
        if op == 'select':
            c = ev(st, fr, ins['a'][0]); a = ev(st, fr, ins['a'][1]); b = ev(st, fr, ins['a'][2])
            r = decide(st, 'ne', c, ZERO) if c[0] != 'u' else None
            if r is None and c[0] == 'cmp' and a[0] == 'c' and b[0] == 'c' and (a[1], b[1]) in ((1, 0), (0, 1)):
                st.env[i] = c if a[1] else ('cmp', NEG[c[1]], c[2], c[3])
            else:
                st.env[i] = a if r is True else b if r is False else self.fresh(st, fr, i, 'sel', ins['t'])
            return True
        st.env[i] = self.fresh(st, fr, i, op, ins['t'])
        return True

    def padd(self, st, p, off):
        if off is not None and off[0] == 'c':
            k = off[1]
            if p[0] == 'p':
                if p[2] is None:
                    return p
                if isinstance(p[2], int):
                    return ('p', p[1], p[2] + k)
                o = linadd(p[2], off)
                return ('p', p[1], o[1] if o[0] == 'c' else o)
            if p[0] == 'z':
                return p
            if p[0] == 'c':
                return ('c', p[1] + k)
            if p[0] == 'l':
                return linadd(p, off)
            return p
        if p[0] == 'p':
            if off is None or p[2] is None:
                return ('p', p[1], None)
            b = p[2] if isinstance(p[2], tuple) else ('c', p[2])
            o = linadd(b, off)
            o = norm(st, o)
            return ('p', p[1], o[1] if o[0] == 'c' else o)
        if p[0] == 'z':
            return p
        if p[0] == 'c':
            return ('c', p[1])
        if p[0] == 'l' and off is not None:
            return linadd(p, off)
        return p

    def cast(self, st, fr, ins, a):
        op = ins['op']
        if a[0] in ('p', 'f', 'z') or op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            if op == 'inttoptr' and a[0] == 'l' and len(a[1]) == 1 and a[1][0][1] == 1 and a[2] == 0:
                return ptrav(a[1][0][0])
            return a
        if a[0] == 'u':
            return a
        w1 = width(ins['st']); w2 = width(ins['t'])
        if op == 'zext':
            if a[0] == 'c':
                return ('c', a[1] if a[1] >= 0 else a[1] + (1 << w1)) if w1 > 1 else ('c', a[1] & 1)
            if a[0] == 'cmp':
                return a
            lo, hi = interval(st, a)
            if lo < 0 and st.rel and a[0] == 'l':
                c = st.rel.get(tuple((s, -k) for s, k in a[1]))
                if c is not None: lo = max(lo, -c + a[2])
            if lo >= 0:
                return a
            if hi < 0 and self.exact and lin(a) is not None:
                return linadd(a, ('c', 1 << w1))
            s = T.get(('op', 'zx%d' % w1, a), 0, (1 << w1) - 1)
            return symav(s)
        if op == 'sext':
            if a[0] == 'c' or a[0] == 'cmp':
                return a
            lo, hi = interval(st, a)
            if hi > (1 << (w1 - 1)) - 1 and hi < INF // 2:
                # may be an unsigned quantity reinterpreted as signed
                s = T.get(('op', 'sx%d' % w1, a), *trange(w1))
                return symav(s)
            return a
        if op == 'trunc':
            if a[0] == 'c':
                v = a[1] & ((1 << w2) - 1)
                if w2 > 1 and v >> (w2 - 1):
                    v -= 1 << w2
                return ('c', v)
            if a[0] == 'cmp':
                return a
            lo, hi = interval(st, a)
            l2, h2 = trange(w2)
            if w2 > 1 and ((lo >= l2 and hi <= h2) or (lo >= 0 and hi < (1 << w2))):
                return a
            if a[0] == 'l' and len(a[1]) == 1 and a[1][0][1] == 1 and a[2] == 0:
                d = T.desc[a[1][0][0]]
                if d[0] == 'op' and d[1] == 'zx%d' % w2:
                    return d[2]
            if w2 == 1:
                return ('cmp', 'ne', symav(T.get(('op', 'and', a, ('c', 1)), 0, 1)), ZERO)
            s = T.get(('op', 'tr%d' % w2, a), l2, h2)
            return symav(s)
        return a

    def arith(self, st, fr, ins, op, a, b):
        w = width(ins['t'])
        if op == 'xor' and ins['t'] == 'i1':
            if isconst(b) and cval(b) in (1, -1):
                if a[0] == 'cmp':
                    return ('cmp', NEG[a[1]], a[2], a[3])
                if a[0] == 'c':
                    return ('c', 1 - (a[1] & 1))
                return ('cmp', 'eq', a, ZERO)
        if op == 'sub' and a[0] == 'p' and b[0] == 'p' and a[1] == b[1] and a[2] is not None and b[2] is not None:
            oa = a[2] if isinstance(a[2], tuple) else ('c', a[2]); ob = b[2] if isinstance(b[2], tuple) else ('c', b[2])
            return norm(st, linadd(oa, ob, -1))
        ints = lin(a) is not None and lin(b) is not None
        if ints:
            if op in ('add', 'sub'):
                r = linadd(a, b, 1 if op == 'add' else -1)
                if r[0] == 'c':
                    return wrapc(r[1], w)
                if self.policy.get('strict'):
                    return self.bounded(st, fr, ins, r, w)
                return r
            ca, cb = isconst(a), isconst(b)
            if ca and cb:
                x, y = cval(a), cval(b)
                return constop(op, x, y, w)
            if op == 'mul' and (ca or cb):
                k = cval(a) if ca else cval(b); o = b if ca else a
                t, c = lin(o)
                return mklin({s: v * k for s, v in t.items()}, c * k)
            if op == 'shl' and cb and 0 <= cval(b) < 63:
                t, c = lin(a); k = 1 << cval(b)
                return mklin({s: v * k for s, v in t.items()}, c * k)
            lo, hi = trange(w)
            if op == 'and':
                for x, y in ((a, b), (b, a)):
                    if isconst(y) and cval(y) >= 0:
                        lo, hi = 0, cval(y)
                        # or-of-constant tracking: and of a value with known bits
                        kb = self.knownbits(st, x)
                        m = cval(y)
                        if (kb[0] | kb[1]) & m == m:
                            return ('c', kb[1] & m)
            elif op in ('urem', 'srem') and cb and cval(b) > 0:
                la, _ = interval(st, a)
                lo, hi = (0 if la >= 0 or op == 'urem' else -(cval(b) - 1)), cval(b) - 1
            elif op in ('urem', 'srem') and not cb and interval(st, b)[0] > 0 and decide(st, 'sge', a, ZERO):
                # remainder by a positive variable: exact where the quotient is known, else within [0, b)
                if decide(st, 'slt', a, b):
                    return a
                r = linadd(a, b, -1)
                if decide(st, 'sge', r, ZERO) and decide(st, 'slt', r, b):
                    return norm(st, r)
                hi = interval(st, b)[1] - 1
                s = T.get(('op', op, a, b), 0, min(hi, interval(st, a)[1]))
                d = linadd(symav(s), b, -1)
                st.rel[d[1]] = min(st.rel.get(d[1], INF), -1 - d[2])
                return symav(s)
            elif op in ('udiv', 'sdiv', 'lshr', 'ashr'):
                if cb and cval(b) > 0 and a[0] == 'l':
                    k = cval(b) if op[1:] == 'div' else 1 << cval(b)
                    if all(c % k == 0 for x, c in a[1]) and a[2] % k == 0 and (op[0] in 'sa' or interval(st, a)[0] >= 0):
                        return mklin({x: c // k for x, c in a[1]}, a[2] // k)
                la, ha = interval(st, a)
                if la >= 0:
                    lo, hi = 0, min(ha, hi)
            elif op == 'or':
                la, ha = interval(st, a); lb, hb = interval(st, b)
                if la >= 0 and lb >= 0:
                    lo = max(la, lb)
            s = T.get(('op', op, a, b), lo, hi)
            return symav(s)
        if a[0] in ('cmp', 'l', 'c') and b[0] in ('cmp', 'l', 'c'):
            if ins['t'] == 'i1':
                da = decide(st, 'ne', a, ZERO); db = decide(st, 'ne', b, ZERO)
                if op == 'and':
                    if da is False or db is False: return ZERO
                    if da: return b
                    if db: return a
                if op == 'or':
                    if da or db: return ('c', 1)
                    if da is False: return b
                    if db is False: return a
            if op == 'and' and isconst(b) and a[0] == 'cmp':
                return a if cval(b) & 1 else ZERO
            s = T.get(('op', op, a, b), *((0, 1) if ins['t'] == 'i1' else trange(w)))
            return symav(s)
        return self.fresh(st, fr, ins['i'], 'ar', ins['t'])

    def knownbits(self, st, a):
        """(known zero mask, known one mask) for or/and-built values"""
        a = norm(st, a)
        if isconst(a):
            v = cval(a) & ((1 << 64) - 1)
            return (~v) & ((1 << 64) - 1), v
        if a[0] == 'l' and len(a[1]) == 1 and a[1][0][1] == 1 and a[2] == 0:
            d = T.desc[a[1][0][0]]
            if d[0] == 'op' and d[1] in ('or', 'and', 'xor'):
                z1, o1 = self.knownbits(st, d[2]); z2, o2 = self.knownbits(st, d[3])
                if d[1] == 'or':
                    return z1 & z2, o1 | o2
                if d[1] == 'and':
                    return z1 | z2, o1 & o2
                k = (z1 | o1) & (z2 | o2)
                v = o1 ^ o2
                return k & ~v, k & v
            f = st.facts.get(a[1][0][0])
        return 0, 0

    def bounded(self, st, fr, ins, r, w):
        lo, hi = interval(st, r)
        l, h = trange(w)
        if st.rel and r[0] == 'l':
            c = st.rel.get(r[1])
            if c is not None: hi = min(hi, c + r[2])
            c = st.rel.get(tuple((s, -k) for s, k in r[1]))
            if c is not None: lo = max(lo, -c + r[2])
        if lo >= l and hi <= h:
            return r
        if lo >= 0 and hi < (1 << w) and not ins.get('nsw'):
            return r
        return symav(T.get(('op', 'wrap%d' % w, r), l, h))

    # ---- terminators
    def term(self, fr, b, ins, st, work, exits):
        op = ins['op']
        if op == 'br':
            if len(ins['to']) == 1:
                self.enter_block(fr, ins['to'][0], st, b, work)
                return
            c = self.ev(st, fr, ins['a'][0])
            if c[0] == 'u':
                self.report('undefbr', fr, ins, st, 'branch on an uninitialised value')
                c = self.fresh(st, fr, ins['i'], 'ub', None, 0, 1)
            t, f = ins['to']
            s1 = st.copy()
            if assume(s1, c, True):
                self.branchnote(fr, ins, s1, c, True)
                self.enter_block(fr, t, s1, b, work)
            if assume(st, c, False):
                self.branchnote(fr, ins, st, c, False)
                self.enter_block(fr, f, st, b, work)
        elif op == 'switch':
            c = self.ev(st, fr, ins['a'][0])
            c = norm(st, c)
            if isconst(c):
                v = cval(c)
                for (k, t) in ins['cases']:
                    if k == v:
                        self.enter_block(fr, t, st, b, work); return
                self.enter_block(fr, ins['to'][0], st, b, work)
                return
            bytgt = {}
            for (k, t) in ins['cases']:
                bytgt.setdefault(t, []).append(k)
            for t, ks in bytgt.items():
                ks = [k for k in ks if decide(st, 'eq', c, ('c', k)) is not False]
                if not ks:
                    continue
                s1 = st.copy()
                ok = True
                if c[0] == 'l':
                    if len(ks) == 1:
                        ok = assume_cmp(s1, 'eq', c, ('c', ks[0]))
                    else:
                        ok = assume_cmp(s1, 'sge', c, ('c', min(ks))) and assume_cmp(s1, 'sle', c, ('c', max(ks)))
                if ok:
                    self.enter_block(fr, t, s1, b, work)
            ok = True
            for (k, t) in ins['cases']:
                if c[0] == 'l' and not assume_cmp(st, 'ne', c, ('c', k)):
                    ok = False; break
            if ok:
                self.enter_block(fr, ins['to'][0], st, b, work)
        elif op == 'ret':
            rv = self.ev(st, fr, ins['a'][0]) if ins.get('a') else ('v0',)
            exits.append((rv, st, ins))

    def branchnote(self, fr, ins, st, c, truth):
        st.tr = ('%s %s %s' % (fr.fn.name, fr.fn.loc(ins), 'true' if truth else 'false'), st.tr)

    # ---- calls
    def call(self, fr, ins, st):
        name = ins.get('fn')
        args = [self.ev(st, fr, a) for a in ins.get('a', ())]
        if name is None:
            c = self.ev(st, fr, ins['callee'])
            if c[0] == 'f':
                name = c[1]
            else:
                if c[0] in ('z', 'c'):
                    self.report('constnull' if c[0] == 'c' else 'nullderef', fr, ins, st, 'null function pointer is called', origin=c[1])
                    return []
                if c[0] == 'p' and c[1][0] == 'D':
                    f = fact(st, c[1][1]); setfact(st, c[1][1], max(1, f[0]), f[1], f[2])
                for h in self.hooks:
                    r = h.call(self, fr, ins, st, None, args)
                    if r is not None:
                        return r
                return self.indirect(fr, ins, st, args)
        for h in self.hooks:
            r = h.call(self, fr, ins, st, name, args)
            if r is not None:
                return r
        fn = self.prog.defined.get(name)
        if fn is None:
            return libc.call(self, fr, ins, st, name, args)
        if self.inline_all and fr.depth < self.maxinline:
            return self.inline(fr, ins, st, fn, args)
        return self.apply(fr, ins, st, fn, args)

    def inline(self, fr, ins, st, fn, args):
        held = list(st.env.values())
        old = st.tmp
        t = dict(st.tmp) if st.tmp else {}
        t['held'] = tuple(held) + (t.get('held') or ())
        st.tmp = t
        envk = list(st.env)
        st2 = st
        st2.env = {}
        ex = self.run(fn, args, st2, fr.depth + 1, fr, ins)
        # regroup exits
        groups = {}
        fid = frameid((fr.id, ins['i'], fn.name))
        sub = Frame(); sub.id = fid; sub.fn = fn; sub.args = args; sub.parent = fr; sub.slots = {}; sub.depth = fr.depth + 1
        out = []
        for (rv, s, ri) in ex:
            s.env = {-1: rv}
            self.prune_inline(sub, s, rv)
            k = self.pkey(sub, None, s)
            g = groups.get(k)
            J = T.get(('r', fid, ('jb', ('x', fn.name))))
            if J in s.gen and (g is None or J not in g.gen):
                age(s, [J]); self._age_extra(s, J)
            if g is None:
                groups[k] = s
            else:
                n, ch = self.join(sub, ('x', fn.name), g, s, False)
                groups[k] = n
        for s in groups.values():
            rv = s.env.get(-1, UNDEF)
            # the caller's variables, renamed like everything else by what happened inside the callee
            s.env = dict(zip(envk, s.tmp['held']))
            h2 = s.tmp['held'][len(envk):]
            s.tmp = dict(old, held=h2) if old else None
            out.append((rv if ins['t'] != 'void' else None, s))
        return out

    def prune_inline(self, sub, s, rv):
        fid = sub.id
        for bb in [x for x in s.mem if x[0] == 'A' and x[1] == fid]:
            pass
        s.gen = s.gen
        self.prune(sub, None, s, [rv])

    def indirect(self, fr, ins, st, args):
        for a in args:
            self.havoc_arg(st, fr, ins, a)
        pol = self.policy.get('callback', True)
        if ins['t'] == 'i32' and pol:
            s1 = st.copy()
            bad = self.fresh(st, fr, ins['i'], 'cbneg', None, -(1 << 31), -1)
            cls = self.policy['failclass'](self.cbclass(fr.fn, ins))
            if cls:
                st.mon = st.mon | {('F', cls)}
            self.note(st, fr, ins, 'callback fails')
            ok = self.fresh(s1, fr, ins['i'], 'cbok', None, 0, (1 << 31) - 1)
            return [(ok, s1), (bad, st)]
        return [(self.fresh(st, fr, ins['i'], 'cb', ins['t']) if ins['t'] != 'void' else None, st)]

    def cbclass(self, fn, ins):
        """what kind of application function an indirect call runs"""
        c = ins['callee']
        d = fn.defs.get(c[1]) if c[0] == 'v' else None
        if d and d['op'] == 'load' and d['a'][0][0] == 'g':
            return '<hook %s>' % d['a'][0][1]
        if len(ins['a']) == 4:
            return '<observer callback>'
        return '<callback>'

    def havoc_arg(self, st, fr, ins, a):
        """memory directly behind a pointer handed to unknown code: contents become unknown"""
        if a[0] == 'p' and a[1][0] in ('A', 'H'):
            cells = st.mem.get(a[1])
            if cells:
                for o, c in cells.items():
                    if o != '*' and c[0][0] == 'p' and c[0][1][0] == 'H':
                        pass
                nc = {}
                for o, c in cells.items():
                    if o == '*':
                        continue
                    if c[1] == 'ptr':
                        nc[o] = (self.fresh(st, fr, ins['i'], ('hv', a[1], o), 'ptr'), 'ptr', c[2])
                        self._lose(st, c[0])
                    else:
                        nc[o] = (self.fresh(st, fr, ins['i'], ('hv', a[1], o), c[1]), c[1], c[2])
                nc['*'] = (('any',), None)
                st.mem[a[1]] = nc

    # ---- summaries
    def opaque(self, name):
        """generated automata and functions whose exploration was cut: any result, any effect on what they may write"""
        fn = self.prog.defined[name]
        outs = []
        rets = [UNDEF] if fn.ret == 'void' else [ZERO, ('c', 1)] if fn.ret == 'i32' and self.policy['errclass'](name) == 'nonzero' else None
        if rets is None:
            s = T.get(('opq', name), *((0, INF) if fn.ret == 'ptr' else trange(width(fn.ret))))
            rets = [ptrav(s) if fn.ret == 'ptr' else symav(s)]
        for r in rets:
            o = Outcome(); o.st = St(); o.ret = r
            R = T.get(('r', -2, name))
            o.st.ep = {t: R for t in self.mod.get(name, ())}
            o.fails = self.is_failure(fn, r, o.st)
            outs.append(o)
        self.dereferenced[name] = frozenset()
        self.events.setdefault(name, {})
        return outs

    def summarise(self, name):
        fn = self.prog.defined[name]
        if name in self.policy.get('opaque', ()):
            return self.opaque(name)
        st = St()
        args = []
        for i, p in enumerate(fn.params):
            t = p['t']
            if t == 'ptr':
                s = T.get(('arg', i, 'ptr'), 0, INF)
                if p.get('byval') or p.get('sret'):
                    st.facts[s] = (1, INF, ())
                args.append(ptrav(s))
            else:
                w = width(t)
                lo, hi = trange(w)
                sg = fn.sig[i + 1] if len(fn.sig) > i + 1 else ''
                sg = self.prog.typedefs.get(sg, sg)
                if sg.startswith('unsigned') or sg in ('size_t', 'uint32_t', 'uint8_t', 'uint16_t', 'uint64_t'):
                    lo, hi = 0, (1 << w) - 1
                args.append(symav(T.get(('arg', i, t, lo >= 0), lo, hi)))
        self.cur = name
        self.events[name] = {}
        self.derefs = set()
        ex = self.run(fn, args, st)
        if self.capped.get(name):
            return self.opaque(name)
        fr = Frame(); fr.id = frameid((0, 0, name)); fr.fn = fn; fr.args = args; fr.parent = None; fr.slots = {}; fr.depth = 0
        fr.groups = {}
        groups = {}
        for (rv, s, ins) in ex:
            self.at_exit(fr, s, rv, ins)
            s.env = {-1: rv}
            k = self.okey(fr, s, rv)
            if k not in groups and len(groups) > 40:
                k = self.okey(fr, s, rv, 1)
            if k not in groups and len(groups) > 60:
                k = self.okey(fr, s, rv, 2)
            self.group(groups, k, fr, ('x', name), s)
        outs = []
        for k, s in [(k, x) for k, l in groups.items() for x in l]:
            o = Outcome()
            o.ret = norm(s, s.env.get(-1, UNDEF)); o.st = s
            s.env = {}
            o.fails = self.is_failure(fn, o.ret, s)
            self.slim(s, o.ret)
            outs.append(o)
        self.dereferenced[name] = frozenset(self.derefs)
        return outs

    def slim(self, s, rv):
        """an outcome keeps the new blocks a caller can name; what hangs below them is summarised"""
        s.rel = {}; s.tmp = None
        keep = set()
        if rv[0] == 'p' and rv[1][0] == 'H':
            keep.add(rv[1])
        for bb, cells in s.mem.items():
            if bb[0] != 'H':
                for o, c in cells.items():
                    if o != '*' and c[0][0] == 'p' and c[0][1][0] == 'H':
                        keep.add(c[0][1])
        keep = {b for b in keep if s.heap.get(b, ('',))[0] != 'freed'}
        for bb in list(s.mem):
            if bb[0] == 'H' and bb not in keep:
                del s.mem[bb]; continue
            cells = s.mem[bb]
            nc = None
            for o, c in cells.items():
                if o == '*':
                    if c[0] == 'copy' and c[1][0] == 'H' and c[1] not in keep:
                        nc = nc or dict(cells)
                        nc['*'] = (('any',), None)
                    continue
                a = c[0]
                if a[0] == 'p' and a[1][0] == 'H' and a[1] not in keep:
                    nc = nc or dict(cells)
                    sy = T.get(('nest', bb, o if isinstance(o, int) else 0), 0, INF)
                    if a[1] not in s.maybe:
                        s.facts[sy] = (1, INF, ())
                    nc[o] = (ptrav(sy), c[1], c[2])
            if nc is not None:
                s.mem[bb] = nc
        s.heap = {b: h for b, h in s.heap.items() if b[0] != 'H' or b in keep}
        s.maybe = frozenset(b for b in s.maybe if b in keep)
        s.facts = {k: v for k, v in s.facts.items() if T.depth[k] <= 4 or T.desc[k][0] != 'm'}

    def rclass(self, s, rv):
        rv = norm(s, rv)
        if rv[0] == 'c':
            return rv if -3 <= rv[1] <= 3 else ('c', 'neg' if rv[1] < 0 else 'pos')
        if rv[0] == 'z':
            return ('z',)
        if rv[0] == 'p':
            if rv[1][0] == 'H':
                return ('h', rv[1])
            if rv[1][0] == 'D':
                return ('d', nonnull(s, rv))
            return ('o', rv[1])
        if rv[0] == 'l':
            lo, hi = interval(s, rv)
            return ('i', lo >= 0, hi < 0)
        return (rv[0],)

    def okey(self, fr, s, rv, lvl=0):
        rc = self.rclass(s, rv)
        if lvl >= 1 and rc[0] == 'h':
            rc = ('h',)
        held = self.rootheld(s)
        hp = tuple(sorted(((b, v[0]) for b, v in s.heap.items() if b[0] == 'H' and (v[0] == 'owned' and b in held or v[0] == 'freed')), key=repr)) if lvl < 2 else ()
        failed = bool(s.mon)
        if lvl >= 1:
            return (rc, failed, hp, self.handed(s) if lvl < 2 else ())
        an = tuple(0 if isconst(norm(s, a)) else 1 for a in fr.args if a[0] == 'p')
        m = []
        for bb, cells in s.mem.items():
            if bb[0] == 'D' and T.desc[bb[1]][0] == 'arg':
                for o, c in cells.items():
                    if o == '*' or not isinstance(o, int):
                        continue
                    v = norm(s, c[0])
                    if v[0] == 'p' and v[1][0] == 'H':
                        m.append((bb, o, v[1]))
        return (rc, failed, hp, an, tuple(sorted(m, key=repr)))

    def is_failure(self, fn, rv, s):
        """does this outcome tell the caller that the operation failed?"""
        rv = norm(s, rv)
        kind = self.policy['errclass'](fn.name)
        if fn.ret == 'ptr':
            if isconst(rv) and cval(rv) == 0:
                return rv[0] == 'z' or any(m[0] == 'F' for m in s.mon)
            return False
        if fn.ret == 'void':
            return False
        if kind == 'none':
            return False
        lo, hi = interval(s, rv)
        if kind == 'nonzero':
            return lo > 0 or hi < 0
        return hi < 0

    def at_exit(self, fr, s, rv, ins):
        fn = fr.fn
        for h in self.hooks:
            h.exit(self, fr, s, rv, ins)
        # a failure that was noticed nowhere: the result reads as success
        if s.mon and not self.is_failure(fn, rv, s):
            self.report('swallow', fr, ins, s, 'returns %s although %s failed' % (self.retname(s, rv), ', '.join(sorted(m[1] for m in s.mon if m[0] == 'F'))), rclass=self.rclass(s, rv), ret=fn.ret)
        # leaks
        s.env = {}
        self.prune_exit(fr, s, rv, ins)
        rv = norm(s, rv)
        # released block returned
        if rv[0] == 'p' and s.heap.get(rv[1], ('',))[0] == 'freed':
            self.report('uaf', fr, ins, s, 'a released block is returned to the caller')
        # dangling references left in live structures
        for bb, cells in s.mem.items():
            if bb[0] not in ('D', 'G') and not (bb[0] == 'H' and s.heap.get(bb, ('',))[0] in ('escaped', 'owned')):
                continue
            if s.heap.get(bb, ('',))[0] == 'freed':
                continue
            if bb[0] == 'D' and self._owner_freed(s, bb):
                continue
            for o, c in cells.items():
                if o == '*':
                    continue
                a = norm(s, c[0])
                if a[0] == 'p' and s.heap.get(a[1], ('',))[0] == 'freed':
                    self.report('dangling', fr, ins, s, 'field %s still refers to a block released on this path' % (self.cellname(bb, o, c[2]),),
                                internal=fn.internal, field=c[2],
                                own=bb[0] == 'D' and a[1][0] == 'D' and self._nameable(a[1][1]) and T.deps[bb[1]] == T.deps[a[1][1]])

    def retname(self, s, rv):
        rv = norm(s, rv)
        if isconst(rv):
            return str(cval(rv))
        if rv[0] == 'p':
            return 'a pointer'
        if rv[0] == 'l':
            lo, hi = interval(s, rv)
            return 'a value >= 0' if lo >= 0 else 'an unknown value'
        return 'normally'

    def _owner_freed(self, s, bb):
        n = 0
        while bb[0] == 'D' and n < 8:
            if s.heap.get(bb, ('',))[0] == 'freed':
                return True
            d = T.desc[bb[1]]
            if d[0] in ('m', 'k') :
                bb = d[1] if d[0] == 'm' else d[2]
            else:
                return False
            n += 1
        return s.heap.get(bb, ('',))[0] == 'freed'

    def fieldname(self, tag):
        if tag and tag[0] == 'g':
            return tag[1]
        if tag and tag[0] != 't':
            dt = self.prog.ditypes.get(tag[0])
            if dt:
                for m in dt['m']:
                    if m['o'] == tag[1]:
                        return '%s.%s' % (tag[0], m['n'])
            return '%s+%s' % (tag[0], tag[1])
        return 'memory'

    def cellname(self, bb, o, tag):
        return self.fieldname(tag)

    def prune_exit(self, fr, s, rv, ins):
        # local variables die here
        for bb in [x for x in s.mem if x[0] == 'A' and x[1] == fr.id]:
            del s.mem[bb]
        st = s
        seen = set(); work = []

        def add(a):
            if a[0] == 'p' and a[1] not in seen:
                seen.add(a[1]); work.append(a[1])
        add(rv)
        for a in fr.args:
            add(a)
        for bb in st.mem:
            if (bb[0] == 'G' or bb[0] == 'D' and self._nameable(bb[1])) and bb not in seen:
                seen.add(bb); work.append(bb)
        while work:
            bb = work.pop()
            for o, c in (st.mem.get(bb) or {}).items():
                if o == '*':
                    if c[0] == 'copy' and c[1] not in seen:
                        seen.add(c[1]); work.append(c[1])
                    continue
                if c[0][0] == 'p' and c[0][1] not in seen:
                    seen.add(c[0][1]); work.append(c[0][1])
        for bb in [x for x in st.heap if x[0] == 'H' and x not in seen]:
            if st.heap[bb][0] == 'owned':
                kind = st.heap[bb][1]
                self.report('leak:' + str(kind), fr, ins, st, 'block from %s is neither released, returned nor stored when %s returns' % (self.orig(bb), fr.fn.name),
                            origin=self.orig(bb))
            del st.heap[bb]
        for bb in [x for x in st.mem if x[0] in ('H', 'D') and x not in seen]:
            del st.mem[bb]

    # applying a summary at a call site
    def apply(self, fr, ins, st, fn, args):
        outs = self.summ.get(fn.name)
        if outs is None:
            return []
        # a missing block handed on: look inside the callee with this very argument
        special = False
        for i, a in enumerate(args):
            if a[0] == 'z' or (a[0] == 'p' and st.heap.get(a[1], ('',))[0] == 'freed'):
                special = True
                if a[0] == 'p' and i in self.dereferenced.get(fn.name, ()):
                    self.report('uaf', fr, ins, st, 'released block (%s) is passed to %s, which uses it' % (st.heap[a[1]][1], fn.name))
        if special and any(a[0] == 'z' for a in args) and fr.depth < 3 and fn.name not in self.policy.get('noinline', ()):
            f = fr; n = 0
            while f is not None:
                if f.fn is fn:
                    n += 1
                f = f.parent
            if n == 0:
                sv = self.collect
                r = self.inline(fr, ins, st.copy(), fn, args)
        res = []
        for o in outs:
            s = st.copy()
            r = self.instantiate(fr, ins, s, fn, args, o)
            if r is not None:
                res.append((r[0], s))
        # joining equivalent results keeps the number of states down
        if len(res) > 1:
            groups = {}
            for rv, s in res:
                s.env[-2] = rv if rv is not None else ZERO
                k = (self.pkey(fr, None, s), self.rclass(s, s.env[-2]))
                self.group(groups, k, fr, ('c', ins['i']), s)
            res = []
            for s in (x for l in groups.values() for x in l):
                rv = s.env.pop(-2)
                res.append((rv, s))
        return res

    def instantiate(self, fr, ins, st, fn, args, o):
        S = Subst(self, fr, ins, st, args, o)
        cs = o.st
        # preconditions
        for s, f in cs.facts.items():
            d = T.desc[s]
            if d[0] == 'arg' or (d[0] == 'm' and T.depth[s] <= 4) or d[0] == 'op':
                if not S.translatable(s):
                    continue
                v = S.sym(s)
                if v is None or v[0] in ('u', 'any'):
                    continue
                if f[0] == f[1]:
                    if not assume_cmp(st, 'eq', v, ('c', f[0])):
                        return None
                    continue
                df = T.dflt[s]
                if v[0] in ('p', 'f'):
                    if f[0] >= 1 or 0 in f[2]:
                        if not assume_cmp(st, 'ne', v, ZERO):
                            return None
                    continue
                if f[0] > df[0] and not assume_cmp(st, 'sge', v, ('c', f[0])):
                    return None
                if f[1] < df[1] and not assume_cmp(st, 'sle', v, ('c', f[1])):
                    return None
                for x in f[2]:
                    if not assume_cmp(st, 'ne', v, ('c', x)):
                        return None
        # evaluate everything against the state before the call
        rv = S.av(o.ret) if fn.ret != 'void' else None
        heap = []
        for b, h in cs.heap.items():
            b2 = S.base(b)
            if b2 is not None:
                heap.append((b, b2, h))
        writes = []
        for b, cells in cs.mem.items():
            if b[0] == 'D' and not S.translatable(b[1]):
                continue
            if b[0] == 'A':
                continue
            b2, o2 = S.baseoff(b)
            if b2 is None or b2[0] == 'null':
                continue
            for off, c in cells.items():
                if off == '*':
                    if b[0] == 'H':
                        if c[0] == 'copy':
                            x = S.base(c[1])
                            if x is not None:
                                writes.append((b2, '*', ('copy', x) + c[2:], None, None))
                        else:
                            writes.append((b2, '*', c, None, None))
                    elif c[0] != 'copy' and o2 == 0:
                        writes.append((b2, '*', c, None, None))
                    elif c[0] != 'copy' and o2 is not None and c[1] is not None and isconst(c[0]):
                        writes.append((b2, '**', (o2, c[1], c[0]), None, None))
                    continue
                if c[0][0] == 'l' and len(c[0][1]) == 1 or c[0][0] == 'p':
                    # unchanged initial content
                    s0 = c[0][1][0][0] if c[0][0] == 'l' else (c[0][1][1] if c[0][1][0] == 'D' else None)
                    if s0 is not None and (c[0][2] == 0):
                        d = T.desc[s0]
                        if d[0] == 'm' and d[1] == b and d[2] == off:
                            continue
                if isinstance(off, int):
                    of = S.addoff(o2, off)
                else:
                    of = S.addoff(o2, S.av(off))
                tg = c[2]
                if tg[0] == 't':
                    # written through a plain pointer: the field it points to in the caller
                    x = (st.mem.get(b2) or {}).get(of)
                    if x is not None and x[2][0] != 't':
                        tg = x[2]
                    elif off == 0 and b[0] == 'D' and T.desc[b[1]][0] == 'arg':
                        tg = self.argtag(fr.fn, ins, T.desc[b[1]][1]) or tg
                writes.append((b2, of, S.av(c[0]), c[1], tg))
        # what the callee may have changed beyond that
        mod = self.mod.get(fn.name, frozenset())
        self.kill(fr, ins, st, mod, args, S, cs)
        for (b2, of, v, ty, tag) in writes:
            if of == '*':
                st.mem[b2] = {'*': v}
            elif of == '**':
                # part of a larger object cleared: fields known there take that value
                lo, n, val = v
                cells = st.mem.get(b2)
                if cells and isinstance(lo, int):
                    st.mem[b2] = {o: (val, c[1], c[2]) if isinstance(o, int) and lo <= o < lo + n else c for o, c in cells.items()
                                  if not (isinstance(o, int) and lo <= o < lo + n) or c[2] in mod}
                elif cells:
                    # at a position that is not fixed: fields at a fixed distance from it
                    nc = {}
                    for x, c in cells.items():
                        if x != '*':
                            d = linadd(x if isinstance(x, tuple) else ('c', x), lo, -1)
                            if d is not None and d[0] == 'c':
                                if 0 <= d[1] < n:
                                    if c[2] in mod:
                                        nc[x] = (val, c[1], c[2])
                                    continue
                            elif c[2][0] == 't':
                                continue
                        nc[x] = c
                    st.mem[b2] = nc
        for (b2, of, v, ty, tag) in writes:
            if of in ('*', '**') or of is None:
                if of is None and v is not None and v[0] == 'p':
                    self.escape_av(st, v)
                continue
            if b2[0] == 'G' and self.prog.globals.get(b2[1], {}).get('const'):
                continue
            cells = st.mem.get(b2)
            nc = dict(cells) if cells else {}
            nc[of] = (v, ty, tag)
            st.mem[b2] = nc
        freed = []
        for (b, b2, h) in heap:
            if b[0] == 'H':
                if b2 in st.heap:
                    pass
                st.heap[b2] = ('owned', h[1]) if h[0] in ('owned', 'escaped') else h
                if b in cs.maybe:
                    st.maybe = st.maybe | {b2}
                self.origin[b2] = '%s (in %s, called at %s)' % (self.origin.get(b, '?').split(' (in ')[0], fn.name, fr.fn.loc(ins))
            elif h[0] == 'freed':
                freed.append((b2, h))
            elif h[0] == 'captured':
                self.escape(st, b2)
            elif h[0] == 'any' and b2[0] == 'H':
                st.heap[b2] = ('any', None)
        for (b2, h) in freed:
            self.dofree(fr, ins, st, b2, 'released by %s at %s' % (fn.name, fr.fn.loc(ins)), deep=True, via=fn.name)
        # ownership of blocks created by the callee
        for (b2, of, v, ty, tag) in writes:
            if v is not None and of not in ('*', '**') and v[0] == 'p' and v[1][0] == 'H':
                self.stored(st, b2, of if of is not None else None, v[1])
        for (b, b2, h) in heap:
            if b[0] == 'H' and h[0] == 'escaped':
                # reachable from the result or a location we know?  otherwise it is owned elsewhere
                # (the result itself, when the callee also stored it elsewhere, is owned there)
                if not self._held(st, rv, b2) or (rv and rv[0] == 'p' and rv[1] == b2):
                    self.escape(st, b2)
        if fn.ret != 'void' and rv is None:
            rv = self.fresh(st, fr, ins['i'], 'rv', ins['t'])
        if o.fails:
            cls = self.policy['failclass'](fn.name)
            if cls:
                st.mon = st.mon | {('F', cls)}
                self.note(st, fr, ins, '%s fails' % fn.name)
            if fn.ret == 'ptr' and rv is not None and isconst(rv) and cval(rv) == 0:
                rv = ('z', fn.name + '()')
        elif rv is not None and rv[0] == 'z':
            rv = ZERO
        st.gen = st.gen | {self.root(fr, ins['i'])}
        for h in self.hooks:
            h.after(self, fr, ins, st, fn, args, rv, o)
        return (rv,)

    def _held(self, st, rv, h):
        seen = set(); work = []
        if rv is not None and rv[0] == 'p':
            work.append(rv[1])
        for b in st.mem:
            if b[0] == 'A':
                work.append(b)
            elif b[0] == 'H' and st.heap.get(b, ('',))[0] == 'owned' and b != h:
                pass
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            if b == h:
                return True
            for o, c in (st.mem.get(b) or {}).items():
                if o != '*' and c[0][0] == 'p':
                    work.append(c[0][1])
        for b in st.mem:
            if b[0] == 'H' and b not in seen and b != h and st.heap.get(b, ('',))[0] == 'owned':
                for o, c in st.mem[b].items():
                    if o != '*' and c[0][0] == 'p' and c[0][1] == h:
                        return True
        return False

    def kill(self, fr, ins, st, mod, args, S, cs):
        if not mod:
            return
        R = self.root(fr, ins['i'])
        direct = {}
        for i, a in enumerate(args):
            if a[0] == 'p':
                direct[a[1]] = True
        # reachable local objects
        seen = set(); work = [a[1] for a in args if a[0] == 'p']
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            for o, c in (st.mem.get(b) or {}).items():
                if o == '*':
                    if c[0] == 'copy': work.append(c[1])
                elif c[0][0] == 'p':
                    work.append(c[0][1])
        did = False
        for b in list(st.mem):
            if b[0] == 'A' and b not in seen:
                continue
            if b[0] == 'H' and b not in seen and st.heap.get(b, ('',))[0] == 'owned':
                continue
            if b[0] == 'G' and self.prog.globals.get(b[1], {}).get('const'):
                continue
            cells = st.mem[b]
            nc = None
            for o, c in cells.items():
                if o == '*':
                    continue
                t = c[2]
                if t not in mod:
                    continue
                if b in direct and t not in cs.ep and isinstance(o, int):
                    continue          # the outcome lists direct effects precisely
                if nc is None:
                    nc = dict(cells)
                lo = hi = None
                ty = c[1]
                if ty == 'ptr':
                    self._lose(st, c[0])
                    x = c[0]
                    if b[0] in ('D', 'G') and x[0] == 'p' and x[1][0] == 'H' and st.heap.get(x[1], ('',))[0] == 'escaped':
                        # kept in an object of somebody else that is no longer followed: its owner answers for it
                        st.heap[x[1]] = ('any', None)
                del nc[o]
                if b[0] in ('A', 'H'):
                    dl = (0, INF) if ty == 'ptr' else self.dflt.get(t) or trange(width(ty))
                    s = T.get(('k', ('E', R), b, o, t, ty), *dl)
                    nc[o] = (ptrav(s) if ty == 'ptr' else symav(s), ty, t)
                    did = True
            if nc is not None:
                st.mem[b] = nc
        ep = dict(st.ep)
        for t in mod:
            ep[t] = R
        st.ep = ep
        st.gen = st.gen | {R}

    def dofree(self, fr, ins, st, base, why, deep=False, via=None):
        h = st.heap.get(base)
        st.maybe = st.maybe - {base}
        if h and h[0] == 'none':
            return
        if h and h[0] == 'freed':
            self.report('doublefree', fr, ins, st, 'block already %s is released again' % h[1])
            return
        if base[0] == 'A' or base[0] == 'G':
            self.report('badfree', fr, ins, st, 'release of a block that is not from the heap')
            return
        st.heap[base] = ('freed', why)
        if deep:
            seen = {base}; work = [base]
            while work:
                b = work.pop()
                for o, c in (st.mem.get(b) or {}).items():
                    if o != '*' and c[0][0] == 'p' and c[0][1][0] == 'H' and c[0][1] not in seen:
                        x = c[0][1]; seen.add(x)
                        if st.heap.get(x, ('',))[0] == 'owned':
                            st.heap[x] = ('any', None); work.append(x)
        if base[0] == 'H' or not deep:
            st.mem.pop(base, None)


class Subst:
    """callee symbols and blocks expressed in the caller's state"""

    def __init__(self, I, fr, ins, st, args, o):
        self.I = I; self.fr = fr; self.ins = ins; self.st = st; self.args = args; self.o = o
        self.memo = {}; self.hmap = {}; self.busy = set()

    def translatable(self, s):
        d = T.desc[s]
        if d[0] == 'arg':
            return True
        if d[0] == 'm':
            b = d[1]
            if b[0] == 'D':
                return self.translatable(b[1])
            return b[0] == 'G'
        if d[0] == 'op':
            q = set(); self.I._opsyms(d, q)
            return all(self.translatable(x) for x in q)
        return False

    def sym(self, s):
        v = self.memo.get(s)
        if v is None:
            v = self._sym(s)
            self.memo[s] = v
        return v

    def _sym(self, s):
        d = T.desc[s]
        if d[0] == 'arg':
            return self.args[d[1]] if d[1] < len(self.args) else UNDEF
        if d[0] == 'm':
            b, o = self.baseoff(d[1])
            if b is not None:
                off = d[2]
                if not isinstance(off, int):
                    off = self.av(off) if off is not None else None
                    if off is not None and off[0] not in ('c', 'l'):
                        off = None
                    elif off is not None and off[0] == 'c':
                        off = off[1]
                of = self.addoff(o, off)
                if b[0] == 'null':
                    return UNDEF
                if of is not None:
                    v = self.I.load(self.st, b, of, d[4], d[3])
                    if v[0] != 'any':
                        return v
        if d[0] == 'op':
            if d[1][:2] in ('zx', 'sx', 'tr') and len(d) == 3:
                a = self.av(d[2])
                opn = {'zx': 'zext', 'sx': 'sext', 'tr': 'trunc'}[d[1][:2]]
                if a is not None:
                    w = d[1][2:]
                    return self.I.cast(self.st, self.fr, {'op': opn, 'st': 'i' + w if opn != 'trunc' else 'i64', 't': 'i64' if opn != 'trunc' else 'i' + w, 'i': self.ins['i']}, a)
            elif len(d) == 4 and d[1] in ('and', 'or', 'xor', 'urem', 'srem', 'sdiv', 'udiv', 'lshr', 'ashr'):
                a = self.av(d[2]); b = self.av(d[3])
                if a is not None and b is not None:
                    return self.I.arith(self.st, self.fr, {'t': 'i64', 'i': self.ins['i']}, d[1], a, b)
            elif d[1] == 'strlen':
                a = self.av(d[2])
                if a is not None:
                    import libc
                    return libc.strlen_av(self.I, self.st, self.fr, self.ins, a)
        dl = T.dflt[s]
        R = self.I.root(self.fr, self.ins['i'])
        f = self.o.st.facts.get(s)
        n = T.get(('q', ('E', R), ('sub', s)), dl[0], dl[1])
        if f is not None:
            self.st.facts[n] = f
        return symav(n) if not self._isptr(s) else ptrav(n)

    def _isptr(self, s):
        d = T.desc[s]
        if d[0] in ('m', 'k', 'mu', 'many', 'mpun', 'mx'):
            return d[-1] == 'ptr'
        return T.dflt[s][1] >= INF and T.dflt[s][0] == 0

    def base(self, b):
        r = self.baseoff(b)
        return r[0] if r[0] is not None and r[0][0] != 'null' else None

    def baseoff(self, b):
        if b[0] == 'D':
            v = self.sym(b[1])
            if v[0] == 'p':
                return v[1], v[2]
            if v[0] == 'l' and len(v[1]) == 1 and v[1][0][1] == 1:
                return ('D', v[1][0][0]), v[2]
            if isconst(v):
                return ('null',), 0
            return None, 0
        if b[0] == 'H':
            n = self.hmap.get(b)
            if n is None:
                R = self.I.root(self.fr, self.ins['i'])
                order = sorted((x for x in self.o.st.heap if x[0] == 'H'), key=repr)
                n = ('H', ('E', R), order.index(b) if b in order else 99)
                self.hmap[b] = n
            return n, 0
        if b[0] == 'A':
            return None, 0
        return b, 0

    def addoff(self, o, k):
        if o is None or k is None:
            return None
        if isinstance(o, int) and isinstance(k, int):
            return o + k
        a = o if isinstance(o, tuple) else ('c', o)
        b = k if isinstance(k, tuple) else ('c', k)
        r = linadd(a, b)
        if r is None:
            return None
        return r[1] if r[0] == 'c' else r

    def av(self, a):
        k = a[0]
        if k == 'l':
            r = ('c', a[2])
            for (s, c) in a[1]:
                v = self.sym(s)
                l = lin(v)
                if l is None:
                    if len(a[1]) == 1 and c == 1 and a[2] == 0:
                        return v
                    R = self.I.root(self.fr, self.ins['i'])
                    return symav(T.get(('q', ('E', R), ('sav', a)), -INF, INF))
                r = linadd(r, mklin({x: y * c for x, y in l[0].items()}, l[1] * c))
            return r
        if k == 'p':
            if a[1][0] == 'D':
                v = self.sym(a[1][1])
                if a[2] == 0 and isinstance(a[2], int):
                    if v[0] == 'l' and len(v[1]) == 1 and v[1][0][1] == 1 and v[2] == 0:
                        return ptrav(v[1][0][0])
                    return v
                off = a[2] if not isinstance(a[2], tuple) else self.av(a[2])
                if isinstance(off, int):
                    off = ('c', off)
                if off is not None and lin(off) is None:
                    off = None
                return self.I.padd(self.st, v, off)
            b, o = self.baseoff(a[1])
            if b is None:
                R = self.I.root(self.fr, self.ins['i'])
                return ptrav(T.get(('q', ('E', R), ('sap', a)), 1, INF))
            off = a[2] if not isinstance(a[2], tuple) else self.av(a[2])
            if isinstance(off, tuple) and off[0] == 'c':
                off = off[1]
            return ('p', b, self.addoff(o, off))
        if k == 'cmp':
            x = self.av(a[2]); y = self.av(a[3])
            r = decide(self.st, a[1], x, y)
            if r is not None:
                return ('c', 1 if r else 0)
            return ('cmp', a[1], x, y)
        return a


def wrapc(v, w):
    m = (1 << w) - 1
    v &= m
    if w > 1 and v >> (w - 1):
        v -= 1 << w
    return ('c', v)


def constop(op, x, y, w):
    m = (1 << w) - 1
    ux, uy = x & m, y & m
    try:
        if op == 'mul': r = x * y
        elif op == 'shl': r = ux << uy if uy < w else 0
        elif op == 'and': r = ux & uy
        elif op == 'or': r = ux | uy
        elif op == 'xor': r = ux ^ uy
        elif op == 'lshr': r = ux >> uy
        elif op == 'ashr': r = x >> uy
        elif op == 'udiv': r = ux // uy
        elif op == 'urem': r = ux % uy
        elif op == 'sdiv': r = int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1)
        elif op == 'srem':
            r = abs(x) % abs(y); r = -r if x < 0 else r
        else: r = 0
    except ZeroDivisionError:
        r = 0
    return wrapc(r, w)
