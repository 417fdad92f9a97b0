"""C13: editing and building text never writes outside the buffer.

Linear abstract interpretation (engine/lin.py).  The line and kill buffers, the history, the dynamic strings and every
array of fixed size have a size term; each store, copy and formatted print into a block of known size must stay inside
it for every value of the symbols.  The public functions that touch the line are entered with the invariant (the line
buffer has ch_bufsize bytes and is terminated inside, so has the kill buffer, history lines are shorter than the line
buffer) and must leave with it; static functions are walked in the context of their callers; redrawing is a contract
(position and length inside the text) that is verified on its own."""
from common import *
from scen import member
from lin import *

LINEK, KILLK = 'LINE', 'KILL'
HD = ('HANDLE',); HV = ('HV',)
NINS = 90


class C13(Lin):
    ANON = ('O', 'H', 'LINE', 'KILL', 'CB')
    def __init__(self, p):
        Lin.__init__(self, p)
        M = lambda n: member(p, 'cligen_handle', n)[0]
        self.BUF, self.BSZ, self.KB, self.KSZ = M('ch_buf'), M('ch_bufsize'), M('ch_killbuf'), M('ch_killbufsize')
        self.HB = M('ch_hist_buf'); self.HP = M('ch_hist_pre')
        self.sess = {self.BUF: 'line', self.BSZ: 'line', self.KB: 'kill', self.KSZ: 'kill', self.HB: 'hist', self.HP: 'hist'}
        c = lambda n: member(p, 'cbuf', n)[0]
        self.CB = (c('cb_buffer'), c('cb_buflen'), c('cb_strlen'))
        self.isz = {n: sum(len(b) for b in f.blocks) for n, f in p.defined.items()}
        self.R = {n for n, f in p.defined.items() if self.touches(f)}
        if len(self.R) < 15 or 'gl_getline' not in p.defined:
            raise Broken('the functions that edit the line are not found')
        self.GLV = {'gl_pos', 'gl_cnt'}
        for g in self.GLV:
            if g not in p.globals:
                raise Broken('the position of the cursor is not found')
        # redrawing: the functions that move the position, by the name that the editing functions use
        self.fix = {n for n in p.defined if n.startswith('gl_fixup')}
        if not self.fix:
            raise Broken('no redrawing function')
        rel = set(self.R); ch = True
        self.tooBig = lambda n: (not p.defined[n].internal and self.isz[n] > NINS) or n in p.addrtaken or n in self.fix or self.scc.get(n)
        while ch:
            ch = False
            for n in list(rel):
                if self.tooBig(n):
                    continue
                new = {f.name for f, i in p.callers.get(n, ())} - rel
                if new:
                    rel |= new; ch = True
        self.rel = rel
        deep = set(rel); ch = True
        while ch:
            ch = False
            for n in list(deep):
                new = {f.name for f, i in p.callers.get(n, ())} - deep
                if new:
                    deep |= new; ch = True
        self.deep = deep
        self.roots = sorted(n for n in rel if (not p.defined[n].internal or n in p.addrtaken) and n not in self.fix)
        self.seen = set(); self.writes = set(); self.applied = set(); self.viol = {}
        self.nonneg = None; self.last = None; self.root = None
        self.fmt = {}; self.good = {}
        # functions after which the buffers may be others
        st = {n for n, f in p.defined.items() for b in f.blocks for ins in b if ins['op'] == 'getelementptr'
              and any(t[0] == 'cligen_handle' and t[1] in (self.BUF, self.KB) for t in ins['path'] or ())
              and any(x['op'] == 'store' and x['a'][1] == ['v', ins['i']] for bb in f.blocks for x in bb)}
        ch = True
        while ch:
            new = {n for n in p.defined if n not in st and (p.calls[n] & st if isinstance(p.calls[n], (set, frozenset)) else set(p.calls[n]) & st)}
            new |= {n for n, f in p.defined.items() if n not in st and any(x['op'] == 'call' and x['callee'][0] != 'f' for bb in f.blocks for x in bb)}
            st |= new; ch = bool(new)
        self.moves = st
        self.statics()

    def touches(self, f):
        for b in f.blocks:
            for ins in b:
                if ins['op'] == 'getelementptr' and any(t[0] == 'cligen_handle' and t[1] in self.sess for t in ins['path'] or ()):
                    return True
                for o in ins.get('a', ()):
                    if o[0] == 'g' and o[1] in ('gl_pos', 'gl_cnt'):
                        return True
        return False

    def statics(self):
        """static arrays and counters of the line editor"""
        p = self.p
        used = {}
        for n in sorted(self.deep):
            for b in p.defined[n].blocks:
                for ins in b:
                    for o in ins.get('a', ()):
                        if o[0] == 'g':
                            used.setdefault(o[1], set()).add(n)
        self.last = {g for g in used if not p.globals[g]['const'] and p.globals[g]['size'] > 1 and p.globals[g]['ty'].endswith('x i8]')}
        self.nonneg = {g for g in used if not p.globals[g]['const'] and p.globals[g]['ty'] == 'i32' and p.globals[g]['internal']
                       and (p.globals[g]['init'].get('zero') or (p.globals[g]['init'].get('ints') or [-1])[0] >= 0)}
        # all that store to it must be among what is walked
        for n, f in p.defined.items():
            if n in self.deep or n in self.fix:
                continue
            for b in f.blocks:
                for ins in b:
                    if ins['op'] == 'store' and ins['a'][1][0] == 'g':
                        self.nonneg.discard(ins['a'][1][1]); self.last.discard(ins['a'][1][1])
                    elif ins['op'] in ('call', 'getelementptr'):
                        for o in ins.get('a', ()):
                            if o[0] == 'g':
                                self.last.discard(o[1]); self.nonneg.discard(o[1])
        self.dropped = False

    # ---- blocks of known size
    def gsize(self, name):
        g = self.p.globals.get(name)
        if g is None or g['decl'] or not g['size']:
            return None
        s = (g['init'] or {}).get('s')
        if g['const'] and s is not None and '\0' in s:
            return (g['size'], s.index('\0'))
        return (g['size'], g['size'] - 1 if name in self.last else None)

    def isconst(self, b):
        g = self.p.globals.get(b[1])
        return bool(g and g['const'])

    def allocsize(self, ins):
        return ins.get('sz')

    def report(self, kind, fn, ins, msg):
        k = (kind, fn.name, fn.loc(ins))
        if k not in self.viol:
            self.viol[k] = msg + (' (from %s)' % self.root if self.root and self.root != fn.name else '')

    def on_write(self, st, fn, ins, b, o, n, what):
        if b[0] == 'DEAD':
            self.report('stale', fn, ins, 'text is written through a pointer into a buffer that has been replaced by a larger one')
            return
        sz = st.size.get(b)
        if b[0] in ('HANDLE', 'HV') or sz is None:
            if b[0] in (LINEK, KILLK):
                self.report('size', fn, ins, 'the size of the buffer is not known here')
            return
        if isk(o) and isk(n) and isk(sz) and 0 <= o[1] and o[1] + n[1] <= sz[1]:
            if what != 'store' or n[1] == 1:
                self.seen.add((fn.name, ins['i']))
            return
        self.seen.add((fn.name, ins['i'])); self.writes.add((fn.name, ins['i']))
        name = {'LINE': 'the line buffer', 'KILL': 'the kill buffer', 'CB': 'the dynamic string', 'G': 'the array ' + str(b[1]) if b[0] == 'G' else '',
                'A': 'a local array', 'H': 'the allocated block'}.get(b[0], 'the block')
        if not st.holds(n):
            self.report('neg', fn, ins, '%s into %s: the number of bytes is not shown to be nonnegative' % (what, name))
        elif not st.holds(o):
            self.report('before', fn, ins, '%s into %s: the position is not shown to be after its start' % (what, name))
        elif not st.le(add(o, n), sz):
            if what in ('snprintf', 'vsnprintf') and b[0] == 'A' and isk(sz) and not isk(n):
                pass
            self.report('after', fn, ins, '%s into %s: the end of what is written is not shown to be inside it' % (what, name))

    def gep_hook(self, st, fn, ins, v):
        for t in ins['path'] or ():
            if t[0] == 'cligen_handle' and t[1] in self.sess and not ins.get('vars'):
                return ('P', HD, K(t[1]))
        return None

    def load_hook(self, st, fn, ins, b, o, ty):
        if b == HD and isk(o) and o[1] == self.HB:
            return ('P', HV, Z0)
        if b == HV and ty == 'ptr':
            n = self.obj()
            t = self.sym(lo=0, st=st)
            sz = st.mem.get((HD, self.BSZ))
            if sz is not None and sz[0] == 'L':
                st.need(plus(sub(sz, t), -1))
            st.zero[n] = frozenset([t]); st.slen[(n, Z0)] = t
            return ('P', n, Z0)
        if b[0] == 'G' and b[1] in self.nonneg and isk(o) and o[1] == 0 and (b, 0) not in st.mem:
            v = self.sym(lo=0, st=st)
            st.mem[(b, 0)] = v
            return v
        return None

    def store_hook(self, st, fn, ins, b, o, v):
        if b == HD and isk(o) and o[1] in (self.HB, self.HP):
            return True
        if b == HV:
            self.seen.add((fn.name, ins['i']))
            if v[0] == 'P':
                sz = st.mem.get((HD, self.BSZ))
                if v[1][0] == 'G':
                    self.gblock(st, v[1])
                ok = sz is not None and any(st.le(v[2], e) and st.lt(sub(e, v[2]), sz) for e in st.zero.get(v[1], ()))
                if not ok:
                    self.report('hist', fn, ins, 'a line not shown to be shorter than the line buffer is put in the history')
            return True
        if b[0] == 'G' and b[1] in self.nonneg and v[0] == 'L' and not st.holds(v):
            if b[1] not in self.GLV:
                self.nonneg.discard(b[1]); self.dropped = True
            elif fn.name not in self.fixall:
                self.report('pos', fn, ins, '%s is not shown to stay nonnegative' % b[1])
        return False

    # ---- the session
    def entry(self, strong):
        st = LS()
        for bo, so, kind in ((self.BUF, self.BSZ, LINEK), (self.KB, self.KSZ, KILLK)):
            b = (kind, next(self.ids)); n = self.sym(lo=1, st=st); t = self.sym(lo=0, st=st)
            st.need(plus(sub(n, t), -1))
            st.mem[(HD, bo)] = ('P', b, Z0); st.mem[(HD, so)] = n
            st.size[b] = n; st.zero[b] = frozenset([t]); st.nn = st.nn | {b}
            if kind == LINEK and strong:
                c = t; q = self.sym(lo=0, st=st); st.need(sub(c, q))
                st.mem[(('G', 'gl_cnt'), 0)] = c; st.mem[(('G', 'gl_pos'), 0)] = q
                st.slen[(b, Z0)] = c
        return st

    def line(self, st):
        v = st.mem.get((HD, self.BUF))
        return v if v is not None and v[0] == 'P' else None

    def weak(self, st, bo, so):
        """None, or what is wrong"""
        v = st.mem.get((HD, bo)); n = st.mem.get((HD, so))
        if v == Z0:
            return None
        if v is None or v[0] != 'P' or n is None or n[0] != 'L':
            return 'is not known'
        sz = st.size.get(v[1])
        if sz is None or not st.eq(v[2], Z0):
            return 'is not a block of known size'
        if not st.le(n, sz):
            return 'is smaller than the recorded size'
        if not st.holds(plus(n, -1)):
            return 'may be empty'
        if not any(st.holds(e) and st.lt(e, n) for e in st.zero.get(v[1], ())):
            return 'is not terminated inside'
        return None

    def strongbad(self, st, pre=False):
        v = self.line(st)
        c = st.mem.get((('G', 'gl_cnt'), 0)); q = st.mem.get((('G', 'gl_pos'), 0))
        if v is None or c is None:
            return 'the length of the text is not known'
        n = st.slen.get((v[1], Z0))
        if n is None or not st.eq(n, c):
            return 'the recorded length is not the length of the text'
        if pre:
            return None
        if q is None or not st.holds(q) or not st.le(q, c):
            return 'the position is outside the text'
        return None

    def setline(self, st, keep=False):
        """the text is now some other terminated text; the buffer may have grown"""
        v = self.line(st); n = st.mem.get((HD, self.BSZ))
        b = (LINEK, next(self.ids))
        m = self.sym(lo=1, st=st); t = self.sym(lo=0, st=st)
        if n is not None:
            st.need(sub(m, n))
        st.need(plus(sub(m, t), -1))
        if v is not None:
            self.gone(st, v[1])
        st.mem[(HD, self.BUF)] = ('P', b, Z0); st.mem[(HD, self.BSZ)] = m
        st.size[b] = m; st.zero[b] = frozenset([t]); st.nn = st.nn | {b}

    def sameline(self, st):
        """other text in the same buffer"""
        v = self.line(st)
        if v is None:
            return
        n = st.mem.get((HD, self.BSZ)); t = self.sym(lo=0, st=st)
        st.need(plus(sub(n, t), -1))
        self.wrote(st, v[1], Z0, n)
        for k in [k for k in st.slen if k[0] == v[1]]:
            del st.slen[k]
        st.zero[v[1]] = frozenset([t])

    def contract(self, st, fn, ins, name, args, chain):
        f = self.p.defined.get(name)
        if name in self.fix and fn.name not in self.fixall:
            return self.redraw(st, fn, ins, args)
        if name in self.good and not self.weak(st, self.BUF, self.BSZ) and not self.weak(st, self.KB, self.KSZ) and not self.strongbad(st):
            return self.keeps(st, fn, ins, name, args)
        if name is None and ins['callee'][0] != 'f':
            return self.hook(st, fn, ins, args)
        if name == 'realloc' and args[0][0] == 'P' and args[0][1][0] in (LINEK, KILLK, 'CB'):
            n = self.lin(st, args[1]); o = args[0][1]
            s = st.copy()
            b = (o[0], next(self.ids))
            keep = frozenset(e for e in st.zero.get(o, ()) if st.lt(e, n))
            sl = st.slen.get((o, Z0))
            st.size[b] = n; st.nn = st.nn | {b}
            if keep:
                st.zero[b] = keep
                if sl is not None and sl in keep:
                    st.slen[(b, Z0)] = sl
            self.gone(st, o)
            return [(('P', b, Z0), st), (Z0, s)]
        if name == 'strlen' and args[0][0] == 'P' and args[0][1][0] in (LINEK, KILLK, 'CB'):
            b, o = args[0][1], args[0][2]
            self.seen.add((fn.name, ins['i']))
            if not any(st.le(o, e) for e in st.zero.get(b, ())) and not any(k[0] == b for k in st.slen):
                self.report('unterminated', fn, ins, 'the text is measured where it is not shown to be terminated inside the buffer')
        if f is not None and name in self.deep and not (self.walk(f, st, args, ins) and not self.scc.get(name) and len(chain) < self.MAXD):
            # a function that keeps the invariant on its own
            w = self.weak(st, self.BUF, self.BSZ)
            self.applied.add((fn.name, ins['i']))
            if self.session and w:
                self.report('call', fn, ins, 'the line buffer %s when %s is called' % (w, name))
            if self.reaches(name):
                self.setline(st)
                for g in self.GLV:
                    st.mem.pop((('G', g), 0), None)
            r = self.libc(st, fn, ins, name, args)
            return r if r is not None else self.opaque(st, fn, ins, name, args)
        return None

    def keeps(self, st, fn, ins, name, args):
        """a function shown to keep the invariant"""
        self.applied.add((fn.name, ins['i']))
        res = []
        for ret, strong in sorted(self.good[name], key=str):
            s = st.copy()
            self.fresh(s, name, strong)
            for a in args:
                if a[0] == 'P' and a[1][0] in ('A', 'O', 'H'):
                    self.opaque(s, fn, ins, name, [a])
            v = None
            if ins['t'] != 'void':
                v = K(ret) if ret is not None else ('P', self.obj(), Z0) if ins['t'] == 'ptr' else self.sym()
            res.append((v, s))
        return res

    def fresh(self, st, name, strong):
        moves = name is None or name in self.moves
        for b in [b for b in st.size if b[0] == 'G' and not self.isconst(b)]:
            st.size.pop(b); st.zero.pop(b, None)
            for k in [k for k in st.slen if k[0] == b]:
                del st.slen[k]
        for k in [k for k in st.mem if k[0][0] == 'G' and not self.isconst(k[0])]:
            del st.mem[k]
        if moves:
            self.setline(st)
            v = st.mem.get((HD, self.KB))
            if v is not None and v[0] == 'P':
                self.gone(st, v[1])
            b = (KILLK, next(self.ids)); n = self.sym(lo=1, st=st); t = self.sym(lo=0, st=st)
            st.need(plus(sub(n, t), -1))
            st.mem[(HD, self.KB)] = ('P', b, Z0); st.mem[(HD, self.KSZ)] = n
            st.size[b] = n; st.zero[b] = frozenset([t]); st.nn = st.nn | {b}
        else:
            self.sameline(st)
            v = st.mem.get((HD, self.KB))
            n = st.mem.get((HD, self.KSZ)); t = self.sym(lo=0, st=st)
            st.need(plus(sub(n, t), -1))
            self.wrote(st, v[1], Z0, n)
            for k in [k for k in st.slen if k[0] == v[1]]:
                del st.slen[k]
            st.zero[v[1]] = frozenset([t])
        if strong:
            b = self.line(st)[1]; c = next(iter(st.zero[b]))
            q = self.sym(lo=0, st=st); st.need(sub(c, q))
            st.mem[(('G', 'gl_cnt'), 0)] = c; st.mem[(('G', 'gl_pos'), 0)] = q
            st.slen[(b, Z0)] = c

    def reaches(self, name):
        return True

    def walk(self, f, st, args, ins):
        n = f.name
        if n in self.fix:
            return True
        if n in self.addr:
            return False
        if n in self.deep:
            return n in self.rel and not self.tooBig(n)
        if any(a[0] == 'P' and a[1][0] in ('A', 'H', LINEK, KILLK, 'CB') for a in args):
            return self.isz[n] <= (NINS if not f.internal else 2 * NINS) and self.leafy(n)
        return self.isz[n] <= 25 and not f.headers and ins['t'] != 'void' and self.leafy(n) and n != 'gl_putc'

    def leafy(self, n):
        """calls nothing but small functions and the C library"""
        return len([c for c in self.p.calls[n] if c in self.p.defined]) <= 3

    @property
    def addr(self):
        return self.p.addrtaken

    def redraw(self, st, fn, ins, args):
        self.applied.add((fn.name, ins['i']))
        ch, cur = self.lin(st, args[2]), self.lin(st, args[3])
        w = self.weak(st, self.BUF, self.BSZ)
        if w:
            self.report('draw', fn, ins, 'the line buffer %s when the line is drawn' % w)
            if self.line(st) is None:
                self.setline(st)
            else:
                self.sameline(st)
        v = self.line(st)
        if not (st.holds(ch) or st.lt(ch, K(-1))):
            s = self.strongbad(st, True)
            if s:
                self.report('move', fn, ins, 'the cursor is moved without a redraw and %s' % s)
        n = st.mem[(HD, self.BSZ)]
        z = st.zero[v[1]]
        c = st.slen.get((v[1], Z0))
        if c is None:
            c = self.sym(lo=0, st=st)
            for e in z:
                if st.holds(e):
                    st.need(sub(e, c))
        st.need(plus(sub(n, c), -1))
        q = self.sym(lo=0, st=st); st.need(sub(c, q))
        st.zero[v[1]] = frozenset([c]); st.slen[(v[1], Z0)] = c
        st.mem[(('G', 'gl_cnt'), 0)] = c; st.mem[(('G', 'gl_pos'), 0)] = q
        if st.holds(cur) and st.le(cur, c):
            st.mem[(('G', 'gl_pos'), 0)] = cur
        return [(None, st)]

    def hook(self, st, fn, ins, args):
        """an application hook: edits the text only if it is given the line or the position"""
        v = self.line(st)
        given = [a for a in args if a[0] == 'P' and v is not None and a[1] == v[1]]
        locs = [a for a in args if a[0] == 'P' and a[1][0] == 'A']
        r = self.sym()
        if self.session and (given or locs):
            self.applied.add((fn.name, ins['i']))
            w = self.weak(st, self.BUF, self.BSZ)
            if w:
                self.report('hook', fn, ins, 'the line buffer %s when a hook is called' % w)
            for a in locs:
                t = st.mem.get((a[1], a[2][1] if isk(a[2]) else 0)); c = st.slen.get((v[1], Z0))
                if t is None or t[0] != 'L' or c is None or not st.holds(t) or not st.le(t, c):
                    self.report('hookpos', fn, ins, 'a hook is given a position not shown to be inside the text')
            used = any(o == ['v', ins['i']] for b in fn.blocks for x in b for o in self.operands(x))
            res = []
            s = st.copy() if used and not isinstance(ins.get('t'), type(None)) else None
            self.setline(st)
            for a in locs:
                self.opaque(st, fn, ins, None, [a])
            res.append((r, st))
            if s is not None:
                # the result -1 says that nothing was changed
                for a in locs:
                    self.opaque(s, fn, ins, None, [a])
                st.need(r) if False else None
                res.append((K(-1), s))
            return res
        return [(r if ins['t'] != 'void' else None, st)] if ins['t'] != 'ptr' else [(('P', self.obj(), Z0), st)]

    def operands(self, x):
        yield from x.get('a', ())
        for o, b in x.get('inc', ()):
            yield o

    def fmtlen(self, st, a, nm):
        k = 2 if nm.startswith(('sn', 'vsn')) else 1
        f = a[k] if len(a) > k else None
        key = ('FMT', f[1:2] + f[2][1:] if f and f[0] == 'P' else None)
        c = st.mem.get((('ROOT', 'fmt'), key))
        if c is None or nm in ('snprintf', 'sprintf'):
            c = self.sym(lo=0, st=st)
            st.mem[(('ROOT', 'fmt'), key)] = c
        return c

    # ---- what is analysed
    def go(self, name, st, args, session=False):
        self.root = name; self.session = session
        f = self.p.defined[name]
        args = list(args) + [None] * (len(f.params) - len(args))
        for i, a in enumerate(args):
            if a is None:
                args[i] = ('P', self.obj(), Z0) if f.params[i]['t'] == 'ptr' else self.sym()
        try:
            return f, self.run(f, args, st, ())
        except Stop as e:
            self.stops.append(str(e))
            return f, []

    def fixstart(self):
        self.fixall = set(self.fix); ch = True
        while ch:
            # helpers used only for redrawing
            ch = False
            for n in list(self.fixall):
                for c in self.p.calls[n]:
                    if c in self.R and c not in self.fixall and self.isz[c] > 12 and {f.name for f, i in self.p.callers.get(c, ())} <= self.fixall:
                        self.fixall.add(c); ch = True


def editor(A):
    p = A.p
    A.fixstart()
    for rnd in range(6):
        A.dropped = False
        A.viol = {}; A.stops = []
        # redrawing keeps its contract
        for n in sorted(A.fix):
            f = p.defined[n]
            if any(c in A.fix for c in p.calls[n]) and False:
                continue
            k = len(f.params)
            if k < 4:
                continue
            for kind in ('move', 'reset', 'text'):
                st = A.entry(kind == 'move')
                ch = K(-1) if kind == 'move' else K(-2) if kind == 'reset' else A.sym(lo=0, st=st)
                f, outs = A.go(n, st, [None, None, ch, None], True)
                for v, s, ins in outs:
                    A.session = True
                    l = A.line(s)
                    w = A.weak(s, A.BUF, A.BSZ)
                    if w:
                        A.report('fix', f, ins, 'after redrawing the line buffer %s' % w)
                        continue
                    w = A.strongbad(s)
                    if w:
                        A.report('fix', f, ins, 'after redrawing (%s) %s' % (kind, w))
                statics_exit(A, f, outs)
        A.good = {}
        if rnd == 0:
            contracts(A)
            first = A.good
        A.good = first
        for n in A.roots:
            f = p.defined[n]
            tab = n in p.addrtaken and len(f.params) == 2 and 'int*' in [s for s in f.sig[1:]]
            st = A.entry(tab)
            args = []
            if tab:
                b = A.obj(); c = A.sym(lo=0, st=st); st.need(sub(st.mem[(('G', 'gl_cnt'), 0)], c))
                st.mem[(b, 0)] = c; st.nn = st.nn | {b}
                args = [None, ('P', b, Z0)]
                for g in A.GLV:
                    st.mem.pop((('G', g), 0))
            f, outs = A.go(n, st, args, True)
            for v, s, ins in outs:
                for bo, so, what in ((A.BUF, A.BSZ, 'line buffer'), (A.KB, A.KSZ, 'kill buffer')):
                    w = A.weak(s, bo, so)
                    if w:
                        A.report('exit', f, ins, 'on return the %s %s' % (what, w))
            statics_exit(A, f, outs)
        if not A.dropped:
            break


def contracts(A, only=None):
    """functions that keep the invariant of a session whatever their arguments, callees first"""
    p = A.p
    A.why = {}
    draws = set(A.fix); ch = True
    while ch:
        new = {n for n in p.defined if n not in draws and set(p.calls[n]) & draws}
        draws |= new; ch = bool(new)
    for c in p.order():
        for n in c:
            f = p.defined.get(n)
            if only and n not in only:
                continue
            if f is None or n not in A.R or n not in draws or n in A.fixall or n in p.addrtaken or A.scc.get(n):
                continue
            viol, A.viol, stops, A.stops, drop = A.viol, {}, A.stops, [], A.dropped
            import time; t = time.time(); t0 = A.steps
            f, outs = A.go(n, A.entry(True), [], True)
            print(n, time.time() - t, A.steps - t0)
            bad = list(A.viol.items())[:3] + A.stops
            res = set()
            for v, s, ins in outs:
                w = A.weak(s, A.BUF, A.BSZ) or A.weak(s, A.KB, A.KSZ)
                if w:
                    bad.append(w); break
                if s.mem.get((HD, A.BUF)) == Z0 or s.mem.get((HD, A.KB)) == Z0:
                    bad.append('no buffer'); break
                res.add((v[1] if v is not None and isk(v) else None, not A.strongbad(s)))
            statics_exit(A, f, outs)
            A.viol, A.stops = viol, stops
            if not bad:
                A.good[n] = res
            else:
                A.why[n] = bad


def statics_exit(A, f, outs):
    for v, s, ins in outs:
        for b, z in list(s.size.items()):
            if b[0] == 'G' and b[1] in A.last:
                zz = s.zero.get(b, ())
                if not any(s.eq(e, K(A.p.globals[b[1]]['size'] - 1)) for e in zz):
                    A.last.discard(b[1]); A.dropped = True


def run(tier):
    p = program()
    A = C13(p)
    editor(A)
    F = []
    if A.stops:
        raise Broken('; '.join(A.stops[:4]))
    for (kind, fn, loc), msg in sorted(A.viol.items(), key=str):
        F.append(finding('%s %s %s' % (fn, kind, loc.split(':')[-1]), '%s %s' % (loc, fn), msg, 'linear bounds of text buffers'))
    return {'findings': F, 'coverage': {'writes': len(A.seen), 'symbolic': len(A.writes), 'roots': A.roots, 'contracts': len(A.applied),
            'nonneg': sorted(A.nonneg), 'last': sorted(A.last), 'steps': A.steps}}
