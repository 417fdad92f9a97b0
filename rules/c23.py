"""C23: history positions always name a slot inside the history.

Inductive invariant of a handle: the history has N >= 2 slots in a block of N pointers and both stored positions are
between 0 and N-1.  Every function of the library that reads or writes the history members is analysed (with its private
helpers in context) from an arbitrary handle that satisfies it: every slot access must lie inside the block, and on every
way out the invariant must hold again (or, for closing functions, the history be gone).  Stepping is analysed by the
position stepped from, so that the position stepped to is known exactly and must be the neighbour with wrap at both ends.
A function that takes a position from its caller is analysed with a position inside the history, and every caller has to
pass one: positions kept in the line editor between calls must have been stored for the line being edited."""
from scen import *
import ir

FLD = ('ch_hist_size', 'ch_hist_buf', 'ch_hist_cur', 'ch_hist_last')
MAXN = 1 << 28


def div8(v):
    if v is None or lin(v) is None:
        return None
    t, c = lin(v)
    if any(x % 8 for x in t.values()):
        return None
    return mklin({s: x // 8 for s, x in t.items()}, c // 8)


class Slots(Hook):
    def __init__(self, offs, buf0, N):
        self.o = offs; self.buf0 = buf0; self.N = N
        self.size = {}; self.bad = {}; self.seen = set(); self.ok = set(); self.closed = set(); self.elems = 0

    def alloc(self, I, fr, ins, st, name, args, b):
        if name in ('malloc', 'calloc', 'realloc', 'reallocarray'):
            a = [norm(st, x) for x in args]
            if name in ('realloc', 'reallocarray'):
                a = a[1:]
            v = a[0]
            if len(a) > 1:
                k = [x for x in a if isconst(x)]; o = [x for x in a if not isconst(x)]
                if not k or len(o) > 1 or (o and lin(o[0]) is None):
                    v = None
                elif not o:
                    v = ('c', cval(k[0]) * cval(k[1]))
                else:
                    t, c = lin(o[0]); m = cval(k[0])
                    v = mklin({s: x * m for s, x in t.items()}, c * m)
            st.mon = frozenset(m for m in st.mon if not (m[0] == 'S' and m[1] == b)) | {('S', b, v)}

    def block(self, st, base):
        """number of slots"""
        if base == self.buf0:
            return self.N
        for m in st.mon:
            if m[0] == 'S' and m[1] == base:
                return div8(norm(st, m[2]) if m[2] is not None else None)
        return None

    def hist(self, st, base):
        """is this the block of the history (of the handle looked at)"""
        if base == self.buf0:
            return True
        return any(o == self.o['ch_hist_buf'] and c[0][0] == 'p' and c[0][1] == base
                   for b, cells in st.mem.items() for o, c in cells.items() if o != '*')

    keep = False

    def store(self, I, fr, ins, st, base, off, v):
        # ways that moved a position are not merged with those that did not
        if self.keep and base[0] == 'D' and off in (self.o['ch_hist_cur'], self.o['ch_hist_last']):
            st.mon = st.mon | {('moved', off)}

    def access(self, I, fr, ins, st, q, write):
        q = norm(st, q)
        if q[0] != 'p' or not self.hist(st, q[1]) or st.heap.get(q[1], ('',))[0] == 'freed':
            return
        key = (fr.fn.name, fr.fn.loc(ins)); self.seen.add(key)
        off = q[2]
        n = self.block(st, q[1])
        if off is not None and n is not None:
            x = div8(norm(st, off if isinstance(off, tuple) else ('c', off)))
            if x is not None and decide(st, 'sge', x, ZERO) and decide(st, 'slt', x, n):
                self.ok.add(key); return
        from interp import trail
        self.bad.setdefault(key, trail(st.tr))


def run(tier):
    p = program(); fs = []
    S = 'cligen_handle'
    off = {n: member(p, S, n)[0] for n in FLD}
    touch = {}
    for n, f in p.defined.items():
        for b in f.blocks:
            for i in b:
                if i['op'] in ('load', 'store'):
                    fld = ir.field(f, i['a'][0 if i['op'] == 'load' else 1])
                    if fld and fld[0] == S and fld[1] in off.values():
                        touch.setdefault(n, set()).add((i['op'], fld[1]))
    setters = {n for n, x in touch.items() if any(o == 'store' for o, k in x)}
    if len(touch) < 8 or len(setters) < 5:
        raise Broken('only %d functions with history positions, %d that change them' % (len(touch), len(setters)))
    rev = {}
    for n, cs in p.calls.items():
        for c in cs:
            rev.setdefault(c, set()).add(n)

    def public(n):
        f = p.defined[n]
        return not f.internal or n in p.addrtaken

    def roots(ns):
        """public functions that reach these through private ones only"""
        out = set(); seen = set(); todo = list(ns)
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            if public(n):
                out.add(n)
            else:
                todo.extend(rev.get(n, ()))
        return out
    R = roots(touch)
    # functions that begin or end a history, and their callers
    init = {n for n in R if n in touch and ('store', off['ch_hist_buf']) in touch[n]}
    R |= {m for n in init for m in rev.get(n, ())}
    # a position taken from the caller and stored as it is
    pre = {}
    for n in R & setters:
        f = p.defined[n]
        for b in f.blocks:
            for i in b:
                if i['op'] == 'store' and ir.field(f, i['a'][1]) in ((S, off['ch_hist_cur']), (S, off['ch_hist_last'])) and i['a'][0][0] == 'a' and n not in init:
                    pre[n] = i['a'][0][1]
    near = {n for n in touch} | {n for n in p.defined if p.defined[n].internal and n not in p.addrtaken}
    steps = {'hist_prev': -1, 'hist_next': 1}
    for n in list(steps) + ['hist_add', 'hist_pos_set', 'cligen_hist_init']:
        if n not in p.defined:
            raise Broken('%s is not there' % n)
    total = {'exits': 0, 'cases': 0}; okk = set(); seen = set(); done = []

    def scene(n, case):
        st = St(); f = p.defined[n]
        N = T.get(('in', 'N'), 2, MAXN); C = T.get(('in', 'cur'), 0, MAXN); L = T.get(('in', 'last'), 0, MAXN)
        N_, C_, L_ = symav(N), symav(C), symav(L)
        st.facts[N] = (2, MAXN, ()); st.facts[C] = (0, MAXN, ()); st.facts[L] = (0, MAXN, ())

        def less(a, b, k):          # a <= b - k
            d = linadd(a, b, -1)
            st.rel[d[1]] = min(st.rel.get(d[1], INF), -k - d[2])
        less(C_, N_, 1); less(L_, N_, 1)
        v = {'ch_hist_size': N_, 'ch_hist_cur': C_, 'ch_hist_last': L_, 'ch_hist_buf': None}
        for k in case:
            if k == 'fresh':
                v = {x: ZERO for x in v}
            elif k == 'C=0': v['ch_hist_cur'] = C_ = ZERO
            elif k == 'C>0': st.facts[C] = (1, MAXN, ())
            elif k == 'C=N-1': v['ch_hist_cur'] = C_ = linadd(N_, ('c', -1))
            elif k == 'C<N-1': less(C_, N_, 2)
            elif k == 'L=N-1': v['ch_hist_last'] = L_ = linadd(N_, ('c', -1))
            elif k == 'L<N-1': less(L_, N_, 2)
            elif k == 'L=C': v['ch_hist_last'] = L_ = C_
            elif k == 'L<C': less(L_, C_, 1)
            elif k == 'L>C': less(C_, L_, 1)
        args = []; buf = None
        for i, x in enumerate(f.params):
            if x['t'] == 'ptr' and f.sig[i + 1].rstrip('*').split()[-1] in ('cligen_handle',):
                args.append(argobj(p, st, i, S, v))
                b = args[-1][1]
                c = st.mem[b][off['ch_hist_buf']][0]
                buf = c[1] if c[0] == 'p' else None
            elif x['t'] == 'ptr':
                s = T.get(('arg', i, 'ptr'), 1, INF); st.facts[s] = (1, INF, ()); args.append(ptrav(s))
            else:
                s = T.get(('in', n, i), *trange(width(x['t'])))
                if pre.get(n) == i:
                    st.facts[s] = (0, MAXN, ()); less(symav(s), N_, 1)
                elif n in init:
                    st.facts[s] = (trange(32)[0], MAXN - 1, ())
                args.append(symav(s))
        return st, args, N_, C_, L_, buf

    def inv(h, s, base):
        """None or what does not hold of the handle in this block"""
        cell = {k: norm(s, s.mem.get(base, {}).get(o, (None,))[0]) if o in s.mem.get(base, {}) else None for k, o in off.items()}
        if any(v is None for v in cell.values()):
            z = s.mem.get(base, {}).get('*')
            if z and z[0] == ZERO:
                cell = {k: ZERO if v is None else v for k, v in cell.items()}
        n, b = cell['ch_hist_size'], cell['ch_hist_buf']
        if b is not None and isconst(b) and cval(b) == 0:
            if n is not None and isconst(n) and cval(n) == 0:
                return 'closed'
            return 'the history has no slots but a size'
        if n is None or b is None or n[0] == 'u' or b[0] != 'p':
            return 'the history is not known'
        if s.heap.get(b[1], ('',))[0] == 'freed':
            return 'the slots are released memory'
        m = h.block(s, b[1])
        if m is None or b[2] != 0 or not decide(s, 'sle', n, m):
            return 'the number of slots allocated is not shown to be the size of the history'
        if not decide(s, 'sge', n, ('c', 2)):
            return 'the history has less than one usable slot'
        for k, what in (('ch_hist_cur', 'current'), ('ch_hist_last', 'last')):
            x = cell[k]
            if x is None or lin(x) is None or not decide(s, 'sge', x, ZERO) or not decide(s, 'slt', x, n):
                return 'the %s position is not shown to be inside the history' % what
        return None

    def go(n, case):
        st, args, N, C, L, buf = scene(n, case)
        h = Slots(off, buf, N); h.keep = bool(case)
        I = SpecInterp(p, {'callback': False, 'strict': False}, [h], 6, False)
        I.inline_when = lambda fn, a: fn.name in near or fn.nins < 25
        ex = I.run(p.defined[n], args, st.copy())
        total['cases'] += 1; total['exits'] += len(ex)
        okk.update(h.ok); seen.update(h.seen)
        for (g, loc), tr in sorted(h.bad.items()):
            fs.append(finding('slot|%s' % g, '%s %s' % (loc, g), 'a slot of the history is accessed at a position not shown to be inside it', 'slot access', tr))
        return h, args, N, C, L, ex

    def cellof(s, base, k):
        c = s.mem.get(base, {}).get(off[k])
        return norm(s, c[0]) if c else None

    closing = set()
    for n in sorted(R):
        f = p.defined[n]
        hp = [i for i, x in enumerate(f.params) if x['t'] == 'ptr' and f.sig[i + 1].rstrip('*').split()[-1] == 'cligen_handle']
        cases = [()]
        if n in init:
            cases.append(('fresh',))
        ends = []
        for case in cases:
            h, args, N, C, L, ex = go(n, case)
            for rv, s, ins in ex:
                if hp:
                    base = args[hp[0]][1]
                    if s.heap.get(base, ('',))[0] == 'freed':
                        continue
                elif rv is not None and norm(s, rv)[0] == 'p':
                    base = norm(s, rv)[1]       # a handle is made
                else:
                    continue
                w = inv(h, s, base)
                if w == 'closed' and case and rv is not None and f.ret != 'void':
                    if decide(s, 'slt', norm(s, rv), ZERO):
                        continue
                ends.append((w, s, ins))
        if ends and all(w == 'closed' for w, s, i in ends):
            closing.add(n); done.append('%s (closes the history)' % n)
            continue
        for w, s, ins in ends:
            if w:
                from interp import trail
                fs.append(finding('inv|%s|%s' % (n, w), '%s %s' % (f.loc(ins), n),
                                  '%s returns and %s' % (n, 'leaves the handle without a history' if w == 'closed' else w), 'positions inside the history', trail(s.tr)))
        done.append(n)
    # stepping
    for n, d in steps.items():
        f = p.defined[n]
        moved = 0
        for a in (('C=0', 'C>0') if d < 0 else ('C=N-1', 'C<N-1')):
            for b in ('L=C', 'L<C', 'L>C'):
                if (a, b) in (('C=0', 'L<C'), ('C=N-1', 'L>C')):
                    continue
                h, args, N, C, L, ex = go(n, (a, b))
                want = linadd(N, ('c', -1)) if a == 'C=0' else ZERO if a == 'C=N-1' else linadd(C, ('c', d))
                for rv, s, ins in ex:
                    c = cellof(s, args[0][1], 'ch_hist_cur'); l = cellof(s, args[0][1], 'ch_hist_last')
                    if l is None or decide(s, 'eq', l, L) is not True:
                        fs.append(finding('last|%s' % n, '%s %s' % (f.loc(ins), n), 'stepping changes where the next line is added', 'stepping'))
                    stay = c is not None and decide(s, 'eq', c, C) is True
                    step = c is not None and decide(s, 'eq', c, want) is True
                    moved += step
                    if not stay and not step or stay and not step and d > 0 and b != 'L=C' or step and not stay and d > 0 and b == 'L=C':
                        fs.append(finding('step|%s' % n, '%s %s' % (f.loc(ins), n),
                                          'stepping %s from %s slot does not end on its neighbour with wrap at the ends' % (
                                              'back' if d < 0 else 'forward', {'C=0': 'the first', 'C=N-1': 'the last'}.get(a, 'an inner')), 'stepping'))
        if not moved:
            fs.append(finding('step|%s' % n, n, 'no step is ever taken', 'stepping'))
    n = 'hist_add'; f = p.defined[n]
    for a in ('L=N-1', 'L<N-1'):
        h, args, N, C, L, ex = go(n, (a,))
        want = ZERO if a == 'L=N-1' else linadd(L, ('c', 1)); moved = 0
        for rv, s, ins in ex:
            c = cellof(s, args[0][1], 'ch_hist_cur'); l = cellof(s, args[0][1], 'ch_hist_last')
            r = norm(s, rv)
            stay = l is not None and decide(s, 'eq', l, L) is True; step = l is not None and decide(s, 'eq', l, want) is True
            moved += step
            if not stay and not step:
                fs.append(finding('add|last', '%s %s' % (f.loc(ins), n), 'adding a line does not go on to the next slot with wrap at the end', 'adding'))
            if decide(s, 'slt', r, ZERO) is not True and (c is None or l is None or decide(s, 'eq', c, l) is not True):
                fs.append(finding('add|cur', '%s %s' % (f.loc(ins), n), 'after adding a line, recall does not start from the newest line', 'adding'))
        if not moved:
            fs.append(finding('add|none', n, 'no line is ever added', 'adding'))
    sites = callers(p, pre, rev, roots, init, fs)
    if len(seen) < 8 or len(okk) < 1 or not sites:
        raise Broken('only %d slot accesses and %d position arguments found' % (len(seen), len(sites)))
    uniq = {x['key'] + x['where']: x for x in fs}
    return {'findings': list(uniq.values()), 'assumptions': ENGINE_ASSUMPTIONS[:3] + [
        'a history has at most 2^28 slots', 'hooks and callbacks of the application do not resize the history while a line is edited',
        'one line is edited at a time'],
        'coverage': dict(p.stats(), functions=done, position_arguments=sites, slot_accesses=len(seen), slot_accesses_shown=len(okk), exits=total['exits'], cases=total['cases'],
                         explanation='%d functions from an arbitrary history (%d cases, %d exits), %d slot accesses, %d position arguments' % (
                             len(done), total['cases'], total['exits'], len(seen), len(sites)))}


class Kept(Hook):
    """positions handed over by callers"""
    def __init__(self, p, pre, G, N, give):
        self.p = p; self.pre = pre; self.G = G; self.N = N; self.give = give; self.bad = {}; self.sites = set()

    def inside(self, st, v):
        v = norm(st, v)
        return lin(v) is not None and bool(decide(st, 'sge', v, ZERO) and decide(st, 'slt', v, self.N))

    def call(self, I, fr, ins, st, name, args):
        if name in self.give:
            s = T.get(('pos', fr.fn.name, ins['i']), 0, MAXN)
            st.facts[s] = (0, MAXN, ())
            d = linadd(symav(s), self.N, -1); st.rel[d[1]] = -1
            return [(symav(s), st)]
        if name in self.pre:
            key = (fr.fn.name, fr.fn.loc(ins)); self.sites.add(key)
            if not self.inside(st, args[self.pre[name]]):
                from interp import trail
                self.bad.setdefault(key, (name, trail(st.tr)))
            return [(ZERO, st)]
        return None

    def store(self, I, fr, ins, st, base, off, v):
        if base[0] == 'G' and base[1] in self.G:
            st.mon = st.mon - {('pos', base[1])}
            if self.inside(st, v):
                st.mon = st.mon | {('pos', base[1])}


def callers(p, pre, rev, roots, init, fs):
    sites = set()
    if not pre:
        return ['none: no function takes a position']
    direct = {m for n in pre for m in rev.get(n, ())}
    R = roots(direct)
    up = set(pre); todo = list(pre)
    while todo:
        for m in rev.get(todo.pop(), ()):
            if m not in up and p.defined[m].internal and m not in p.addrtaken:
                up.add(m); todo.append(m)
    # what only reads and returns a position (shown above to be inside)
    give = set()
    for n, f in p.defined.items():
        r = [i for b in f.blocks for i in b if i['op'] == 'ret' and i['a']]
        if r and f.nins < 40 and all(i['a'][0][0] == 'v' and f.defs.get(i['a'][0][1], {}).get('op') == 'load' and
                     ir.field(f, f.defs[i['a'][0][1]]['a'][0]) in [('cligen_handle', member(p, 'cligen_handle', k)[0]) for k in ('ch_hist_cur', 'ch_hist_last')] for i in r):
            give.add(n)
    if not give:
        raise Broken('no function hands out a position')
    G = {i['a'][0][1] for n in direct for b in p.defined[n].blocks for i in b
         if i['op'] == 'load' and i['a'][0][0] == 'g' and i['t'] == 'i32' and p.globals.get(i['a'][0][1], {}).get('internal')}
    # the history keeps its size while a line is edited
    reach = set(R); todo = list(R)
    while todo:
        for c in p.calls.get(todo.pop(), ()):
            if c not in reach:
                reach.add(c); todo.append(c)
    for n in init & reach:
        fs.append(finding('resize|%s' % n, n, 'the history is replaced while a line is edited', 'positions kept for the line'))
    N = T.get(('in', 'N'), 2, MAXN)
    for n in sorted(R):
        f = p.defined[n]
        st = St(); st.facts[N] = (2, MAXN, ()); args = []
        for i, x in enumerate(f.params):
            if x['t'] == 'ptr':
                s = T.get(('arg', i, 'ptr'), 1, INF); st.facts[s] = (1, INF, ()); args.append(ptrav(s))
            else:
                args.append(symav(T.get(('in', n, i), *trange(width(x['t'])))))
        h = Kept(p, pre, G, symav(N), give)
        I, ex = results(p, n, args, st, [h], maxinline=6, exact=False, when=lambda fn, a: fn.name in up and fn.name != n,
                        policy={'callback': False, 'strict': False, 'failclass': lambda x: None, 'coarse': 1000000, 'maxblocks': 200000})
        sites |= h.sites
        for (g, loc), (t, tr) in sorted(h.bad.items()):
            fs.append(finding('arg|%s|%s' % (g, t), '%s %s' % (loc, g), 'a position not shown to be inside the history of the line being edited is passed to %s' % t, 'position passed on', tr))
    return ['%s %s' % (loc, g) for g, loc in sorted(sites)]
