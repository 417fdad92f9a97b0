"""Bottom-up summarisation with one forked process per call-graph component.

Every component is analysed in a fresh copy of the initial process that reads its callees'
summaries in portable form, so results do not depend on scheduling."""
import os, sys, pickle, select, time, gc
from absint import *
import absint
from interp import *


class Export:
    def __init__(self, base):
        self.base = base; self.ids = set()

    def walk(self, x):
        st = [x]
        while st:
            y = st.pop()
            if isinstance(y, tuple) and y:
                n = len(y)
                if n == 2 and (y[0] == 'D' or y[0] == 'E' or y[0] == 'sub') and isinstance(y[1], int):
                    self.need(y[1])
                elif n == 3 and y[0] == 'l' and isinstance(y[1], tuple):
                    for (s, c) in y[1]:
                        self.need(s)
                elif n == 3 and y[0] == 'in' and y[1] in ('old', 'older'):
                    self.need(y[2])
                else:
                    st.extend(y)

    def need(self, s):
        if s < self.base or s in self.ids:
            return
        self.ids.add(s)
        self.walk(T.desc[s])

    def outcome(self, o):
        st = o.st
        self.walk(o.ret)
        for b, cells in st.mem.items():
            self.walk(b)
            for k, c in cells.items():
                self.walk(k) if k != '*' else None
                self.walk(c)
        for s in st.facts: self.need(s)
        for b in st.heap: self.walk(b)
        for v in st.ep.values(): self.need(v)
        for s in st.gen: self.need(s)
        for b in st.maybe: self.walk(b)
        return (o.ret, o.fails, st.mem, st.facts, st.heap, st.mon, st.ep, st.gen, st.maybe)

    def table(self):
        return [(i, T.desc[i], T.dflt[i]) for i in sorted(self.ids)]


class Import:
    def __init__(self, table):
        self.m = {}
        for i, d, (lo, hi) in table:
            self.m[i] = T.get(self.rec(d), lo, hi)

    def rec(self, x):
        if isinstance(x, tuple) and x:
            n = len(x)
            if n == 2 and (x[0] == 'D' or x[0] == 'E' or x[0] == 'sub') and isinstance(x[1], int):
                return (x[0], self.m.get(x[1], x[1]))
            if n == 3 and x[0] == 'l' and isinstance(x[1], tuple):
                return ('l', tuple(sorted((self.m.get(s, s), c) for s, c in x[1])), x[2])
            if n == 3 and x[0] == 'in' and x[1] in ('old', 'older'):
                return (x[0], x[1], self.m.get(x[2], x[2]))
            return tuple(self.rec(y) for y in x)
        return x

    def outcome(self, t):
        r = self.rec
        ret, fails, mem, facts, heap, mon, ep, gen, maybe = t
        o = Outcome(); st = St(); o.st = st
        o.ret = r(ret); o.fails = fails
        st.mem = {r(b): {(r(k) if k != '*' else k): r(c) for k, c in cells.items()} for b, cells in mem.items()}
        g = self.m.get
        st.facts = {g(s, s): f for s, f in facts.items()}
        st.heap = {r(b): v for b, v in heap.items()}
        st.mon = mon
        st.ep = {k: g(v, v) for k, v in ep.items()}
        st.gen = frozenset(g(s, s) for s in gen)
        st.maybe = frozenset(r(b) for b in maybe)
        return o


class Lazy(dict):
    """summaries, decoded when first asked for"""

    def __init__(self, I, blobs):
        self.I = I; self.blobs = blobs

    def get(self, n, d=None):
        if n in self:
            return dict.__getitem__(self, n)
        b = self.blobs.get(n)
        if b is None:
            return d
        table, outs, deref, origin = pickle.loads(b)
        im = Import(table)
        self[n] = [im.outcome(t) for t in outs]
        self.I.dereferenced[n] = deref
        for k, v in origin:
            self.I.origin[im.rec(k)] = v
        return self[n]

    def __contains__(self, n):
        return dict.__contains__(self, n)


class LazyDeref(dict):
    def __init__(self, I):
        self.I = I

    def get(self, n, d=()):
        if n not in self:
            self.I.summ.get(n)
        return dict.get(self, n, d)


def child(I, comp, prog, base):
    rec = len(comp) > 1 or comp[0] in prog.calls[comp[0]]
    if rec:
        for n in comp:
            I.summ[n] = []
    for rnd in range(3 if rec else 1):
        for n in comp:
            I.summ[n] = I.summarise(n)
    res = {}
    for n in comp:
        ex = Export(base)
        outs = [ex.outcome(o) for o in I.summ[n]]
        org = []
        for o in I.summ[n]:
            for b in o.st.heap:
                if b[0] == 'H' and b in I.origin:
                    ex.walk(b); org.append((b, I.origin[b]))
        res[n] = pickle.dumps((ex.table(), outs, I.dereferenced.get(n, frozenset()), org), -1)
    return res, {n: I.events.get(n, {}) for n in comp}, (I.steps, I.capped, I.coarse, list(I.nofix), len(T.desc)), I.extra()


def analyse(prog, make, workers=None, verbose=False, only=None):
    """make(blobs) -> Interp.  returns (events, stats, extra)"""
    workers = workers or min(8, os.cpu_count() or 2)
    comps = [tuple(c) for c in prog.order()]
    if only:
        comps = [c for c in comps if set(c) & only]
    idx = {n: i for i, c in enumerate(comps) for n in c}
    deps = {i: {idx[m] for n in c for m in prog.calls[n] if m in idx and idx[m] != i} for i, c in enumerate(comps)}
    users = {}
    for i, d in deps.items():
        for j in d: users.setdefault(j, set()).add(i)
    # longest remaining chain first
    wt = {i: 1 + sum(len(prog.defined[n].blocks) for n in c) for i, c in enumerate(comps)}
    prio = {}
    for i in reversed(range(len(comps))):
        prio[i] = wt[i] + max((prio[u] for u in users.get(i, ())), default=0)
    blobs = {}
    I = make(blobs)
    base = len(T.desc)
    pend = {i: set(d) for i, d in deps.items()}
    ready = [i for i, d in pend.items() if not d]
    running = {}
    events = {}; extras = {}
    stats = {'steps': 0, 'capped': {}, 'coarse': {}, 'nofix': [], 'symbols': 0, 'functions': 0}
    gc.freeze()
    while ready or running:
        ready.sort(key=lambda i: prio[i])
        while ready and len(running) < workers:
            i = ready.pop()
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    gc.disable()
                    t = time.time()
                    out = pickle.dumps(('ok', child(I, comps[i], prog, base), time.time() - t), -1)
                except BaseException as e:
                    import traceback
                    out = pickle.dumps(('err', traceback.format_exc(), 0), -1)
                try:
                    with os.fdopen(w, 'wb') as f:
                        f.write(out)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(w)
            running[r] = [i, pid, []]
        rl, _, _ = select.select(list(running), [], [])
        for r in rl:
            d = os.read(r, 1 << 20)
            i, pid, buf = running[r]
            if d:
                buf.append(d)
                continue
            os.close(r); os.waitpid(pid, 0); del running[r]
            if not buf:
                raise Broken('analysis process for %s ended without a result' % (comps[i],))
            k, res, dt = pickle.loads(b''.join(buf))
            if k != 'ok':
                raise Broken('analysis of %s failed:\n%s' % (comps[i], res))
            if verbose and dt > 2:
                print('%-30s %.1fs' % (comps[i][0], dt), flush=True)
            bl, ev, sts, ext = res
            blobs.update(bl); events.update(ev)
            stats['steps'] += sts[0]; stats['capped'].update(sts[1]); stats['coarse'].update(sts[2]); stats['nofix'] += sts[3]
            stats['symbols'] += sts[4]; stats['functions'] += len(comps[i])
            for k2, v in ext.items():
                extras.setdefault(k2, []).append(v)
            for u in users.get(i, ()):
                pend[u].discard(i)
                if not pend[u]:
                    ready.append(u)
    return events, stats, extras, I
