"""C19: descriptors, streams and helper processes acquired by a call are given back by it.

Typestate per acquired resource (descriptor of socketpair, pipe, socket, open, accept, dup; stream of fopen, popen; child
of fork) over all paths of every public function that can acquire or give back one, private helpers in context: on every
way out each is closed, respectively waited for, or was handed to the caller through an out-parameter or as the result;
no static variable still names one; the standard streams, if redirected, are what they were; the child of a fork never
returns into the code of its parent."""
from scen import *
import ir

FD1 = {'open', 'openat', 'socket', 'accept', 'accept4', 'dup', 'creat', 'mkstemp', 'epoll_create', 'inotify_init', 'eventfd', 'fileno_dup'}
FD2 = {'socketpair': 3, 'pipe': 0, 'pipe2': 0}
STR = {'fopen', 'fopen64', 'popen', 'fdopen', 'opendir', 'tmpfile', 'open_memstream', 'fmemopen'}
CLOSE = {'close': 0, 'fclose': 0, 'pclose': 0, 'closedir': 0}
WAIT = {'wait', 'waitpid', 'wait3', 'wait4'}
ACQ = FD1 | set(FD2) | STR | {'fork', 'vfork'}
ALL = ACQ | set(CLOSE) | WAIT | {'dup2', 'dup3'}
POL19 = {'callback': False, 'failclass': lambda n: None, 'coarse': 1000000, 'maxblocks': 200000}
END = {'exit', '_exit', 'abort', 'execv', 'execvp', 'execl', 'execlp', 'execve', '_Exit', 'quick_exit'}


def res(st): return {m[1]: m for m in st.mon if m[0] == 'R'}


def drop(st, s): st.mon = frozenset(m for m in st.mon if not (m[0] == 'R' and m[1] == s))


def std(st, n):
    for m in st.mon:
        if m[0] == 'S' and m[1] == n:
            return m[2]
    return ('orig', n)


def symof(v):
    if v is None:
        return None
    if v[0] == 'l' and len(v[1]) == 1 and v[1][0][1] == 1 and v[2] == 0:
        return v[1][0][0]
    if v[0] == 'p' and v[1][0] == 'D' and v[2] == 0:
        return v[1][1]
    return None


class Res(Hook):
    def store(self, I, fr, ins, st, base, off, v):
        if base[0] == 'G':
            x = symof(norm(st, v))
            st.mon = frozenset(m for m in st.mon if not (m[0] == 'N' and m[1] == base[1] and m[2] == off)) | (
                {('N', base[1], off, x)} if x is not None and T.desc[x][0] == 'res' else set())

    def __init__(self):
        self.bad = []; self.acq = 0; self.rel = 0; self.sites = set(); self.where = {}

    def new(self, fr, ins, st, kind, k, lo=3):
        s = T.get(('res', kind, fr.fn.loc(ins), fr.fn.name, k), lo, INF)
        if s in res(st):
            self.bad.append((fr.fn, ins, 'the %s opened here before is still open when the next one replaces it' % kind, 'replaced'))
        st.facts[s] = (lo, INF, ())
        st.mon = frozenset(m for m in st.mon if not (m[0] in ('R', 'S') and m[1] == s)) | {('R', s, kind)}
        self.where[s] = (fr.fn, ins); self.sites.add((fr.fn.loc(ins), kind)); self.acq += 1
        return s

    def call(self, I, fr, ins, st, name, args):
        if name in FD2:
            d = norm(st, args[FD2[name]])
            if d[0] != 'p':
                raise Broken('%s into an unknown place' % name)
            ok = st.copy()
            for k in (0, 1):
                s = self.new(fr, ins, ok, 'descriptor', k)
                I.store(ok, fr, ins, d[1], None if d[2] is None else d[2] + 4 * k if isinstance(d[2], int) else None, symav(s), 'i32', ('t', 'i32'))
            return [(('c', -1), st), (ZERO, ok)]
        if name in FD1:
            ok = st.copy(); s = self.new(fr, ins, ok, 'descriptor', name)
            if name == 'dup' and norm(st, args[0])[0] == 'c':
                ok.mon = ok.mon | {('S', s, std(st, norm(st, args[0])[1]))}
            return [(('c', -1), st), (symav(s), ok)]
        if name in STR:
            ok = st.copy(); s = self.new(fr, ins, ok, 'stream', name, 1)
            if name == 'fdopen':
                drop(ok, symof(norm(st, args[0])))
            return [(ZERO, st), (ptrav(s), ok)]
        if name in ('fork', 'vfork'):
            ok = st.copy(); s = self.new(fr, ins, ok, 'child process', name, 1)
            ch = st.copy(); ch.mon = frozenset({('CHILD',)})
            return [(('c', -1), st), (symav(s), ok), (ZERO, ch)]
        if name in CLOSE:
            v = norm(st, args[0]); self.rel += 1
            s = symof(v)
            if s is not None:
                drop(st, s)
            return [(symav(T.get(('in', 'close'), -1, 0)), st)]
        if name in WAIT:
            self.rel += 1
            o = norm(st, args[2]) if name == 'waitpid' else norm(st, args[1]) if name == 'wait3' else norm(st, args[2]) if name == 'wait4' else ZERO
            r = T.get(('in', name), -1, INF)
            if name in ('wait', 'wait3') or norm(st, args[0]) == ('c', -1):
                for s, m in res(st).items():
                    if m[2] == 'child process' and o in (ZERO, ('c', 0)):
                        drop(st, s)
            elif o[0] in ('c', 'z') and (o[0] == 'z' or not o[1] & 1):
                s = symof(norm(st, args[0]))
                if s is not None:
                    drop(st, s)
            return [(symav(r), st)]
        if name in ('dup2', 'dup3'):
            a, b = norm(st, args[0]), norm(st, args[1])
            if b[0] in ('c', 'z'):
                n = b[1] if b[0] == 'c' else 0
                if 0 <= n <= 2:
                    o = ('other',)
                    if a[0] in ('c', 'z'):
                        o = std(st, a[1] if a[0] == 'c' else 0)
                    elif symof(a) is not None:
                        o = next((m[2] for m in st.mon if m[0] == 'S' and m[1] == symof(a)), ('other',))
                    st.mon = frozenset(m for m in st.mon if not (m[0] == 'S' and m[1] == n)) | ({('S', n, o)} if o != ('orig', n) else set())
            return [(symav(T.get(('in', 'dup2'), -1, INF)), st)]
        if name in END:
            return None
        return None


def run(tier):
    p = program(); fs = []
    rev = {}
    for n, cs in p.calls.items():
        for c in cs:
            rev.setdefault(c, set()).add(n)

    def reach(seed):
        t = set(); todo = list(seed)
        while todo:
            for g in rev.get(todo.pop(), ()):
                if g not in t:
                    t.add(g); todo.append(g)
        return t
    T_ = reach(ALL)
    R_ = reach(ACQ)
    if not R_:
        raise Broken('nothing in the library opens anything')
    # state that names resources: private scalars; their accessors are analysed in context
    near = set()
    rec = {n for c in p.order() for n in c if len(c) > 1 or n in p.calls[n]}
    top = sorted(n for n in T_ if n in p.defined and (not p.defined[n].internal or n in p.addrtaken or n in rec))
    keep = set(top)
    glob = {g for g, x in p.globals.items() if not x['const'] and not x.get('decl') and x.get('ty') in ('i32', 'ptr')}
    acc = {n for n, f in p.defined.items() if sum(len(b) for b in f.blocks) <= 12 and
           any(i['op'] in ('load', 'store') and any(o[0] == 'g' and o[1] in glob for o in i['a']) for b in f.blocks for i in b)}
    stats = {'exits': 0, 'steps': 0}

    def go(n, inl):
        f = p.defined[n]; st = St(); args = []
        for i, x in enumerate(f.params):
            if x['t'] == 'ptr':
                s = T.get(('arg', i, 'ptr'), 1, INF); st.facts[s] = (1, INF, ()); args.append(ptrav(s))
            else:
                args.append(symav(T.get(('in', n, i), *trange(width(x['t'])))))
        hk = Res()
        I, ex = results(p, n, args, st, [hk], maxinline=8, when=lambda fn, a: inl(fn.name), exact=False, policy=POL19)
        stats['steps'] += I.steps
        return f, hk, ex

    # public functions that hand what they open to their caller are followed in the caller's context
    giving = set(); done = {}
    order = [n for c in p.order() for n in c if n in keep]
    for n in order:
        def inl(g):
            return g in acc or g in T_ and (g not in keep or g in giving)
        f, hk, ex = go(n, inl)
        out = []
        for rv, s, ins in ex:
            stats['exits'] += 1
            if ('CHILD',) in s.mon:
                out.append(('%s|child' % n, f, ins, 'the child process returns from %s into the code of its parent' % n)); continue
            live = res(s)
            cells = {}
            for b, cs in s.mem.items():
                for o, c in cs.items():
                    if isinstance(o, int):
                        x = symof(norm(s, c[0]))
                        if x is not None:
                            cells.setdefault(x, []).append(b)
            for x, m in live.items():
                at = cells.get(x, [])
                if symof(rv) == x or any(b[0] == 'D' for b in at):
                    giving.add(n); continue
                w = hk.where.get(x)
                g, wi = w if w else (f, ins)
                out.append(('%s|%s|%s' % (n, m[2], g.name), g, wi, 'the %s opened here is neither %s nor handed over when %s returns at %s' % (
                    m[2], 'waited for' if 'process' in m[2] else 'closed', n, f.loc(ins))))
            for m in s.mon:
                if m[0] == 'N' and not (m[3] in live and n in giving):
                    g, wi = hk.where.get(m[3], (f, ins))
                    out.append(('%s|names|%s' % (n, m[1]), g, wi, '%s still names the descriptor opened here when %s returns at %s' % (m[1], n, f.loc(ins))))
            for m in s.mon:
                if m[0] == 'S' and isinstance(m[1], int) and m[1] <= 2 and m[2] != ('orig', m[1]):
                    out.append(('%s|std%d' % (n, m[1]), f, ins, 'standard stream %d is still redirected when %s returns' % (m[1], n)))
        for g, ins, msg, k in hk.bad:
            out.append(('%s|%s' % (n, k), g, ins, msg))
        done[n] = (hk, len(ex))
        for key, g, ins, msg in out:
            fs.append(finding(key, '%s %s' % (g.loc(ins), g.name), msg, 'given back before the call returns'))
    sites = set().union(*(hk.sites for hk, _ in done.values()))
    if not sites:
        raise Broken('no acquisition was followed')
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS[:2] + ['callbacks of the application give back what they open', 'waitpid is not interrupted'],
            'coverage': dict(p.stats(), functions=sorted(done), handing_over=sorted(giving), acquisition_sites=sorted('%s %s' % x for x in sites), exits=stats['exits'],
                             abstract_steps=stats['steps'], explanation='resource typestate in %d functions, %d acquisition sites, %d exits' % (
                                 len(done), len(sites), stats['exits']))}
