"""C18: the terminal is back in its original mode whenever line editing ends.

Typestate of the terminal over all paths: tcgetattr copies the mode of the terminal into a structure, copies and partial
stores of such structures are followed, tcsetattr sets the terminal to what the structure holds (the original mode, or
something else).  Every function that can change the mode is analysed from the original mode and, unless it reads a line
itself, also from within line editing (after gl_char_init); private helpers and the terminal primitives are analysed in
their calling context.  On every way out the terminal must be in the mode it had on entry - from within line editing:
gl_char_cleanup must afterwards still restore the original mode - and no signal is delivered while it is in another."""
from scen import *
import ir

PRIM = {'gl_char_init', 'gl_char_cleanup'}
ECHO = {'cligen_echo_on', 'cligen_echo_off'}
POL18 = {'callback': False, 'failclass': lambda n: None, 'coarse': 1000000, 'maxblocks': 200000}
SETTERS = {'tcsetattr', 'tcgetattr', 'cfmakeraw', 'kill', 'raise', 'killpg', 'ioctl'}


def get(st, k, d=None):
    for m in st.mon:
        if m[0] == 'T' and m[1] == k:
            return m[2]
    return d


def put(st, k, v):
    st.mon = frozenset(m for m in st.mon if not (m[0] == 'T' and m[1] == k)) | {('T', k, v)}


class Term(Hook):
    def __init__(self, keep):
        self.bad = []; self.sets = 0; self.signals = 0; self.keep = keep; self.kept = set(); self.alive = False

    def call(self, I, fr, ins, st, name, args):
        if name == 'tcgetattr':
            b = norm(st, args[1])
            if b[0] != 'p':
                raise Broken('tcgetattr into an unknown structure')
            put(st, b[1], get(st, 'mode', 'orig'))
            return [(symav(T.get(('in', 'tcget'), -1, 0)), st)]
        if name == 'tcsetattr':
            self.sets += 1
            b = norm(st, args[2])
            put(st, 'mode', get(st, b[1], 'unknown') if b[0] == 'p' else 'unknown')
            return [(symav(T.get(('in', 'tcset'), -1, 0)), st)]
        if name == 'cfmakeraw':
            b = norm(st, args[0])
            put(st, b[1], 'changed'); return [(None, st)]
        if name and name.startswith('llvm.memcpy') or name == 'memcpy' or name == 'llvm.memmove.p0.p0.i64':
            d = norm(st, args[0]); s = norm(st, args[1])
            if d[0] == 'p' and s[0] == 'p' and get(st, s[1]) is not None:
                put(st, d[1], get(st, s[1]))
            elif d[0] == 'p' and get(st, d[1]) is not None:
                put(st, d[1], 'changed')
            return None
        if name in ('kill', 'raise', 'killpg'):
            self.signals += 1
            if get(st, 'mode', 'orig') != 'orig':
                self.bad.append((fr.fn, ins, 'a signal is delivered while the terminal is not in its original mode', 'signal'))
            return [(symav(T.get(('in', 'kill'), -1, 0)), st)]
        if name in ('exit', '_exit', 'abort', 'execv', 'execvp', 'execl', 'execlp') and get(st, 'mode', 'orig') != 'orig' and get(st, 'ctx') == 'orig':
            self.bad.append((fr.fn, ins, 'the process ends while the terminal is not in its original mode', 'process end'))
        if name in self.keep and fr.fn.name != name:
            self.kept.add(name)
        return None

    def store(self, I, fr, ins, st, base, off, v):
        if get(st, base) is not None:
            put(st, base, 'changed')


def run(tier):
    p = program(); fs = []
    # functions that can reach a change of the mode
    rev = {}
    for n, cs in p.calls.items():
        for c in cs:
            rev.setdefault(c, set()).add(n)
    T_ = set(); todo = [n for n in SETTERS - {'ioctl'}]
    while todo:
        for g in rev.get(todo.pop(), ()):
            if g not in T_:
                T_.add(g); todo.append(g)
    for n in PRIM | {'gl_getline'}:
        if n not in T_:
            raise Broken('%s does not change the terminal mode' % n)
    reads = {'gl_getline'}; todo = ['gl_getline']
    while todo:
        for g in rev.get(todo.pop(), ()):
            if g not in reads:
                reads.add(g); todo.append(g)
    rec = {n for c in p.order() for n in c if len(c) > 1 or n in p.calls[n]}
    top = sorted(n for n in T_ if n not in PRIM | ECHO and (not p.defined[n].internal or n in p.addrtaken or n in rec))
    keep = set(top)

    def inl(fn, a):
        return fn.name in PRIM or (fn.name in T_ and fn.name not in keep) or fn.name in near

    # private functions of the line editor that only touch the flags of the terminal state
    near = set()
    gl = {g for g in p.globals if os.path.basename(p.globals[g].get('file', '')) == os.path.basename(p.defined['gl_getline'].file)}
    stats = {'exits': 0, 'steps': 0}

    # scalars that decide what the terminal primitives do: they start at their initial value; values they are left with are
    # followed too, and after three different ones the value is taken as unknown
    rd = set(); wr = set()
    prim = set(PRIM); todo = list(PRIM)
    while todo:
        for g in p.calls[todo.pop()]:
            if g in p.defined and g not in prim:
                prim.add(g); todo.append(g)
    for n in prim:
        for b in p.defined[n].blocks:
            for i in b:
                if i['op'] in ('load', 'store'):
                    a = i['a'][0 if i['op'] == 'load' else 1]
                    g = p.globals.get(a[1]) if a[0] == 'g' else None
                    if g and not g.get('decl') and g.get('ty') in ('i8', 'i16', 'i32', 'i64'):
                        (rd if i['op'] == 'load' else wr).add(a[1])
    ctrl = sorted(rd & wr)

    def initial(g):
        i = p.globals[g].get('init') or {}
        return ('c', i['ints'][0] if i.get('ints') else 0)

    def enter(vals):
        st = St()
        for g, v in zip(ctrl, vals):
            if v is not None:
                st.mem[('G', g)] = {0: (v, p.globals[g]['ty'], ('g', g) if p.globals[g].get('internal') else ('t', p.globals[g]['ty']))}
        return st

    def left(st):
        return tuple(norm(st, st.mem[('G', g)][0][0]) if 0 in st.mem.get(('G', g), {}) else None for g in ctrl)

    spare = {n: frozenset(('g', g) for g in ctrl) for n in top}

    def go(n, st, ctx):
        f = p.defined[n]
        args = []
        for i, x in enumerate(f.params):
            if x['t'] == 'ptr':
                s = T.get(('arg', i, 'ptr'), 1, INF); st.facts[s] = (1, INF, ()); args.append(ptrav(s))
            else:
                args.append(symav(T.get(('in', n, i), *trange(width(x['t'])))))
        hk = Term(keep)
        I, ex = results(p, n, args, st, [hk], maxinline=8, when=inl, exact=False, policy=POL18, spare=spare)
        stats['steps'] += I.steps
        return f, hk, ex
    done = []
    sets = sig = 0
    start = tuple(initial(g) for g in ctrl)
    seen = []; todo = [start]
    while todo:
        vals = todo.pop(0)
        if len(seen) == 3:
            vals = tuple(None for g in ctrl); todo = []
        seen.append(vals)
        nxt = []; kept = True
        # the state in which a line is being edited
        editing = [s for rv, s, ins in go('gl_char_init', enter(vals), 'orig')[2] if get(s, 'mode') not in (None, 'orig')]
        if not editing:
            fs.append(finding('init', 'gl_char_init', 'the terminal is not set to another mode', 'raw mode entered'))
        for s in editing:
            for rv, s2, ins in go('gl_char_cleanup', s.copy(), '')[2]:
                if get(s2, 'mode') != 'orig':
                    fs.append(finding('cleanup', '%s gl_char_cleanup' % p.defined['gl_char_cleanup'].loc(ins), 'the original terminal mode is not restored', 'mode restored'))
                nxt.append(left(s2))
        for n in top:
            st = enter(vals); put(st, 'ctx', 'orig')
            f, hk, ex = go(n, st, 'orig')
            sets += hk.sets; sig += hk.signals
            for g, ins, msg, k in hk.bad:
                fs.append(finding('%s|%s' % (n, k), '%s %s' % (g.loc(ins), g.name), msg, 'original mode while a signal is delivered'))
            for rv, s, ins in ex:
                stats['exits'] += 1
                nxt.append(left(s)); kept &= left(s) == vals
                if get(s, 'mode', 'orig') != 'orig':
                    fs.append(finding('%s|left' % n, '%s %s' % (f.loc(ins), n), '%s returns with the terminal in another mode' % n, 'mode restored on every way out'))
            done.append(n + ' from the original mode')
            if n in reads:
                continue
            for s0 in editing:
                s0 = s0.copy(); put(s0, 'ctx', 'editing')
                f, hk, ex = go(n, s0, 'editing')
                for rv, s, ins in ex:
                    stats['exits'] += 1
                    kept &= left(s) == left(s0)
                    for rv2, s2, i2 in go('gl_char_cleanup', s.copy(), '')[2]:
                        nxt.append(left(s2))
                        if get(s2, 'mode', 'orig') != 'orig':
                            fs.append(finding('%s|saved' % n, '%s %s' % (f.loc(ins), n),
                                              '%s, used while a line is edited, replaces the saved terminal mode: it is not restored afterwards' % n, 'saved mode kept'))
            done.append(n + ' while editing')
        if spare and not kept:      # once more, without relying on it
            spare = {}; seen = []; todo = [start]; fs = []; done = []; sets = sig = 0
            continue
        if fs or None in vals:
            break
        for v in nxt:
            v = tuple(x if x is None or x[0] == 'c' else None for x in v)
            if v not in seen and v not in todo:
                todo.append(v)
    if sets < 4:
        raise Broken('only %d mode changes followed' % sets)
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS[:2] + ['hooks and callbacks of the application leave the terminal mode alone',
                                                                  'tcsetattr does not fail'],
            'coverage': dict(p.stats(), functions_and_contexts=done, exits=stats['exits'], abstract_steps=stats['steps'], mode_changes=sets, signals=sig, primitives_state={g: len(seen) for g in ctrl},
                             explanation='terminal typestate in %d function contexts, %d exits, %d mode changes and %d signal deliveries' % (
                                 len(done), stats['exits'], sets, sig))}
