"""C20: a compiled expression is run and released by the engine that built it.

Typestate of compiled expressions per engine over all paths.  The functions that compile, run and release through the
handle's engine selection, and the check that combines them, are analysed in one context per selection (0, and any other
value): only the functions of the selected engine are reached, an expression is run only while it is compiled by that
engine, and on every way out each compiled expression has been released exactly once or was handed to the caller."""
from scen import *
import ir

COMP = {'regcomp': 'posix', 'xmlRegexpCompile': 'libxml2'}
EXEC = {'regexec': 'posix', 'xmlRegexpExec': 'libxml2'}
FREE = {'regfree': 'posix', 'xmlRegFreeRegexp': 'libxml2'}
ENG = dict(COMP, **EXEC, **FREE)
POL20 = {'callback': False, 'failclass': lambda n: None, 'coarse': 1000000, 'maxblocks': 200000}


def key(v):
    """the object behind a pointer value"""
    return v[1] if v and v[0] == 'p' and v[2] == 0 else None


class Rx(Hook):
    def __init__(self, eng):
        self.eng = eng; self.bad = []; self.n = {'compile': 0, 'run': 0, 'release': 0}; self.where = {}

    def wrong(self, fr, ins, name):
        if self.eng and ENG[name] != self.eng:
            self.bad.append((fr.fn, ins, '%s belongs to the %s engine while %s is selected' % (name, ENG[name], self.eng), 'engine|%s' % name))

    def call(self, I, fr, ins, st, name, args):
        if name not in ENG:
            return None
        self.wrong(fr, ins, name)
        if name in COMP:
            self.n['compile'] += 1
            ok = st.copy()
            if name == 'regcomp':
                b = key(norm(st, args[0]))
                if b is None:
                    raise Broken('regcomp into an unknown object')
                r = [(ZERO, ok), (symav(T.get(('in', 'regcomp'), 1, INF)), st)]
                st.facts[T.get(('in', 'regcomp'), 1, INF)] = (1, INF, ())
            else:
                s = T.get(('res', 'rx', fr.fn.loc(ins)), 1, INF); ok.facts[s] = (1, INF, ())
                b = ('D', s); r = [(ptrav(s), ok), (ZERO, st)]
            if ('X', b, COMP[name]) in st.mon:
                self.bad.append((fr.fn, ins, 'the expression compiled here before has not been released', 'replaced'))
            ok.mon = ok.mon | {('X', b, COMP[name])}; self.where[b] = (fr.fn, ins)
            return r
        b = key(norm(st, args[0]))
        live = ('X', b, ENG[name]) in st.mon
        if name in EXEC:
            self.n['run'] += 1
            if not live:
                self.bad.append((fr.fn, ins, 'an expression is run that is not compiled (by this engine, on this path)', 'run'))
            return [(symav(T.get(('in', name), -INF if name == 'xmlRegexpExec' else 0, INF)), st)]
        self.n['release'] += 1
        if not live and b is not None:
            self.bad.append((fr.fn, ins, 'an expression is released that is not compiled (by this engine, on this path)', 'release'))
        st.mon = st.mon - {('X', b, ENG[name])}
        return [(None, st)]


def run(tier):
    p = program(); fs = []; n = {'compile': 0, 'run': 0, 'release': 0}; exits = 0; steps = 0; ctxs = []
    users = {f for f, cs in p.calls.items() if cs & set(ENG)}
    if not users:
        raise Broken('no function of a regular expression engine is called')
    rev = {}
    for f, cs in p.calls.items():
        for c in cs:
            rev.setdefault(c, set()).add(f)
    reach = set(users); todo = list(users)
    while todo:
        for g in rev.get(todo.pop(), ()):
            if g not in reach:
                reach.add(g); todo.append(g)
    # functions that choose the engine: they reach functions of both engines (or would) and have the handle
    sel = member(p, 'cligen_handle', 'ch_regex_xsd')
    mg = member(p, 'cligen_handle', 'ch_magic')
    magic = None
    for b in p.defined['cligen_init'].blocks:
        for i in b:
            if i['op'] == 'store' and i['a'][0][0] == 'c':
                a = ir.addr(p.defined['cligen_init'], i['a'][1])
                if a and a[1] == mg[0]:
                    magic = i['a'][0][1]
    getters = {f for f in p.defined if f in ('cligen_regex_xsd',)}
    if not getters:
        raise Broken('the engine selection has no getter')
    gen = set(getters)
    # compiled expressions given to a public function: in the selected engine's compiled state
    ROOTS = [('match_regexp', None), ('cligen_regex_compile', None), ('cligen_regex_exec', 1), ('cligen_regex_free', 1)]
    single = [('cligen_regex_posix_compile', 'posix', None), ('cligen_regex_libxml2_compile', 'libxml2', None),
              ('cligen_regex_posix_exec', 'posix', 0), ('cligen_regex_libxml2_exec', 'libxml2', 0),
              ('cligen_regex_posix_free', 'posix', 0), ('cligen_regex_libxml2_free', 'libxml2', 0)]
    known = {r for r, _ in ROOTS} | {r for r, _, _ in single}
    # everything else that uses an engine directly is analysed on its own too
    for f in sorted(users - known):
        if p.defined[f].internal and f not in p.addrtaken:
            continue
        single.append((f, None, None))
    inner = {f for f in reach if p.defined[f].internal} | known | gen

    def go(f, eng, arg, handle):
        nonlocal exits, steps
        st = St(); args = []; fn = p.defined[f]
        hk = Rx(eng)
        for i, x in enumerate(fn.params):
            if x['t'] == 'ptr':
                if i == 0 and handle is not None:
                    cells = {'ch_regex_xsd': handle}
                    args.append(argobj(p, st, 0, 'cligen_handle', cells))
                    o, sz, ty = mg
                    if magic is not None:
                        st.mem[args[0][1]][o] = (('c', magic), lltype(sz, ty), ('cligen_handle', o))
                    continue
                s = T.get(('arg', i, 'ptr'), 1, INF); st.facts[s] = (1, INF, ()); args.append(ptrav(s))
                if i == arg:
                    st.mon = st.mon | {('X', ('D', s), eng)}
            else:
                args.append(symav(T.get(('in', f, i), *trange(width(x['t'])))))
        I, ex = results(p, f, args, st, [hk], maxinline=8, when=lambda g, a: g.name in inner or len(g.blocks) <= 2, exact=False, policy=POL20)
        steps += I.steps
        for k in n:
            n[k] += hk.n[k]
        ctxs.append('%s with %s' % (f, 'engine %s' % eng if eng else 'no engine'))
        what = '%s|%s' % (f, eng)
        for g, ins, msg, k in hk.bad:
            fs.append(finding('%s|%s|%s' % (what, g.name, k), '%s %s' % (g.loc(ins), g.name), '%s (in %s)' % (msg, f), 'one engine throughout'))
        for rv, s, ins in ex:
            exits += 1
            at = {}
            for b, cs in s.mem.items():
                for o, c in cs.items():
                    if isinstance(o, int):
                        v = norm(s, c[0])
                        if v[0] == 'p':
                            at.setdefault(v[1], []).append(b)
            for m in s.mon:
                if m[0] != 'X':
                    continue
                given = key(rv) == m[1] or any(b[0] == 'D' for b in at.get(m[1], ()))
                mine = m[1] in hk.where
                if mine and given and 'compile' in f:
                    continue
                if not mine and 'free' not in f and 'release' not in f:
                    continue
                g, wi = hk.where.get(m[1], (fn, ins))
                fs.append(finding('%s|%s|left' % (what, g.name), '%s %s' % (g.loc(wi), g.name),
                                  'the expression is not released when %s returns at %s' % (f, fn.loc(ins)), 'released once'))
            for b in hk.where:
                if 'compile' in f and rv is not None and rv[0] in ('c', 'z') and (rv[0] == 'z' or rv[1] <= 0) and \
                        any(m[0] == 'X' and m[1] == b for m in s.mon):
                    g, wi = hk.where[b]
                    fs.append(finding('%s|%s|refused' % (what, g.name), '%s %s' % (g.loc(wi), g.name),
                                      '%s reports failure but leaves a compiled expression' % f, 'released once'))
            if 'compile' in f and rv == ('c', 1) and not any(m[0] == 'X' and m[1] in hk.where for m in s.mon):
                fs.append(finding('%s|notcompiled' % what, '%s %s' % (fn.loc(ins), f), '%s reports success without a compiled expression' % f, 'compiled before run'))
        return ex
    for f, a in ROOTS:
        if f not in p.defined:
            raise Broken('%s is not there' % f)
        go(f, 'posix', a, 0)
        nz = T.get(('in', 'xsd'), 1, INF)
        go(f, 'libxml2', a, symav(nz))
    for f, e, a in single:
        if f in p.defined:
            go(f, e, a, None)
    if not all(n.values()):
        raise Broken('compile, run and release were not all followed: %s' % n)
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS[:2] + ['the engine selection of a session is not changed while an expression of it is in use'],
            'coverage': dict(p.stats(), contexts=ctxs, exits=exits, abstract_steps=steps, engine_calls=n,
                             explanation='compiled-expression typestate in %d function contexts, %d exits' % (len(ctxs), exits))}
