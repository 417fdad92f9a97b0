"""C25: a hidden command is never suggested, and still runs when typed in full.

1. Expansion: pt_expand is analysed on a tree whose nodes are all hidden.  Told to leave out hidden nodes it adds none to
   the new tree; told to include them, it adds the node.
2. Listing: from the hooks of the terminal (help and completion) constants are propagated through the calls that can
   reach the matcher.  Every tree that is matched against, or printed, was expanded without hidden nodes or is the
   result of such a match.  Calls that can hand out neither nodes nor text are tests only and are left out.
3. Evaluation: from the public functions that parse a line, every tree that is matched against was expanded with hidden
   nodes included.
4. The mark survives: every node copier keeps it, no other code clears it, and where the specification is read a
   command or mode with the variable "hide" gets it."""
from scen import *
import ir

COPIERS = {'co_copy': (0, 3), 'co_copy1': (0, 4), 'co_expand_sub': (0, 2)}
OUTP = ('cg_obj**', 'char**', 'match_result**', 'parse_tree**', 'cbuf*', 'FILE*', 'parse_tree*', 'match_result*')
POL25 = {'callback': False, 'strict': False, 'failclass': lambda n: None, 'coarse': 200000, 'maxblocks': 100000}


def FLAGS(o):
    return ('cg_obj_common', o)


def canon(st, name):
    s = T.get(('in', name), 1, INF); st.facts[s] = (1, INF, ())
    return ptrav(s)


class Expand(Hook):
    """pt_expand on hidden nodes"""
    def __init__(self, p, ptn, lenoff, flagsoff, typeoff, one, kind):
        self.p = p; self.ptn = ptn; self.lo = lenoff; self.fo = flagsoff; self.to = typeoff; self.one = one; self.kind = kind
        self.bad = {}; self.nodes = 0; self.calls_ = set()

    def call(self, I, fr, ins, st, name, args):
        if name == 'pt_vec_i_get':
            self.nodes += 1
            v = canon(st, 'node'); b = v[1]
            m = st.mem.setdefault(b, {})
            fl = symav(T.get(('op', 'or', symav(T.get(('in', 'flags'), *trange(32))), ('c', 1)), *trange(32)))
            m = dict(m); m[self.fo] = (fl, 'i32', FLAGS(self.fo))
            if self.kind is not None:
                m[self.to] = (('c', self.kind), 'i32', FLAGS(self.to))
            st.mem[b] = m
            return [(v, st)]
        if name == 'pt_len_get':
            if norm(st, args[0]) == self.ptn:
                return [(ZERO if not self.one else ('c', sum(1 for m in st.mon if m == ('added',))), st)]
            return [(('c', 1), st)] if self.one else None
        if name == 'cvec_each' and self.one:
            return [(ZERO, st)]
        if name and name in self.p.defined and any(norm(st, a) == self.ptn for a in args) and ('parse_tree', self.lo) in I.mod.get(name, ()) \
                and not I.inline_when(self.p.defined[name], args):
            st.mon = st.mon | {('added',)}
            if not self.one and 'sort' not in name:
                from interp import trail
                self.bad.setdefault((fr.fn.name, name), (fr.fn.loc(ins), trail(st.tr)))
            return None
        return None

    def store(self, I, fr, ins, st, base, off, v):
        if ('p', base, 0) == self.ptn and off == self.lo:
            st.mon = st.mon | {('added',)}
            if not self.one:
                self.bad.setdefault((fr.fn.name, 'store'), (fr.fn.loc(ins), ()))


def expansion(p, fs):
    f = p.defined.get('pt_expand')
    if f is None:
        raise Broken('pt_expand is not there')
    lenoff = member(p, 'parse_tree', 'pt_len')[0]
    fo = member(p, 'cg_obj', 'coc_flags')[0]; to = member(p, 'cg_obj', 'coc_type')[0]
    trees = [i for i, t in enumerate(f.sig[1:]) if t == 'parse_tree*']; ints = [i for i, t in enumerate(f.sig[1:]) if t == 'int']
    if len(trees) != 2 or len(ints) != 2:
        raise Broken('pt_expand has another signature')
    out = 0
    ref, = [v for k, v in p.enumval.items() if k == 'CO_REFERENCE']
    for hide, one, kind, expandvar in ((1, False, None, None), (0, True, enum(p, 'CO_COMMAND'), None)):
        st = St(); args = []
        for i, x in enumerate(f.params):
            if i == ints[0]:
                args.append(('c', hide))
            elif i in trees:
                args.append(canon(st, ('pt', 'ptn')[trees.index(i)]))
            elif f.sig[i + 1] == 'cg_obj*' and one:
                args.append(ZERO)
            elif x['t'] == 'ptr':
                args.append(ptrav(T.get(('arg', i, 'ptr'), 0, INF)))
            else:
                args.append(symav(T.get(('in', i), *trange(width(x['t'])))))
        ptn = norm(st, args[trees[1]])
        h = Expand(p, ptn, lenoff, fo, to, one, kind)
        I, ex = results(p, 'pt_expand', args, st, [h], maxinline=5, exact=False, policy=POL25,
                        when=lambda fn, a: fn.nins < 25 and fn.name not in ('pt_realloc',) and not any(x == ptn for x in a) or fn.internal and any(x == ptn for x in a) and fn.name not in ('pt_expand_fn', 'pt_expand_choice'))
        if not h.nodes:
            raise Broken('pt_expand takes no nodes from its tree')
        for (g, n), (loc, tr) in sorted(h.bad.items()):
            fs.append(finding('expand|%s|%s' % (g, n), '%s %s' % (loc, g), 'a node is added to the expanded tree although the node it stems from is hidden and hidden nodes are to be left out', 'hidden nodes left out', tr))
        for rv, s, ins in ex:
            out += 1
            if one and rv is not None and decide(s, 'slt', rv, ZERO) is not True and ('added',) not in s.mon:
                fs.append(finding('expand|dropped', '%s pt_expand' % f.loc(ins), 'a hidden command is left out of a tree expanded with hidden commands included', 'hidden nodes included'))
    return out


def flag(st, a):
    a = norm(st, a)
    if isconst(a) and cval(a) in (0, 1):
        return cval(a)
    return None


class Flow(Hook):
    def __init__(self, p, M, show, mode):
        self.p = p; self.M = M; self.show = show; self.mode = mode; self.param = {}; self.needed = set(); self.bad = {}; self.sites = set(); self.tests = set(); self.exp = 0
        f = p.defined['pt_expand']
        self.trees = [i for i, t in enumerate(f.sig[1:]) if t == 'parse_tree*']; self.hide = [i for i, t in enumerate(f.sig[1:]) if t == 'int'][0]

    def good(self, st, v):
        v = norm(st, v)
        return v[0] == 'p' and ('tree', v[1]) in st.mon

    def mark(self, st, v):
        v = norm(st, v)
        if v[0] == 'p':
            st.mon = st.mon | {('tree', v[1])}

    def call(self, I, fr, ins, st, name, args):
        p = self.p
        if name == 'pt_expand':
            self.exp += 1
            h = norm(st, args[self.hide])
            want = decide(st, 'ne' if self.mode == 'list' else 'eq', h, ZERO) is True
            v = norm(st, args[self.trees[1]])
            I.apply(fr, ins, st, p.defined[name], args)
            if v[0] == 'p':
                st.mon = st.mon - {('tree', v[1])}
                st.mem[v[1]] = {'*': (('any',), None)}
            bad = st.copy()
            if want:
                self.mark(st, v)
            r = T.get(('in', 'err'), -1, -1)
            return [(ZERO, st), (('c', -1), bad)]
        if name == 'mr_pt_get':
            v = canon(st, ('mrpt', fr.fn.name, ins['i']))
            self.mark(st, v)
            return [(v, st)]
        if name == 'pt_vec_i_get' and self.mode == 'list' and not self.good(st, args[0]) and norm(st, args[0])[1:2] and norm(st, args[0])[1] not in self.param:
            s = T.get(('in', 'rawnode'), 0, INF)
            return [(ptrav(s), st)]
        if name == 'pt_vec_i_get':
            v = norm(st, args[0])
            if v[0] == 'p' and v[1] in self.param:
                st.mon = st.mon | {('used', self.param[v[1]])}
            return None
        if name == 'mr_pt_append':
            self.needed |= {m[1] for m in st.mon if m[0] == 'used'}
            return None
        f = p.defined.get(name)
        if f is None:
            return None
        if self.mode == 'list' and (name in self.M or name in self.show):
            for i, t in enumerate(f.sig[1:]):
                if i < len(args) and t == 'cg_obj*':
                    v = norm(st, args[i])
                    if v[0] == 'p' and v[1][0] == 'D' and T.desc[v[1][1]] == ('in', 'rawnode'):
                        self.report(fr, ins, st, name, 'a node of a tree not shown to be without hidden nodes is passed to %s' % name)
        if name in self.M or (self.mode == 'list' and name in self.show):
            outs = [i for i, t in enumerate(f.sig[1:]) if t in OUTP and t != 'parse_tree*' and i < len(args)]
            if self.mode == 'list' and outs and all(norm(st, args[i])[0] in 'cz' and decide(st, 'eq', args[i], ZERO) for i in outs) and name in self.M:
                self.tests.add((fr.fn.name, fr.fn.loc(ins), name))
                return None
            self.sites.add((fr.fn.name, fr.fn.loc(ins), name))
            req = None
            if name in self.M:
                req = self.need(name, tuple(flag(st, a) if t == 'int' else None for a, t in zip(args, f.sig[1:])))
            for i, t in enumerate(f.sig[1:]):
                if t == 'parse_tree*' and i < len(args) and (req is None or i in req) and not self.good(st, args[i]):
                    v = norm(st, args[i])
                    if v[0] == 'p' and v[1] in self.param:
                        self.needed.add(self.param[v[1]]); continue
                    self.report(fr, ins, st, name, 'a tree not shown to be expanded %s is passed to %s' % (
                        'without hidden commands' if self.mode == 'list' else 'with hidden commands included', name))
        return None

    def report(self, fr, ins, st, name, msg):
        from interp import trail
        self.bad.setdefault((fr.fn.name, name), (fr.fn.loc(ins), msg, trail(st.tr)))


def flow(p, M, show, mode, roots, fs, cov):
    seen = {}; sites = set(); tests = set(); nexp = [0]; req = {}

    def need(n, consts):
        """the tree parameters that have to be expanded already"""
        f = p.defined[n]
        if (n, consts) in seen:
            r = seen[(n, consts)]
            return {i for i, t in enumerate(f.sig[1:]) if t == 'parse_tree*'} if r is None else r
        seen[(n, consts)] = None
        if len(seen) > 80:
            raise Broken('too many contexts')
        st = St(); args = []
        h = Flow(p, M, show, mode)
        h.need = need
        for i, x in enumerate(f.params):
            if x['t'] == 'ptr':
                if f.sig[i + 1] == 'parse_tree*':
                    args.append(canon(st, ('tree', n, i))); h.param[args[-1][1]] = i
                else:
                    s = T.get(('arg', i, 'ptr'), 0, INF); args.append(ptrav(s))
            elif consts and consts[i] is not None:
                args.append(('c', consts[i]))
            else:
                args.append(symav(T.get(('in', n, i), *trange(width(x['t'])))))
        I, ex = results(p, n, args, st, [h], maxinline=3, exact=False, policy=POL25,
                        when=lambda fn, a: fn.name not in M and fn.nins < 30 and fn.name not in ('pt_expand', 'mr_pt_get'))
        for (g, t), (loc, msg, tr) in sorted(h.bad.items()):
            fs.append(finding('%s|%s|%s' % (mode, g, t), '%s %s' % (loc, g), msg, {'list': 'listing', 'eval': 'evaluation'}[mode], tr))
        sites.update(h.sites); tests.update(h.tests); nexp[0] += h.exp
        seen[(n, consts)] = h.needed
        req['%s %s' % (n, list(consts) if consts else '')] = sorted(h.needed)
        return h.needed
    for n in roots:
        need(n, None)
    cov[mode] = {'expanded_parameters': req, 'contexts': sorted('%s %s' % (n, list(c) if c else '') for n, c in seen), 'calls': len(sites), 'expansions': nexp[0],
                 'tests_only': sorted('%s %s: %s' % (l, g, n) for g, l, n in tests)}
    return seen


def bit(I, st, v):
    if v is None:
        return False
    z, o = I.knownbits(st, v)
    return bool(o & 1)


def copies(p, fs):
    fo = member(p, 'cg_obj', 'coc_flags')[0]; to = member(p, 'cg_obj', 'coc_type')[0]
    n_ = 0
    for n, (si, di) in sorted(COPIERS.items()):
        if n not in p.defined:
            raise Broken('%s is not there' % n)
        f = p.defined[n]
        for kind in ('CO_COMMAND', 'CO_VARIABLE'):
            st = St(); args = []
            for i, x in enumerate(f.params):
                if i == si:
                    v = argobj(p, st, i, 'cg_obj', {'coc_type': enum(p, kind)}); b = v[1]
                    fl = symav(T.get(('op', 'or', symav(T.get(('in', 'flags'), *trange(32))), ('c', 1)), *trange(32)))
                    st.mem[b][fo] = (fl, 'i32', FLAGS(fo)); args.append(v)
                elif i == di:
                    b = ('A', 'out', 0); st.mem[b] = {0: (ZERO, 'ptr', ('t', 'ptr'))}; args.append(('p', b, 0))
                elif x['t'] == 'ptr':
                    args.append(ptrav(T.get(('arg', i, 'ptr'), 0, INF)))
                else:
                    args.append(symav(T.get(('in', n, i), *trange(width(x['t'])))))
            I, ex = results(p, n, args, st, [], maxinline=4, exact=False, policy=dict(POL25, allocfail=False),
                            spare={k: frozenset([FLAGS(fo)]) for k in ('pt_dup', 'pt_copy', 'co_callback_copy', 'cvec_dup', 'co_filter_set', 'co_pt_set') if k in p.defined},
                            when=lambda fn, a: fn.name in COPIERS and fn.name != n or fn.nins < 110 and fn.name not in ('cvec_dup', 'co_free', 'pt_dup', 'pt_free', 'co_callback_copy', 'co_pt_set', 'co_filter_set'))
            got = 0
            for rv, s, ins in ex:
                if rv is not None and decide(s, 'slt', rv, ZERO) is True:
                    continue
                c = s.mem.get(('A', 'out', 0), {}).get(0)
                v = norm(s, c[0]) if c else None
                if v is None or v[0] != 'p':
                    continue
                got += 1; n_ += 1
                w = norm(s, I.load(s, v[1], fo, 'i32', ('cg_obj', fo), mat=False))
                if not bit(I, s, w):
                    fs.append(finding('copy|%s' % n, '%s %s' % (f.loc(ins), n), 'the copy of a hidden node is not shown to be hidden', 'mark kept by copies'))
                    break
            if not got:
                raise Broken('%s: no copy seen' % n)
    return n_


def cleared(p, fs):
    """no code but the copiers' helpers takes the mark away"""
    fo = member(p, 'cg_obj', 'coc_flags')[0]; n_ = 0
    setters = {}
    for n, f in sorted(p.defined.items()):
        for b in f.blocks:
            for i in b:
                if i['op'] == 'store' and ir.field(f, i['a'][1]) == FLAGS(fo):
                    n_ += 1
                    d = f.defs.get(i['a'][0][1]) if i['a'][0][0] == 'v' else None
                    if d is None or d['op'] == 'load':
                        fs.append(finding('clear|%s' % n, '%s %s' % (f.loc(i), n), 'the marks of a node are replaced', 'mark kept')) if d is None else None
                        continue
                    if d['op'] == 'or':
                        continue
                    if d['op'] == 'and':
                        k = [o for o in d['a'] if o[0] == 'c']
                        if k:
                            if not k[0][1] & 1:
                                fs.append(finding('clear|%s' % n, '%s %s' % (f.loc(i), n), 'the hidden mark of a node is taken away', 'mark kept'))
                            continue
                        # mask from a parameter: its complement is given at the call sites
                        m = [f.defs.get(o[1]) for o in d['a'] if o[0] == 'v']
                        par = [o[1] for x in m if x and x['op'] == 'xor' for o in x['a'] if o[0] == 'a']
                        if par:
                            setters[n] = par[0]; continue
                    fs.append(finding('clear|%s' % n, '%s %s' % (f.loc(i), n), 'the hidden mark of a node is not shown to be kept', 'mark kept'))
    def const(f, o):
        o, d = ir.strip(f, o)
        while o[0] == 'v' and d is not None and d['op'] in ('ptrtoint', 'inttoptr'):
            o, d = ir.strip(f, d['a'][0])
        if o[0] == 'c':
            return o[1]
        return None if o[0] != 'a' else ('a', o[1])
    # the mask given at each call, through functions that hand it on (also as the argument of an applied function)
    todo = list(setters.items()); done = set()
    while todo:
        n, k = todo.pop()
        if (n, k) in done:
            continue
        done.add((n, k))
        for g, f in sorted(p.defined.items()):
            for b in f.blocks:
                for i in b:
                    if i['op'] != 'call':
                        continue
                    if i.get('fn') == n and k < len(i['a']):
                        v = const(f, i['a'][k]); n_ += 1
                        if isinstance(v, tuple):
                            todo.append((g, v[1]))
                        elif v is None or v & 1:
                            fs.append(finding('clear|%s' % g, '%s %s' % (f.loc(i), g), 'the hidden mark of a node is%s taken away' % ('' if v is not None else ' not shown not to be'), 'mark kept'))
                    elif any(o[0] == 'f' and o[1] == n for o in i['a']):
                        # applied to the nodes of a tree: the argument follows
                        n_ += 1
                        v = const(f, i['a'][-1])
                        if isinstance(v, int) and v & 1:
                            fs.append(finding('clear|%s' % g, '%s %s' % (f.loc(i), g), 'the hidden mark of a node is taken away', 'mark kept'))
    return n_


class Parse(Hook):
    def __init__(self, p):
        self.p = p; self.bad = []; self.found = 0; self.fo = member(p, 'cg_obj', 'coc_flags')[0]

    def call(self, I, fr, ins, st, name, args):
        if name and name.startswith('cvec_find') and any(gtext(self.p, o) == 'hide' for o in ins['a']):
            self.found += 1
            if ('hide',) in st.mon:
                self.bad.append((fr.fn, ins))
            st.mon = st.mon - {('hide',)}
            s2 = st.copy()
            st.mon = st.mon | {('hide',)}
            return [(canon(st, 'hidevar'), st), (ZERO, s2)]
        return None

    def store(self, I, fr, ins, st, base, off, v):
        if ins['op'] == 'store' and ir.field(fr.fn, ins['a'][1]) == FLAGS(self.fo) and bit(I, st, v):
            st.mon = st.mon - {('hide',)}


def gtext(p, o):
    g = p.globals.get(o[1]) if o[0] == 'g' else None
    i = (g or {}).get('init') or {}
    return (i.get('s') or '').rstrip('\0') or None


def parsing(p, fs):
    sites = []
    for n, f in sorted(p.defined.items()):
        if any(i['op'] == 'call' and (i.get('fn') or '').startswith('cvec_find') and any(gtext(p, o) == 'hide' for o in i['a']) for b in f.blocks for i in b):
            sites.append(n)
    for n in sites:
        f = p.defined[n]; st = St(); args = []
        for i, x in enumerate(f.params):
            args.append(canon(st, ('arg', i)) if x['t'] == 'ptr' else symav(T.get(('in', n, i), *trange(width(x['t'])))))
        h = Parse(p)
        I, ex = results(p, n, args, st, [h], maxinline=2, exact=False, policy=POL25, when=lambda fn, a: fn.nins < 20)
        for rv, s, ins in ex:
            if ('hide',) in s.mon and not (rv is not None and decide(s, 'slt', rv, ZERO)):
                h.bad.append((f, ins))
        if not h.found:
            raise Broken('%s: "hide" not looked up' % n)
        for g, ins in h.bad[:1]:
            fs.append(finding('parse|%s' % n, '%s %s' % (g.loc(ins), n), 'a command with the variable "hide" is not marked hidden', 'mark set when read'))
    # both places where commands get their variables
    for n in ('cgy_terminal', 'ctx_push'):
        if n in p.defined and n not in sites and not set(p.calls[n]) & set(sites):
            fs.append(finding('parse|%s' % n, n, 'the variable "hide" of a command is not looked at', 'mark set when read'))
    return sites


def run(tier):
    p = program(); fs = []; cov = {}
    rev = {}
    for n, cs in p.calls.items():
        for c in cs:
            rev.setdefault(c, set()).add(n)
    if 'mr_pt_append' not in p.defined:
        raise Broken('mr_pt_append is not there')
    M = set(); todo = ['mr_pt_append']
    while todo:
        for g in rev.get(todo.pop(), ()):
            if g not in M:
                M.add(g); todo.append(g)
    show = {n for n, f in p.defined.items() if any(t == 'parse_tree*' for t in f.sig[1:]) and any(t in ('FILE*', 'cbuf*') for t in f.sig[1:])}
    api = public_api(p)
    # functions that are installed as terminal hooks
    hooks = {i['a'][0][1] for f in p.defined.values() for b in f.blocks for i in b
             if i['op'] == 'store' and i['a'][0][0] == 'f' and i['a'][0][1] in M and i['a'][1][0] == 'g'}
    if len(hooks) < 2:
        raise Broken('only %d hooks that list commands found' % len(hooks))
    ev = {n for n in M if n in api and not p.defined[n].internal}
    n1 = expansion(p, fs)
    flow(p, M, show, 'list', sorted(hooks), fs, cov)
    flow(p, M, show, 'eval', sorted(ev), fs, cov)
    n4 = copies(p, fs); n5 = cleared(p, fs); sites = parsing(p, fs)
    if cov['list']['expansions'] < 3 or cov['eval']['expansions'] < 2:
        raise Broken('expansions found: %d for listing, %d for evaluation' % (cov['list']['expansions'], cov['eval']['expansions']))
    uniq = {x['key']: x for x in fs}
    return {'findings': list(uniq.values()), 'assumptions': ENGINE_ASSUMPTIONS[:2] + [
        'a tree that a caller of the library passes to match_complete or match_pattern was expanded as the library does it',
        'nodes added by pt_expand for the values of a variable are as visible as the variable'],
        'coverage': dict(p.stats(), expansion_exits=n1, listing=cov['list'], evaluation=cov['eval'], copies=n4, mark_changes=n5, specification_readers=sites,
                         explanation='%d listing and %d evaluation contexts, %d expansions, %d copies, %d places that change marks' % (
                             len(cov['list']['contexts']), len(cov['eval']['contexts']), cov['list']['expansions'] + cov['eval']['expansions'], n4, n5))}
