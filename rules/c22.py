"""C22: command callbacks run only when a command is evaluated.

1. Origin analysis of every call through a function pointer (through loads, phis, parameters and results of functions):
   the sites that run a command callback (member cc_fn_vec) and the sites that run a value-expansion function (member
   cgs_expandv_fn).  Call-graph reachability (pointers to library functions included) from every public function and
   every installed hook to those sites: only evaluation may reach the first, and the second only through pt_expand.
2. cligen_eval is analysed on a node with three callbacks: they run in order, each at most once, none after one has
   failed, and a failure is the result; without failure all of them have run.
3. Every caller of cligen_eval calls it only after parsing the line answered CG_MATCH, and hands its failure on."""
from scen import *
import ir

EVAL = {'cligen_eval', 'cliread_eval', 'cligen_loop', 'cligen_alias_call'}
EXPAND = EVAL | {'pt_expand', 'cliread_parse'}
# hooks of the terminal that complete and show help expand the tree they list
LISTING = {'cli_tab_hook', 'cli_qmark_hook'}


def origins(p, f, o, seen):
    """members (struct, offset), ('g', name), ('?',) a pointer value may come from"""
    out = set(); todo = [(f, list(o))]
    while todo:
        f, o = todo.pop()
        k = (f.name, tuple(o[:2]))
        if k in seen:
            continue
        seen.add(k)
        if o[0] == 'a':
            cs = p.callers.get(f.name, ())
            for g, ins in cs:
                if o[1] < len(ins['a']):
                    todo.append((g, ins['a'][o[1]]))
            continue
        if o[0] == 'f':
            out.add(('fn', o[1])); continue
        if o[0] == 'g':
            out.add(('g', o[1])); continue
        if o[0] != 'v':
            continue
        d = f.defs.get(o[1])
        if d is None:
            continue
        if d['op'] == 'phi':
            todo += [(f, x) for x, _ in d['inc']]
        elif d['op'] == 'select':
            todo += [(f, x) for x in d['a'][1:]]
        elif d['op'] in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
            todo.append((f, d['a'][0]))
        elif d['op'] == 'load':
            base, off, fld = ir.addr(f, d['a'][0])
            if fld:
                out.add(fld)
            elif base[0] == 'g':
                out.add(('g', base[1]))
            elif base[0] == 'v' and f.defs.get(base[1], {}).get('op') == 'alloca':
                # a local variable whose address is taken: what is stored into it here, or through it by callees
                for b in f.blocks:
                    for i in b:
                        if i['op'] == 'store' and ir.addr(f, i['a'][1])[0] == base:
                            todo.append((f, i['a'][0]))
                        if i['op'] == 'call' and i.get('fn') in p.defined:
                            for k2, x in enumerate(i['a']):
                                if ir.addr(f, x)[0] == base:
                                    todo += [(p.defined[i['fn']], v) for v in outstores(p, i['fn'], k2)]
            elif base[0] == 'a':
                out.add(('?', f.name))
        elif d['op'] == 'call':
            g = p.defined.get(d.get('fn'))
            if g is not None:
                for b in g.blocks:
                    if b[-1]['op'] == 'ret':
                        todo += [(g, x) for x in operands(b[-1])]
    return out


def outstores(p, n, k):
    f = p.defined[n]
    return [i['a'][0] for b in f.blocks for i in b if i['op'] == 'store' and ir.addr(f, i['a'][1])[0] == ('a', k)]


class Callbacks(Hook):
    def __init__(self, fns):
        self.fns = fns; self.bad = []; self.calls = 0; self.nodes = {}

    def access(self, I, fr, ins, st, p, write):
        # keeps the rounds of the loops over the list apart
        k = self.nodes.get(p[1])
        if k is not None and ('at', k) not in st.mon:
            st.mon = frozenset(m for m in st.mon if m[0] != 'at') | {('at', k)}

    def call(self, I, fr, ins, st, name, args):
        if name in self.fns:
            self.calls += 1
            seq = tuple(m[1] for m in sorted(st.mon, key=str) if m[0] == 'cb')
            if any(m[0] == 'failed' for m in st.mon):
                self.bad.append((fr.fn, ins, 'a callback runs although an earlier one has failed', 'after failure'))
            done = {m[1]: m[2] for m in st.mon if m[0] == 'cb'}
            if name in done:
                self.bad.append((fr.fn, ins, 'a callback runs twice', 'twice'))
                return []
            exp = self.fns[len(done)] if len(done) < len(self.fns) else None
            if name != exp:
                self.bad.append((fr.fn, ins, 'callback %s runs before %s' % (name, exp), 'order'))
            st.mon = st.mon | {('cb', name, len(done))}
            bad = st.copy()
            bad.mon = bad.mon | {('failed', name)}
            return [(symav(T.get(('in', 'cbok', name), 0, (1 << 31) - 1)), st), (symav(T.get(('in', 'cbneg', name), -(1 << 31), -1)), bad)]
        return None


class Parse(Hook):
    def __init__(self, p):
        self.p = p; self.bad = []; self.evals = 0
        f = p.defined['cliread_parse']
        self.k = [i - 1 for i, t in enumerate(f.sig) if i and t == 'cligen_result*']
        if len(self.k) != 1:
            raise Broken('cliread_parse has no result argument')
        self.E = symav(T.get(('in', 'evalfailed'), -(1 << 31), -1))

    def call(self, I, fr, ins, st, name, args):
        if name == 'cliread_parse':
            out = [(('c', -1), st.copy())]
            for nm, v in sorted(self.p.enumval.items()):
                if nm in ('CG_EOF', 'CG_ERROR', 'CG_NOMATCH', 'CG_MATCH', 'CG_MULTIPLE'):
                    s = st.copy()
                    a = norm(s, args[self.k[0]])
                    if a[0] != 'p' or not isinstance(a[2], int):
                        raise Broken('result argument of cliread_parse not understood')
                    m = dict(s.mem.get(a[1], {})); m[a[2]] = (('c', v), 'i32', ('t', 'i32')); s.mem[a[1]] = m
                    s.mon = frozenset(x for x in s.mon if x[0] != 'parsed') | {('parsed', nm)}
                    out.append((ZERO, s))
            return out
        if name == 'cliread':
            a = norm(st, args[1])
            if a[0] == 'p' and isinstance(a[2], int):
                m = dict(st.mem.get(a[1], {})); m[a[2]] = (I.fresh(st, fr, ins['i'], 'line', 'ptr', 0, INF), 'ptr', ('t', 'ptr')); st.mem[a[1]] = m
            return [(ZERO, st), (('c', -1), st.copy())]
        if name == 'cligen_eval' and fr.fn.name != name:
            self.evals += 1
            if ('parsed', 'CG_MATCH') not in st.mon:
                self.bad.append((fr.fn, ins, 'a command is evaluated although the line did not match one command', 'unmatched'))
            s = st.copy(); s.mon = s.mon | {('evalfail',)}
            return [(ZERO, st), (self.E, s)]
        return None


def run(tier):
    p = program()
    api = public_api(p)
    fs = []
    # 1. sites and reachability
    cbm = member(p, 'cg_callback', 'cc_fn_vec')[0]
    exm = member(p, 'cg_varspec', 'cgs_expandv_fn')[0]
    exo = member(p, 'cg_obj', 'cgs_expandv_fn')[0]
    CB = {('cg_callback', cbm)}; EX = {('cg_varspec', exm), ('cg_obj', exo)}
    sites = {'cb': [], 'ex': []}; ind = 0; targets = {}
    for f in p.defined.values():
        for ins in ir.calls(f):
            if ins.get('fn'):
                # a callback handed to code outside the library
                if ins['fn'] not in p.defined and not ins['fn'].startswith('llvm.'):
                    for o in ins['a']:
                        og = origins(p, f, o, set())
                        if og & CB and ins['fn'] not in ('fprintf', 'printf', 'snprintf'):
                            sites['cb'].append((f, ins))
                continue
            ind += 1
            og = origins(p, f, ins['callee'], set())
            if og & CB:
                sites['cb'].append((f, ins))
            if og & EX:
                sites['ex'].append((f, ins))
            t = {x[1] for x in og if x[0] == 'fn'}
            for x in og:
                if x[0] == 'g':
                    t |= {n for n, us in p.addrtaken.items() if any(i['op'] == 'store' and ir.addr(g, i['a'][1])[0] == x for g, i in us)}
                    # through a setter
            if t:
                targets.setdefault(f.name, set()).update(x for x in t if x in p.defined)
    if not sites['cb'] or not sites['ex']:
        raise Broken('no call of a command callback / expansion function found')
    edges = {n: set(c for c in p.calls[n] if c in p.defined) | targets.get(n, set()) for n in p.defined}

    def path(a, goal, cut=()):
        prev = {a: None}; t = [a]
        while t:
            n = t.pop(0)
            if n in goal:
                out = []
                while n is not None:
                    out.append(n); n = prev[n]
                return out[::-1]
            for c in sorted(edges[n]):
                if c not in prev and c not in cut:
                    prev[c] = n; t.append(c)
        return None
    roots = set(api) | {n for n in p.addrtaken if n in p.defined}
    # line editor hooks are reached from reading a line; they are roots of their own
    hooks = {n for n in p.addrtaken if n in p.defined}
    cbf = {f.name for f, _ in sites['cb']}; exf = {f.name for f, _ in sites['ex']}
    for r in sorted(roots):
        if r not in EVAL:
            q = path(r, cbf)
            if q:
                f, ins = next((f, i) for f, i in sites['cb'] if f.name == q[-1])
                fs.append(finding('callback|%s' % r, '%s %s' % (f.loc(ins), f.name), '%s runs command callbacks: %s' % (r, ' -> '.join(q)),
                                  'callbacks run by evaluation only'))
        if 'pt_expand' not in p.defined:
            raise Broken('pt_expand is not there')
        q = path(r, exf, {'pt_expand'}) if r != 'pt_expand' else None
        if q:
            f, ins = next((f, i) for f, i in sites['ex'] if f.name == q[-1])
            fs.append(finding('expand|%s' % r, '%s %s' % (f.loc(ins), f.name), '%s runs expansion functions without expanding a tree: %s' % (r, ' -> '.join(q)),
                              'expansion functions run by pt_expand only'))
    load = [a for a in api if a.startswith('clispec_parse') or re.match(r'(co|pt)_(print|dump)|cligen_print_trees|(co|pt)_(copy|dup|free)', a)]
    for r in sorted(load):
        q = path(r, exf)
        if q:
            f, ins = next((f, i) for f, i in sites['ex'] if f.name == q[-1])
            fs.append(finding('expandload|%s' % r, '%s %s' % (f.loc(ins), f.name), '%s expands values: %s' % (r, ' -> '.join(q)),
                              'loading, printing and copying expand nothing'))
    # 2. evaluation
    if 'cligen_eval' not in p.defined:
        raise Broken('cligen_eval is not there')
    ev = p.defined['cligen_eval']
    if ev.sig[1:] != ['cligen_handle', 'cg_obj*', 'cvec*']:
        raise Broken('cligen_eval has other arguments')
    reachcb = {n for n in p.defined if path(n, cbf)}
    configs = [(1, 1, 1), (1, 0, 1), (0, 1, 1), (1, 1, 0), (1, 2, 1), (2, 1, 1)]   # 0: no function; 2: pipe function
    ecalls = 0
    pipef = 2 if 'CC_FLAGS_PIPE_FUNCTION' in p.enumval else 1
    for cf in configs:
        st = St()
        fns = ['app_callback_%d' % i for i, c in enumerate(cf) if c == 1]
        nxt = ZERO; nodes = {}
        for i in reversed(range(3)):
            b = ('D', T.get(('in', 'cc', i), 1, INF))
            st.facts[b[1]] = (1, INF, ())
            cells = {}
            for nm, v in (('cc_next', nxt), ('cc_fn_vec', ('f', 'app_callback_%d' % i) if cf[i] else ZERO),
                          ('cc_flags', ('c', 1 if cf[i] == 2 else 0))):
                o, sz, ty = member(p, 'cg_callback', nm)
                cells[o] = (v, lltype(sz, ty), ('cg_callback', o))
            st.mem[b] = cells; nodes[b] = i
            nxt = ('p', b, 0)
        co = argobj(p, st, 1, 'cg_obj', {'coc_callbacks': nxt}, 'evalco')
        h = T.get(('arg', 0, 'ptr'), 1, INF); st.facts[h] = (1, INF, ())
        cv = T.get(('arg', 2, 'ptr'), 1, INF); st.facts[cv] = (1, INF, ())
        hk = Callbacks(fns); hk.nodes = nodes
        small = lambda fn, a: fn.name in reachcb and fn.name not in EVAL - {'cligen_eval'} or (fn.nins <= 25 and len(fn.params) <= 2)
        I, ex = results(p, 'cligen_eval', [ptrav(h), co, ptrav(cv)], st, [hk], maxinline=6, when=small, exact=False)
        ecalls += hk.calls
        for g, ins, msg, k in hk.bad:
            fs.append(finding('eval|%s' % k, '%s %s' % (g.loc(ins), g.name), msg, 'order of callbacks'))
        if not ex:
            raise Broken('cligen_eval has no result')
        full = False
        for rv, s, ins in ex:
            failed = any(m[0] == 'failed' for m in s.mon)
            neg = interval(s, rv)[1] < 0 if lin(rv) else False
            if failed and not neg:
                fs.append(finding('eval|lost failure', '%s cligen_eval' % ev.loc(ins), 'a failed callback is not the result of the evaluation', 'failure reported'))
            if not failed and not neg:
                done = {m[1] for m in s.mon if m[0] == 'cb'}
                full = full or len(done) == len(fns)
                if len(done) != len(fns):
                    fs.append(finding('eval|skipped', '%s cligen_eval' % ev.loc(ins), 'evaluation succeeds without running every callback of the command', 'all callbacks run'))
        if not full:
            fs.append(finding('eval|never complete', '%s cligen_eval' % ev.loc(ex[0][2]), 'no evaluation runs all callbacks of the command', 'all callbacks run'))
    if not ecalls:
        raise Broken('cligen_eval runs no callback')
    # 3. callers
    callers = sorted({f.name for f, _ in p.callers.get('cligen_eval', ())})
    tops = set()
    for n in callers:
        # private helpers are analysed inside the functions that use them
        todo = [n]; seen = set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if p.defined[x].internal and x not in p.addrtaken and p.callers.get(x):
                todo += [f.name for f, _ in p.callers[x]]
            else:
                tops.add(x)
    tocall = {n for n in p.defined if path(n, {'cligen_eval'})}
    evals = 0
    for n in sorted(tops):
        f = p.defined[n]
        st = St(); args = []; cbp = None
        for i, x in enumerate(f.params):
            t = f.sig[i + 1]
            if x['t'] != 'ptr':
                args.append(symav(T.get(('in', n, i), *trange(width(x['t']))))); continue
            if t.endswith('*') and t.rstrip('*') in ('int', 'cligen_result') or t.endswith('**'):
                b = ('A', 'out', n, i)
                st.mem[b] = {0: (symav(T.get(('in', n, i, 'old'), *trange(32))) if not t.endswith('**') else ZERO, 'i32' if not t.endswith('**') else 'ptr', ('t', 'i32'))}
                args.append(('p', b, 0))
                if t == 'int*':
                    cbp = b
                continue
            s = T.get(('arg', i, 'ptr'), 1, INF); st.facts[s] = (1, INF, ())
            args.append(ptrav(s))
        hk = Parse(p)
        I, ex = results(p, n, args, st, [hk], maxinline=4, when=lambda fn, a: fn.name in tocall, exact=False)
        evals += hk.evals
        for g, ins, msg, k in hk.bad:
            fs.append(finding('caller|%s|%s' % (n, k), '%s %s' % (g.loc(ins), g.name), msg, 'only a matched command is evaluated'))
        if not hk.evals and n != 'cligen_loop':
            raise Broken('%s evaluates nothing' % n)
        for rv, s, ins in ex:
            if ('evalfail',) not in s.mon or rv is None or n == 'cligen_loop':
                continue
            if lin(rv) and interval(s, rv)[1] < 0:
                continue
            c = s.mem.get(cbp, {}).get(0) if cbp else None
            if c is not None and interval(s, norm(s, c[0]))[1] < 0:
                continue
            fs.append(finding('caller|%s|lost' % n, '%s %s' % (f.loc(ins), n), 'a failed evaluation is not handed to the caller', 'failure reported'))
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS[:2] + ['a callback or expansion function does not itself call back into evaluation unless it is one of %s' % sorted(EVAL)],
            'coverage': dict(p.stats(), indirect_call_sites=ind, callback_sites=['%s %s' % (f.loc(i), f.name) for f, i in sites['cb']],
                             expansion_sites=['%s %s' % (f.loc(i), f.name) for f, i in sites['ex']], roots=len(roots),
                             evaluation_configurations=len(configs), callback_calls_followed=ecalls, callers=sorted(tops), evaluations_in_callers=evals,
                             explanation='reachability from %d entry points to %d callback and %d expansion call sites; evaluation in %d callback configurations; %d callers' % (
                                 len(roots), len(sites['cb']), len(sites['ex']), len(configs), len(tops)))}
