"""C11: a reason exactly for a refusal.  Every function that parses or validates a value and hands out a reason is
analysed with an empty reason variable: on every path, result 0 comes with a non-null reason, and every other result
with none.  The assertions that guard this in the code must be unreachable."""
import c26
from scen import *

FAMILY = re.compile(r'^(parse_|cv_parse1$|cv_validate$|match_variable$|match_object$)')
FATAL = re.compile(r'^(outof)')


class Asserts(Hook):
    def __init__(self, contract=()):
        self.hit = {}; self.contract = contract

    def call(self, I, fr, ins, st, name, args):
        if name == '__assert_fail':
            self.hit[(fr.fn.name, fr.fn.loc(ins))] = True
        if name in self.contract and fr.fn.name != name:
            if name == 'match_regexp':
                out = []
                for v in (-1, 0, 1):
                    out.append((('c', v), st.copy()))
                return out
            a = norm(st, args[-1])
            out = [(('c', -1), st.copy()), (('c', 1), st.copy())]
            s2 = st.copy()
            if a[0] == 'p' and isinstance(a[2], int):
                s2.mem[a[1]] = dict(s2.mem.get(a[1], {}))
                s2.mem[a[1]][a[2]] = (I.fresh(s2, fr, ins['i'], 'why', 'ptr', 1, INF), 'ptr', ('t', 'ptr'))
            out.append((ZERO, s2))
            return out
        return None


def run(tier):
    p = program()
    fs = []; done = []; exits = 0; seen = set()
    names = [n for n in sorted(p.defined) if FAMILY.match(n) and p.defined[n].sig[-1] == 'char**' and p.defined[n].sig[0] == 'int']
    if len(names) < 16:
        raise Broken('only %d parsing functions with a reason found' % len(names))

    def when(fn, a):
        return 'char**' in fn.sig[1:] or (len(fn.params) <= 2 and fn.nins < 60 and fn.file.endswith(('cligen_cv.c', 'cligen_cvec.c', 'cligen_object.c'))) or \
            fn.internal and not fn.headers and fn.nins < 60 and fn.name not in p.addrtaken

    variants = {'cv_parse1': 'cg_var', 'cv_validate': 'cg_varspec', 'match_object': 'cg_obj', 'match_variable': 'cg_obj'}
    if 'match_regexp' not in p.defined:
        raise Broken('match_regexp is not there')
    for rv, s, ins in results(p, 'match_regexp', [ptrav(T.get(('arg', 0, 'ptr'), 1, INF))] + [ptrav(T.get(('arg', i, 'ptr'), 0, INF)) for i in (1, 2)] +
                              [symav(T.get(('in', 'inv'), *trange(32)))], St(), exact=False)[1]:
        lo, hi = interval(s, rv)
        if lo < -1 or hi > 1:
            fs.append(finding('match_regexp', '%s match_regexp' % p.defined['match_regexp'].loc(ins), 'result other than -1, 0, 1', 'result of a match'))
    for n in names:
        f = p.defined[n]
        runs = [None]
        if n in ('cv_parse1', 'cv_validate', 'match_variable'):
            runs = sorted(x for x in p.enumval if x.startswith('CGV_'))
        elif n == 'match_object':
            runs = ['CO_COMMAND', 'CO_VARIABLE', 'CO_REFERENCE', 'CO_EMPTY']
        for r in runs:
            st = St(); args = []
            R = ('A', 'reason', 0)
            st.mem[R] = {0: (ZERO, 'ptr', ('t', 'ptr'))}
            for i, x in enumerate(f.params):
                if i == len(f.params) - 1:
                    args.append(('p', R, 0))
                elif x['t'] == 'ptr':
                    t = f.sig[i + 1].rstrip('*')
                    if r and t == 'cg_var' and n == 'cv_parse1':
                        args.append(argobj(p, st, i, 'cg_var', {'var_type': enum(p, r)}))
                    elif r and t == 'cg_varspec':
                        args.append(argobj(p, st, i, 'cg_varspec', {'cgs_vtype': enum(p, r)}))
                    elif r and t == 'cg_obj' and r.startswith('CGV'):
                        args.append(argobj(p, st, i, 'cg_obj', {'coc_type': enum(p, 'CO_VARIABLE'), 'cgs_vtype': enum(p, r)}))
                    elif r and t == 'cg_obj':
                        args.append(argobj(p, st, i, 'cg_obj', {'coc_type': enum(p, r)}))
                    else:
                        s = T.get(('arg', i, 'ptr'), 0, INF)
                        if not (n in ('match_object', 'cv_parse1') and t in ('char', 'const char')):
                            st.facts[s] = (1, INF, ())
                        args.append(ptrav(s))
                else:
                    args.append(symav(T.get(('in', n, i), *trange(width(x['t'])))))
            top = n.startswith('match_')
            # what the functions called have shown to keep themselves
            h = Asserts({'match_regexp', 'cv_parse1', 'cv_validate', 'match_variable'} - {n} if top else {'match_regexp'})
            I, ex = results(p, n, args, st, [h], maxinline=6, when=when, exact=top)
            what = n + (' (%s)' % r if r else '')
            done.append(what)

            def bad(k, ins, msg):
                if (n, k) not in seen:
                    seen.add((n, k))
                    fs.append(finding('reason|%s|%s' % (n, k), '%s %s' % (f.loc(ins), n), '%s: %s' % (what, msg), 'reason if and only if refused'))
            if not ex:
                raise Broken('%s: no result' % what)
            for rv, s, ins in ex:
                exits += 1
                c = s.mem.get(R, {}).get(0)
                v = norm(s, c[0]) if c else ('any',)
                isn = v == ZERO or decide(s, 'eq', v, ZERO) is True
                non = v != ZERO and nonnull(s, v) if v[0] in ('p', 'f') else False
                z = decide(s, 'eq', rv, ZERO)
                if z is not False and not non:
                    bad('missing', ins, 'refuses the value without giving a reason' if isn else 'may refuse the value without giving a reason')
                if z is not True and not isn:
                    bad('extra', ins, 'gives a reason although the value is not refused')
            for (fn, loc) in h.hit:
                if not generated(loc):
                    k = (n, 'assert', fn)
                    if k not in seen:
                        seen.add(k)
                        fs.append(finding('assert|%s|%s' % (n, fn), '%s %s' % (loc, fn), '%s: the assertion on the reason in %s may fail' % (what, fn), 'reason if and only if refused'))
    # a level of the syntax where no variable accepts the token: a reason is kept, and it is the reason of one of them
    levels = 0
    f = p.defined.get('match_vec')
    if f is not None and len(f.params) == 7 and 'match_object' in p.defined:
        for name, alts in (('one variable', [('v', 0, 0)]), ('two variables', [('v', 0, 0), ('v', 20, 0)]), ('two variables', [('v', 20, 0), ('v', 0, 0)]),
                           ('a command and a variable', [('c', 0, 0), ('v', 0, 0)]), ('a variable and a command', [('v', 0, 0), ('c', 0, 0)]),
                           ('a variable of high preference and a command', [('v', 60000, 0), ('c', 0, 0)])):
            for best in (0, 1):
                for last in (0, 1):
                    levels += 1
                    for n, l, ins, r in c26.select(p, best, alts, 0, last, 0):
                        if r is not None and (r < 0 or alts[r][0] != 'v'):
                            fs.append(finding('level|%s|%d' % (name, best), '%s match_vec' % f.loc(ins),
                                              'a level with %s, none of which accepts the token, is left without the reason of a variable' % name,
                                              'reason if and only if refused'))
                            break
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS[:2],
            'coverage': dict(p.stats(), levels_refused=levels, functions=done, exits=exits,
            explanation='reason/result typestate on every exit path of %d functions that parse or validate a value (%d specialisations, %d path classes)' % (len(names), len(done), exits))}
