"""C16: value and vector accessors called without an object return neutrally.

Every public accessor is analysed with its object argument null (all else unknown); a dereference of the missing
object in it or in anything it hands the object to, or a result other than 0, NULL, -1 or one of its own arguments,
is a violation."""
from common import *
from spec import *

# whole-object operations, which require their object (not accessors)
WHOLE = re.compile(r'^cv2|_(print|parse|parse1|validate|cmp|cp|init|size|start)$|^cv_(len|reset|dup)$|^cv_(max|min)_set$|2cbuf$')


def accessors(p):
    api = public_api(p)
    for n in sorted(api):
        f = p.defined[n]
        if f.params and f.params[0]['t'] == 'ptr' and len(f.sig) > 1 and f.sig[1] in ('cg_var*', 'cvec*', 'const cg_var*', 'const cvec*') \
                and not WHOLE.search(n):
            yield n, f


def run(tier):
    p = program()
    fs = []; done = []; inl = 0
    for n, f in accessors(p):
        st = St(); args = [ZERO]
        for i, x in list(enumerate(f.params))[1:]:
            if x['t'] == 'ptr':
                # other pointer arguments may be missing too
                args.append(ptrav(T.get(('in', n, i), 0, INF)))
            else:
                args.append(symav(T.get(('in', n, i), *trange(width(x['t'])))))
        null = lambda fn, a: any(x[0] in ('z', 'c') and x[1] == 0 for x in a)
        I, ex = explore(p, n, args, st, maxinline=5, exact=False, when=null)
        inl += I.steps
        for d in I.events.values():
            for e in d.values():
                if e.kind in ('constnull', 'nullderef'):
                    fs.append(finding('null|%s|%s' % (n, e.fn), '%s %s' % (e.loc, e.fn), '%s without an object: %s' % (n, e.msg),
                                      'missing object dereferenced', e.path))
        for rv, s, ins in ex:
            if f.ret == 'void':
                continue
            r = norm(s, rv)
            if (r[0] == 'c' and r[1] in (0, -1)) or r[0] == 'z' or r in [norm(s, a) for a in args]:
                continue
            if r[0] == 'cmp' or (lin(r) and interval(s, r)[0] >= -1 and interval(s, r)[1] <= 0):
                continue
            fs.append(finding('result|%s' % n, '%s %s' % (f.loc(ins), n), '%s without an object gives a result that is neither neutral nor an error' % n,
                              'neutral result'))
        done.append(n)
    if len(done) < 80:
        raise Broken('only %d accessors found' % len(done))
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS[:2], 'coverage': dict(
        p.stats(), accessors=len(done), accessor_names=done, abstract_steps=inl,
        explanation='null-object analysis of %d public value and vector accessors and of every function they hand the object to' % len(done))}
