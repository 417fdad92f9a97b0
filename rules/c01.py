"""C01: no failure inside the library is reported as success.

Every function is summarised with the failures that happened on the way to each of its results.  A function whose
result is an error indication (negative or null) must give that indication on every path on which a step failed."""
from common import *
from hooks import Hook
from spec import *

# documented: the result of cligen_eval is handed out through *cb_retval, not as the result of the call (C22
# decides that part); results of *_get and *_free on a missing object are answers, not failures.
NEUTRAL = re.compile(r'(_get|_free)$')


class Child(Hook):
    """every child waited for has exited with a status that is not zero"""
    def __init__(self):
        self.sites = set()

    def call(self, I, fr, ins, st, name, args):
        if name != 'waitpid':
            return None
        a = norm(st, args[1])
        self.sites.add(fr.fn.name)
        if a[0] == 'p' and isinstance(a[2], int):
            st.mem.setdefault(a[1], {})[a[2]] = (('c', 256), 'i32', ('t', 'i32'))
        st.mon = st.mon | {'waited'}
        pid = norm(st, args[0])
        return [(pid, st)]


def children(p):
    """a child that failed is a failed step of the function that waits for it"""
    fs = []; n = 0
    for name, f in sorted(p.defined.items()):
        if generated(f.file + ':1') or f.ret != 'i32' or not any(i['op'] == 'call' and i['callee'][0] == 'f' and i['callee'][1] == 'waitpid' for b in f.blocks for i in b):
            continue
        st = St(); args = []
        for i, x in enumerate(f.params):
            if x['t'] == 'ptr':
                s = T.get(('arg', i, 'ptr'), 0, INF)
                st.facts[s] = (1, INF, ())
                args.append(ptrav(s))
            else:
                args.append(symav(T.get(('in', name, i), 1, (1 << 30))))
        h = Child()
        I, ex = explore(p, name, args, st, [h], {'strict': False}, 2, True, lambda fn, a: fn.nins < 60)
        n += 1
        for rv, s, ins in ex:
            if 'waited' in s.mon and rv is not None and decide(s, 'slt', norm(s, rv), ZERO) is not True:
                fs.append(finding('child|%s' % name, '%s %s' % (f.loc(ins), name), 'the child exited with an error and this is not the result', 'failure lost', ()))
                break
    return fs, n


def run(tier):
    p = program()
    evs, st = ownership(p)
    handlers = {n for n, f in p.defined.items() if f.ret == 'void' and not p.callers.get(n) and n in p.addrtaken}
    fs = []
    for e in evs:
        if e.kind != 'swallow' or e.fn in handlers:
            continue
        for m in e.data['mon']:
            if m == 'cligen_eval' or NEUTRAL.search(m):
                continue
            fs.append(finding('swallow|%s|%s' % (e.fn, m), '%s %s' % (e.loc, e.fn), e.msg, 'failure lost', e.path))
    f2, waits = children(p)
    fs += f2
    calls = sum(len(v) for v in p.callers.values())
    if calls < 1500:
        raise Broken('only %d call sites found' % calls)
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS + [
        'writing to the screen is not a step a result depends on',
        'a negative or null result of a function or application callback is its failure, except for comparison and conversion answers (engine/main1.py: ANSWER)'],
        'coverage': coverage(p, st, call_sites=calls, waits_for_children=waits, explanation='every path class of every library function: '
                             'the set of failed steps on it against the result it returns')}
