"""Starting states described by member names: which enum value a type member has, which members are set, ..."""
from spec import *
from common import *


def member(p, struct, name):
    """(offset, size, type) of a member, looked up through nested structures and unions"""
    for m in p.ditypes.get(struct, {}).get('m', ()):
        if m['n'] == name:
            return m['o'], m['sz'], m['st'] or m['t']
        t = m['st'] or m['t']
        if t != struct and t in p.ditypes and not t.endswith('*'):
            try:
                o, s, ty = member(p, t, name)
                return m['o'] + o, s, ty
            except Broken:
                pass
    raise Broken('no member %s in struct %s' % (name, struct))


def lltype(size, ty):
    return 'ptr' if ty.endswith('*') else {1: 'i8', 2: 'i16', 4: 'i32', 8: 'i64'}.get(size, 'i64')


def argobj(p, st, i, struct, cells, name=None):
    """an arbitrary object behind parameter i with the given members fixed; None value: non-null pointer"""
    s = T.get(('arg', name or i, 'ptr'), 0, INF)
    st.facts[s] = (1, INF, ())
    base = ('D', s)
    m = st.mem.setdefault(base, {})
    for n, v in cells.items():
        o, sz, ty = member(p, struct, n)
        if v is None:
            x = T.get(('in', struct, n, name or i), 1, INF)
            st.facts[x] = (1, INF, ())
            v = ptrav(x)
        m[o] = (val(v), lltype(sz, ty), (struct, o))
    return ptrav(s)


def enum(p, name):
    if name not in p.enumval:
        raise Broken('no enumerator %s' % name)
    return p.enumval[name]


def results(p, f, args, st, hooks=(), **kw):
    """[(normalised result, exit state, ins)] of the function with every callee in context"""
    if f not in p.defined:
        raise Broken('%s is not there' % f)
    I, ex = explore(p, f, args, st, hooks, **kw)
    return I, [(norm(s, rv) if rv is not None else None, s, ins) for rv, s, ins in ex]
