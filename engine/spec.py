"""Specialised analysis of one function from a given abstract starting state (values as intervals, relations between
symbols, objects as blocks with known fields), every library callee analysed in its calling context."""
from absint import *
from interp import Interp, Event, Frame
from hooks import Hook
import par

_n = [0]


def sym(name, lo=-INF, hi=INF):
    return symav(T.get(('in', name), lo, hi))


def val(v):
    return ('c', v) if isinstance(v, int) else v


class Scene:
    """objects of the starting state"""
    def __init__(self, prog):
        self.prog = prog
        self.st = St()

    def obj(self, name, cells=(), rest='zero'):
        """a block; cells {offset: (value, llvm type)}; what is not given is zero / unknown"""
        b = ('H', ('in', name), 0)
        self.st.heap[b] = ('live', 'mem')
        m = {}
        for off, (v, ty) in dict(cells).items():
            m[off] = (val(v), ty, ('t', ty))
        if rest == 'zero':
            m['*'] = (ZERO, None)
        else:
            m['*'] = (('any',), None)
        self.st.mem[b] = m
        return ('p', b, 0)

    def off(self, struct, field):
        d = self.prog.ditypes.get(struct)
        raise NotImplementedError

    def fact(self, a, lo, hi):
        self.st.facts[a[1][0][0]] = (lo, hi, ())

    def less(self, a, b, by=1):
        """a <= b - by"""
        d = linadd(a, b, -1)
        assert d[0] == 'l'
        self.st.rel[d[1]] = -by - d[2]


class _Ep:
    def __contains__(self, x): return True


class _All:
    ep = _Ep()


class SpecInterp(Interp):
    reljoin = True

    """every callee is analysed in context; recursion and depth beyond the limit give up"""
    def __init__(self, prog, policy=None, hooks=(), maxinline=10, exact=True):
        pol = {'opaque': (), 'coarse': 20000, 'maxblocks': 60000, 'errclass': lambda n: 'neg', 'failclass': lambda n: n,
               'strict': True}
        pol.update(policy or {})
        Interp.__init__(self, prog, pol)
        self.hooks = list(hooks)
        self.inline_all = True
        self.maxinline = maxinline
        self.exact = exact
        self.cur = 'spec'
        self.derefs = set()
        self.gaveup = []
        self.inline_when = None

    def inline(self, fr, ins, st, fn, args):
        f = fr; n = 0
        while f is not None:
            n += f.fn is fn
            f = f.parent
        if n or (self.inline_when and not self.inline_when(fn, args)):
            return self.apply(fr, ins, st, fn, args)
        return Interp.inline(self, fr, ins, st, fn, args)

    _fields = {}

    def fields(self, s):
        """[(offset, tag, size, is pointer)] of the scalar members, nested structures included"""
        if s not in self._fields:
            out = []
            def walk(t, base, depth):
                for m in self.prog.ditypes.get(t, {}).get('m', ()):
                    st_ = m['st'] or m['t']
                    if st_ in self.prog.ditypes and not st_.endswith('*') and depth < 4 and self.prog.ditypes[st_].get('m'):
                        walk(st_, base + m['o'], depth + 1)
                    elif m['sz'] in (1, 2, 4, 8):
                        out.append((base + m['o'], (t, m['o']), m['sz'], st_.endswith('*')))
            walk(s, 0, 0)
            self._fields[s] = out
        return self._fields[s]

    def modof(self, fn):
        """members that a callee may change"""
        return self.mod.get(fn.name, frozenset())

    def apply(self, fr, ins, st, fn, args):
        self.gaveup.append((fr.fn.name, fn.name))
        mod = self.modof(fn)
        for i, a in enumerate(args):
            # members that are only known by the initial content of the block
            if a[0] == 'p' and a[1][0] in 'HA' and a[2] == 0 and i + 1 < len(fn.sig) and fn.sig[i + 1].count('*') == 1 and '*' in st.mem.get(a[1], ()):
                nc = None
                for o, t, sz, ptr in self.fields(fn.sig[i + 1].rstrip('*').strip()):
                    if t in mod and o not in st.mem[a[1]]:
                        nc = nc if nc is not None else dict(st.mem[a[1]])
                        ty = 'ptr' if ptr else {1: 'i8', 2: 'i16', 4: 'i32'}.get(sz, 'i64')
                        nc[o] = (ZERO, ty, t)
                if nc is not None:
                    st.mem[a[1]] = nc
        self.kill(fr, ins, st, mod, args, None, _All)
        for a in args:
            if a[0] == 'p' and a[1][0] == 'A':
                # results handed out through local variables
                cells = st.mem.get(a[1])
                if cells:
                    st.mem[a[1]] = {o: (self.fresh(st, fr, ins['i'], ('out', a[1], o), c[1]), c[1], c[2])
                                    for o, c in cells.items() if o != '*'}
                    st.mem[a[1]]['*'] = (('any',), None)
                else:
                    st.mem[a[1]] = {'*': (('any',), None)}
        return [(self.fresh(st, fr, ins['i'], 'gu', ins['t']) if ins['t'] != 'void' else None, st)]


def explore(prog, name, args, st, hooks=(), policy=None, maxinline=10, exact=True, when=None, spare=None):
    I = SpecInterp(prog, policy, hooks, maxinline, exact)
    for n, tags in (spare or {}).items():  # what these functions are separately shown to leave as it was
        I.mod[n] = I.mod[n] - tags
    I.inline_when = when
    ex = I.run(prog.defined[name], args, st.copy())
    return I, ex
