"""C14: no element access outside a value vector or a command-tree vector.

Every function of the library that reads the element array of a vector is analysed (with its small helpers in
context) from an arbitrary state.  At every access through the array, and for every element address a function
hands out, 0 <= index < length must follow from the tests on the path, where length is the vector's own length at
that moment.  The index functions of the public interface must in addition refuse with NULL or -1."""
from common import *
from spec import *
import ir

# struct -> (offset of the array, offset of the length, size of an element)
def layouts(p):
    out = {}
    for s, vec, ln in (('parse_tree', 'pt_vec', 'pt_len'), ('cvec', 'vr_vec', 'vr_len')):
        d = {m['n']: m for m in p.ditypes.get(s, {}).get('m', ())}
        if vec not in d or ln not in d:
            raise Broken('vector layout of %s not recognised' % s)
        el = d[vec]['t']
        es = 8 if el.endswith('**') else p.ditypes[el.rstrip('*').strip()]['size']
        out[(s, d[vec]['o'])] = (d[ln]['o'], es)
    return out


class Bounds(Hook):
    def __init__(self, lay, first):
        self.first = first
        self.lay = lay; self.lens = {(s, lo) for (s, o), (lo, es) in lay.items()}; self.ok = set(); self.bad = {}; self.seen = set(); self.fill = set()

    def owner(self, st, base):
        """(object, offset, tag) of the vector whose array this block is"""
        if base[0] == 'D':
            d = T.desc[base[1]]
            x = (d[1], d[2], d[3]) if d[0] in ('m', 'mpun', 'mx', 'many') else (d[2], d[3], d[4]) if d[0] == 'k' else None
            if x and x[2] in self.lay and isinstance(x[1], int):
                return x
        if base[0] in ('H', 'D'):
            for b, cells in st.mem.items():
                for o, c in cells.items():
                    if o != '*' and c[2] in self.lay and c[0][0] == 'p' and c[0][1] == base and isinstance(o, int):
                        return b, o, c[2]
        return None

    def index(self, st, off, es):
        if off is None:
            return None
        t, k = lin(off if isinstance(off, tuple) else ('c', off))
        if any(c % es for c in t.values()):
            return None
        return mklin({x: c // es for x, c in t.items()}, k // es)

    def check(self, I, fr, ins, st, q, what, size=None):
        q = norm(st, q)
        if q[0] != 'p':
            return
        w = self.owner(st, q[1])
        if w is None:
            return
        b, o, tag = w
        lo_, es = self.lay[tag]
        L = norm(st, I.load(st, b, o + lo_, 'i32', (tag[0], tag[1] + lo_), mat=False))
        key = (fr.fn.name, fr.fn.loc(ins))
        self.seen.add(key)
        ix = self.index(st, q[2], es)
        if ix is None:
            good = False
        elif size is not None:
            n = self.index(st, size if not isconst(size) else cval(size), es) if lin(size) else None
            n = linadd(ix, n) if n is not None else None
            good = n is not None and decide(st, 'sge', ix, ZERO) and decide(st, 'sge', n, ix) and decide(st, 'sle', n, L)
        else:
            good = decide(st, 'sge', ix, ZERO) and decide(st, 'slt', ix, L)
        if good:
            self.ok.add(key)
        elif (fr.fn.name, tag) in self.first:
            # filled for the first time, up to the number of elements counted before: not an index question
            self.fill.add(key)
        elif key not in self.bad:
            self.bad[key] = (what, tag[0], trail_(st))

    def store(self, I, fr, ins, st, base, off, v):
        # the length of a vector never becomes negative
        fld = ir.field(fr.fn, ins['a'][1]) if ins['op'] == 'store' else None
        if fld in self.lens:
            key = (fr.fn.name, fr.fn.loc(ins))
            self.seen.add(key)
            v = norm(st, v)
            if lin(v) and decide(st, 'sge', v, ZERO):
                self.ok.add(key)
            elif key not in self.bad:
                self.bad[key] = ('given a length not shown to be positive or zero', fld[0], trail_(st))

    def access(self, I, fr, ins, st, q, write):
        n = ins.get('fn') if ins['op'] == 'call' else None
        if n is None:
            self.check(I, fr, ins, st, q, 'written' if write else 'read')
        elif n.startswith(('llvm.mem', 'memmove', 'memcpy', 'memset')):
            self.check(I, fr, ins, st, q, 'moved', I.ev(st, fr, ins['a'][2]))


def trail_(st):
    from interp import trail
    return trail(st.tr)


KEEPS = ('co_free', 'co_copy', 'co_copy1', 'co_callback_copy', 'co_eq', 'cv_cp', 'cv_reset')


class Keep(SpecInterp):
    """releasing or copying a node changes no vector outside the node itself (listed as an assumption)"""
    def modof(self, fn):
        mod = SpecInterp.modof(self, fn)
        if fn.name in KEEPS:
            mod = frozenset(t for t in mod if t[0] not in ('parse_tree', 'cvec'))
        return mod


def run(tier):
    p = program()
    lay = layouts(p)
    roots = []
    for n, f in sorted(p.defined.items()):
        if not generated(f.file + ':1') and any(i['op'] == 'load' and i['t'] == 'ptr' and ir.field(f, i['a'][0]) in lay for b in f.blocks for i in b):
            roots.append(n)
    # functions that allocate the array of a vector they fill
    first = {(n, ir.field(p.defined[n], i['a'][1])) for n in roots for b in p.defined[n].blocks for i in b
             if i['op'] == 'store' and i['a'][0][0] == 'v' and p.defined[n].defs.get(i['a'][0][1], {}).get('fn') in ('malloc', 'calloc')}
    fs = []; okk = set(); seen = set(); fill = set(); refused = []
    for n in roots:
        f = p.defined[n]
        h = Bounds(lay, first)
        st = St(); args = []
        vecarg = None
        for i, x in enumerate(f.params):
            sg = f.sig[i + 1] if len(f.sig) > i + 1 else ''
            if x['t'] == 'ptr':
                s = T.get(('arg', i, 'ptr'), 0, INF)
                args.append(ptrav(s))
                if sg.rstrip('*') in ('cvec', 'parse_tree') and vecarg is None:
                    vecarg = (i, sg.rstrip('*'))
                elif vecarg and vecarg[1] == 'cvec' and sg == 'cg_var*':
                    # a position inside the vector, as iteration hands them out, or none
                    args[-1] = None
            else:
                args.append(symav(T.get(('in', n, i), *trange(width(x['t'])))))
        variants = [(args, st)]
        if None in args:
            k = args.index(None)
            a0 = list(args); a0[k] = ZERO
            a1 = list(args)
            s1 = St()
            voff, = [o for (s, o) in lay if s == 'cvec']; lo_, es = lay[('cvec', voff)]
            B = ('D', args[vecarg[0]][1][1])
            s1.facts[B[1]] = (1, INF, ())
            V = T.get(('m', B, voff, ('cvec', voff), 'ptr'), 1, INF)
            L = T.get(('m', B, voff + lo_, ('cvec', voff + lo_), 'i32'), 0, 1 << 30)
            s1.mem[B] = {voff: (ptrav(V), 'ptr', ('cvec', voff)), voff + lo_: (symav(L), 'i32', ('cvec', voff + lo_))}
            s1.facts[V] = (1, INF, ()); s1.facts[L] = (1, 1 << 30, ())
            K = T.get(('in', 'k'), 0, 1 << 30)
            s1.rel[linadd(symav(K), symav(L), -1)[1]] = -1
            a1[k] = ('p', ('D', V), ('l', ((K, es),), 0))
            variants = [(a0, st), (a1, s1)]
        for a, s0 in variants:
            I = Keep(p, {'strict': False}, [h], 3, False)
            I.inline_when = lambda fn, x: fn.nins < 70 and fn.name not in KEEPS
            for (s, o), (lo_, es) in lay.items():
                I.dflt[(s, o + lo_)] = (0, 1 << 30)
            ex = I.run(f, a, s0.copy())
            for rv, s, ins in ex:
                r = norm(s, rv)
                if r[0] == 'p' and f.ret == 'ptr' and f.sig and f.sig[0] in ('cg_var*', 'cg_obj**'):
                    fr = Frame(); fr.fn = f
                    h.check(I, fr, ins, s, r, 'handed out')
        for (fn, loc), (what, tag, tr) in sorted(h.bad.items()):
            fs.append(finding('bounds|%s|%s|%s' % (fn, tag, what), '%s %s' % (loc, fn),
                              'a %s is %s' % (tag, what) if what.startswith('given') else
                              'an element of a %s is %s at an index not shown to be inside the vector' % (tag, what), 'index bound', tr))
        okk |= h.ok; seen |= h.seen; fill |= h.fill
    if len(roots) < 12 or len(seen) < 20:
        raise Broken('only %d functions with element access, %d accesses found' % (len(roots), len(seen)))
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS[:3] + [
        'vector lengths are between 0 and 2^30 and loop counters do not overflow int',
        'releasing, comparing or copying a node changes no vector outside that node',
        'an iteration position handed to a vector function is an element of that vector'],
        'coverage': dict(p.stats(), functions=roots, obligations=len(seen), obligations_shown=len(okk), first_fill_not_decided=sorted('%s %s' % x for x in fill),
                         explanation='index bounds at %d element accesses in %d functions' % (len(seen), len(roots)))}
