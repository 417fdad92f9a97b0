"""C27: nothing is written past the end of an array of fixed size.

Arrays of fixed size are the local arrays of the library's functions and the array members of its structures.  Every
function with such an array, and every function of the library that is handed one (with the size of the array it is
handed, and the constants handed with it), is analysed from an arbitrary state; at every store, copy, formatted print
and system call that writes to the array, position + length <= size must follow on the path."""
from common import *
from spec import *
import ir

# functions writing to an argument: (argument, how many bytes at most)
SIZED = {'snprintf': (0, 1), 'vsnprintf': (0, 1), 'memset': (0, 2), 'memcpy': (0, 2), 'memmove': (0, 2), 'strncpy': (0, 2),
         'llvm.memcpy.p0.p0.i64': (0, 2), 'llvm.memmove.p0.p0.i64': (0, 2), 'llvm.memset.p0.i64': (0, 2), 'read': (1, 2),
         'recv': (1, 2), 'fgets': (0, 1), 'inet_ntop': (2, 3), 'regerror': (2, 3), 'strftime': (0, 1), 'getcwd': (0, 1),
         'gethostname': (0, 1), 'readlink': (1, 2), 'ttyname_r': (1, 2)}
FIXED = {'socketpair': (3, 8), 'pipe': (0, 8), 'waitpid': (1, 4)}
READS = {'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'memcmp', 'fprintf', 'printf', 'fputs', 'puts', 'strdup', 'strndup',
         'write', 'free', 'strchr', 'index', 'strstr', 'atoi', 'strtol', 'strtoul', 'perror', 'regcomp', 'regexec', 'fwrite', 'strrchr', 'strnlen',
         'llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'poll', 'select', 'isatty', 'send', 'inet_ntoa', 'system', 'open', 'fopen', 'strerror'}
CONV = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])')


def constbytes(p, a):
    if a[0] == 'p' and a[1][0] == 'G' and isinstance(a[2], int):
        g = p.globals.get(a[1][1])
        if g and g['const'] and 's' in (g.get('init') or {}):
            return g['init']['s'][a[2]:].split('\0')[0]
    return None


def printed(p, st, fmt, args):
    """bytes a formatted print writes at most, with its terminating null"""
    f = constbytes(p, fmt)
    if f is None:
        return None
    n = 1; k = 0; last = 0
    for m in CONV.finditer(f):
        n += len(f[last:m.start()].encode()); last = m.end()
        fl, w, pr, ln, c = m.groups()
        if c == '%':
            n += 1; continue
        if w == '*' and k < len(args):
            w = interval(st, norm(st, args[k]))[1]; k += 1
            if w > 1 << 20:
                return None
        if pr == '*' or k >= len(args):
            return None
        a = norm(st, args[k]); k += 1
        bits = {'hh': 8, 'h': 16, None: 32}.get(ln, 64)
        if c in 'diu':
            lo, hi = interval(st, a) if a[0] in ('l', 'c') else (-INF, INF)
            lo = max(lo, -(1 << bits - 1)); hi = min(hi, (1 << bits) - 1)
            if c == 'u' and lo < 0:
                hi = (1 << bits) - 1; lo = 0
            l = max(len(str(lo)), len(str(hi)))
        elif c in 'xXo':
            lo, hi = interval(st, a) if a[0] in ('l', 'c') else (-INF, INF)
            if lo < 0 or hi > (1 << bits) - 1:
                hi = (1 << bits) - 1
            l = len(('%x' if c != 'o' else '%o') % hi) + 2
        elif c == 'c':
            l = 1
        elif c == 's':
            s = constbytes(p, a)
            if s is not None:
                l = len(s.encode())
                if pr:
                    l = min(l, int(pr))
            elif pr:
                l = int(pr)
            else:
                return None
        elif c == 'p':
            l = 20
        else:
            return None
        n += max(l, int(w) if w else 0)
    return n + len(f[last:].encode())


SCAN = re.compile(r'%(\*)?(\d+)?(hh|h|ll|l|z|j|t)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])')


def scanned(f):
    """bytes each argument of a scan with format f receives at most"""
    out = []
    for m in SCAN.finditer(f):
        star, w, ln, c = m.groups()
        if c == '%' or star:
            continue
        if c in 'diuxXon':
            out.append({'hh': 1, 'h': 2, None: 4}.get(ln, 8))
        elif c[0] == '[' or c == 's':
            out.append(int(w) + 1 if w else None)
        elif c == 'c':
            out.append(int(w or 1))
        elif c == 'p':
            out.append(8)
        elif c in 'feg':
            out.append(8 if ln == 'l' else 4)
        else:
            out.append(None)
    return out


def atmost(st, e, k):
    """e <= k follows from the intervals and at most two of the relations on the path"""
    e = norm(st, e)
    if interval(st, e)[1] <= k:
        return True
    if e[0] != 'l':
        return False
    def rest(e):
        return [(t, c) for t, c in st.rel.items() if any(x in dict(t) and dict(t)[x] * n > 0 for x, n in e[1])]
    for t, c in rest(e):
        r = linadd(e, ('l', t, -c), -1)
        if interval(st, r)[1] <= k:
            return True
        if r[0] == 'l':
            for t2, c2 in rest(r):
                if interval(st, linadd(r, ('l', t2, -c2), -1))[1] <= k:
                    return True
    return False


def positions(p):
    """{static integer: (0, largest position)} of those that index an array of the program, and the functions that set them"""
    kept = {}; users = {}
    for n, f in p.defined.items():
        if generated(f.file + ':1'):
            continue
        for b in f.blocks:
            for i in b:
                if i['op'] == 'getelementptr' and i.get('asz') and i['a'][0][0] == 'g' and i['a'][0][1] in p.globals:
                    for v, sc in i.get('vars', ()):
                        x = v
                        while x[0] == 'v' and f.defs.get(x[1], {}).get('op') in ('sext', 'zext', 'trunc', 'add', 'sub'):
                            x = f.defs[x[1]]['a'][0]
                        d = f.defs.get(x[1]) if x[0] == 'v' else None
                        if d is not None and d['op'] == 'load' and d['a'][0][0] == 'g' and str(d['t']) == 'i32':
                            g = d['a'][0][1]
                            m = i['asz'] // sc - 1
                            kept[g] = min(kept.get(g, m), m)
    for n, f in p.defined.items():
        for b in f.blocks:
            for i in b:
                for k, o in enumerate(i.get('a', ())):
                    if o[0] == 'g' and o[1] in kept:
                        if i['op'] == 'store' and k == 1:
                            users.setdefault(o[1], set()).add(n)
                        elif i['op'] != 'load':
                            kept.pop(o[1])
    return {g: (0, m) for g, m in kept.items()}, {n for g in kept for n in users.get(g, ())}


class Arrays(Hook):
    def __init__(self, p, mem):
        self.p = p; self.mem = mem; self.ok = set(); self.bad = {}; self.seen = set(); self.next = set(); self.region = {}; self.kept = {}

    def room(self, I, fr, st, a, op):
        """bytes from the address to the end of the array it points into; None: no such array"""
        if a[0] != 'p':
            return None
        off = a[2] if isinstance(a[2], tuple) else ('c', a[2]) if a[2] is not None else None
        n = self.region.get(a[1])
        if n is None and a[1][0] == 'A':
            f = fr
            while f is not None and f.id != a[1][1]:
                f = f.parent
            d = f.fn.defs.get(a[1][2]) if f is not None else None
            if d is not None and d['op'] == 'alloca' and re.match(r'\[\d+ x i\d+\]', str(d.get('at'))):
                n = d['sz']
        if n is None and op is not None:
            # a member of a structure
            m = self.member(fr.fn, op)
            if m is None:
                return None
            size, rel = m
            r = None
            if rel is not None:
                r = self.rel(I, fr, st, rel)
            return size, r
        return None if n is None else (n, off)

    def rel(self, I, fr, st, rel):
        tot = ('c', 0)
        for o, sc in rel:
            v = norm(st, I.ev(st, fr, o)) if o is not None else ('c', 1)
            if v[0] not in ('l', 'c'):
                return None
            v = lin(v)
            if v is None:
                return None
            tot = linadd(tot, mklin({x: c * sc for x, c in v[0].items()}, v[1] * sc))
        return tot

    def member(self, fn, o):
        """(size of the array member, [(index operand, scale)] from its start) of an address"""
        rel = []; const = 0
        while o[0] == 'v':
            d = fn.defs.get(o[1])
            if d is None:
                return None
            if d['op'] == 'bitcast':
                o = d['a'][0]; continue
            if d['op'] != 'getelementptr':
                return None
            if d.get('asz') is not None and d['asz'] // d['arr'] < 8:
                # an array decays to the address of one of its elements
                base = sum(x[1] for x in d.get('path', ()))
                return d['asz'], rel + [(v, sc) for v, sc in d.get('vars', ())] + [(None, const + d.get('co', 0) - base)]
            if d.get('path'):
                m = self.mem.get(tuple(d['path'][-1]))
                if m is None:
                    return None
                base = sum(x[1] for x in d['path'])
                return m, rel + [(v, sc) for v, sc in d.get('vars', ())] + [(None, const + d.get('co', 0) - base)]
            rel += [(v, sc) for v, sc in d.get('vars', ())]; const += d.get('co', 0)
            o = d['a'][0]
        return None

    def need(self, fr, ins, st, room, n, what):
        key = (fr.fn.name, fr.fn.loc(ins), what)
        self.seen.add(key)
        size, off = room
        good = False
        if off is not None and n is not None:
            n = n if isinstance(n, tuple) else ('c', n)
            end = linadd(off, n)
            off = norm(st, off); end = norm(st, end)
            good = atmost(st, linadd(ZERO, off, -1), 0) and atmost(st, end, size)
        if n is not None and isconst(n if isinstance(n, tuple) else ('c', n)) and cval(n if isinstance(n, tuple) else ('c', n)) == 0:
            good = True
        if good:
            self.ok.add(key)
        else:
            self.bad.setdefault(key, (size, trail_(st)))

    def store(self, I, fr, ins, st, base, off, v):
        if ins['op'] != 'store':
            return
        if base[0] == 'G' and base[1] in self.kept:
            lo, hi = self.kept[base[1]]
            key = (fr.fn.name, fr.fn.loc(ins), 'a position')
            self.seen.add(key)
            v = norm(st, v)
            if v[0] in ('l', 'c') and atmost(st, v, hi) and atmost(st, linadd(ZERO, v, -1), -lo):
                self.ok.add(key)
            else:
                self.bad.setdefault(key, (hi + 1, trail_(st)))
            return
        r = self.room(I, fr, st, ('p', base, off), ins['a'][1])
        if r is not None:
            self.need(fr, ins, st, r, lltw(ins['vt']), 'a store')

    def call(self, I, fr, ins, st, name, args):
        if name is None:
            return None
        args = [norm(st, a) for a in args]
        fn = self.p.defined.get(name)
        ops = ins.get('a', ())
        if fn is not None:
            ctx = []
            for i, a in enumerate(args):
                r = self.room(I, fr, st, a, ops[i]) if i < len(ops) else None
                if r is not None and i < len(fn.params) and fn.params[i]['t'] == 'ptr':
                    if r[1] is not None and isconst(r[1]):
                        ctx.append((i, 'r', r[0] - cval(r[1])))
                elif a[0] == 'c' and i < len(fn.params) and fn.params[i]['t'] != 'ptr':
                    ctx.append((i, 'c', a[1]))
                elif a[0] == 'p' and a[1][0] == 'A' and a[2] == 0:
                    # the space there is, in a variable of the caller
                    x = st.mem.get(a[1], {}).get(0)
                    if x is not None and str(x[1]).startswith('i') and isconst(norm(st, x[0])):
                        ctx.append((i, 'm', (x[1], cval(norm(st, x[0])))))
            if any(x[1] == 'r' for x in ctx):
                self.next.add((name, tuple(ctx)))
            return None
        if name in READS or name.startswith(('llvm.va', 'llvm.dbg')):
            return None
        for i, a in enumerate(args):
            r = self.room(I, fr, st, a, ops[i]) if i < len(ops) else None
            if r is None:
                continue
            if name in SIZED:
                d, n = SIZED[name]
                if i != d:
                    continue
                k = args[n]
                if not isconst(k) and not lin(k):
                    k = None
                self.need(fr, ins, st, r, (('c', cval(k)) if isconst(k) else k) if k is not None else None, name)
                if name == 'snprintf':
                    # what is printed is no longer than its format allows
                    import libc
                    l = printed(self.p, st, args[2], args[3:])
                    out = libc.call(I, fr, ins, st, name, args)
                    for v, s in out:
                        if l is not None and v is not None and v[0] == 'l':
                            (x, c1), = v[1]
                            lo, hi, ne = fact(s, x)
                            setfact(s, x, lo, min(hi, l - 1), ne)
                    return out
            elif name in FIXED:
                if i == FIXED[name][0]:
                    self.need(fr, ins, st, r, FIXED[name][1], name)
            elif name in ('strcpy', 'stpcpy') and i == 0:
                s = constbytes(self.p, args[1])
                self.need(fr, ins, st, r, None if s is None else len(s.encode()) + 1, name)
            elif name == 'sprintf' and i == 0:
                self.need(fr, ins, st, r, printed(self.p, st, args[1], args[2:]), name)
            elif name.endswith('scanf') and i >= 2:
                f = constbytes(self.p, args[1])
                l = scanned(f) if f is not None else []
                self.need(fr, ins, st, r, l[i - 2] if i - 2 < len(l) else None, 'sscanf')
            elif name == 'inet_pton' and i == 2:
                self.need(fr, ins, st, r, {2: 4, 10: 16}.get(cval(args[0]) if isconst(args[0]) else None), name)
            elif i in WRITTEN(name):
                self.need(fr, ins, st, r, None, name)
        return None


def WRITTEN(n):
    import libc
    w = libc.WRITES.get(n)
    return w if w is not None else ()


def lltw(t):
    m = re.match(r'i(\d+)$', str(t))
    return int(m.group(1)) // 8 or 1 if m else 8


def trail_(st):
    from interp import trail
    return trail(st.tr)


def run(tier):
    p = program()
    mem = {}
    for s, d in p.ditypes.items():
        for m in d.get('m', ()):
            if str(m['st']).endswith('[]') and m['sz'] and not str(s).startswith(('_IO', 'termios')) and ('cligen' in str(s) or not str(s).startswith('anon@')):
                mem[(s, m['o'])] = m['sz']
    local = {n for n, f in p.defined.items() if not generated(f.file + ':1')
             and any(i['op'] == 'alloca' and re.match(r'\[\d+ x i\d+\]', str(i.get('at'))) for b in f.blocks for i in b)}
    # functions that use the address of an array member
    memb = set()
    A0 = Arrays(p, mem)
    for n, f in p.defined.items():
        if generated(f.file + ':1'):
            continue
        for b in f.blocks:
            for i in b:
                if i['op'] in ('store', 'call'):
                    for o in (i['a'][1:2] if i['op'] == 'store' else i.get('a', ())):
                        if A0.member(f, o) is not None:
                            memb.add(n)
    kept, setters = positions(p)
    todo = [(n, ()) for n in sorted(local | memb | setters)]
    done = set(); fs = []; ok = set(); seen = set(); gave = []
    while todo:
        n, ctx = todo.pop(0)
        if (n, ctx) in done:
            continue
        done.add((n, ctx))
        if len(done) > 200:
            raise Broken('more than 200 functions are handed an array')
        f = p.defined[n]
        h = Arrays(p, mem)
        st = St(); args = []
        h.kept = kept
        for g, (lo, hi) in kept.items():
            st.mem[('G', g)] = {0: (symav(T.get(('in', 'position', g), lo, hi)), 'i32', ('t', 'i32'))}
        c = {i: (k, v) for i, k, v in ctx}
        for i, x in enumerate(f.params):
            if i in c and c[i][0] == 'r':
                b = ('A', 'array', i)
                st.mem[b] = {'*': (('any',), None)}
                h.region[b] = c[i][1]
                args.append(('p', b, 0))
            elif i in c and c[i][0] == 'm':
                b = ('A', 'in', i)
                st.mem[b] = {0: (('c', c[i][1][1]), c[i][1][0], ('t', c[i][1][0]))}
                args.append(('p', b, 0))
            elif i in c:
                args.append(('c', c[i][1]))
            elif x['t'] == 'ptr':
                args.append(ptrav(T.get(('arg', i, 'ptr'), 0, INF)))
            else:
                args.append(symav(T.get(('in', n, i), *trange(width(x['t'])))))
        I = SpecInterp(p, {'strict': False}, [h], 1, True)
        I.inline_when = lambda fn, a: fn.nins < 60 and not any(y[0] == 'p' and y[1][0] == 'A' for y in a)
        I.run(f, args, st)
        if I.capped:
            gave.append(n)
        for (fn, loc, what), (size, tr) in sorted(h.bad.items()):
            fs.append(finding('array|%s|%s' % (fn, what), '%s %s' % (loc, fn), ('%s kept for an array of %d elements is not shown to stay below that' if what == 'a position' else
                              '%s is not shown to stay inside the array of %d bytes it writes to') % (what, size), 'array bound', tr))
        ok |= h.ok; seen |= h.seen
        todo += sorted(h.next)
    if len(local) < 6 or len(seen) < 20:
        raise Broken('only %d functions with arrays, %d writes found' % (len(local), len(seen)))
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS[:3] + ['the sizes given to library functions are honoured by them'],
            'coverage': dict(p.stats(), functions=sorted(local | memb), contexts=len(done), not_analysed_to_the_end=gave, obligations=len(seen), obligations_shown=len(ok), sites=sorted('%s %s %s' % x for x in seen),
                             explanation='%d writes to fixed arrays in %d functions (with the arrays handed to helpers)' % (len(seen), len({n for n, c in done})))}
