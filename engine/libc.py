"""Models of the external functions the library calls: results, memory effects, failures, ownership."""
from absint import *

# arguments that must not be null
NONNULL = {
    'strlen': [0], 'strcmp': [0, 1], 'strncmp': [0, 1], 'strcasecmp': [0, 1], 'strncasecmp': [0, 1],
    'strverscmp': [0, 1], 'strcpy': [0, 1], 'strncpy': [0, 1], 'strcat': [0, 1], 'strncat': [0, 1],
    'strchr': [0], 'index': [0], 'strstr': [0, 1], 'strpbrk': [0, 1], 'strdup': [0], 'strsep': [0, 1],
    'memcmp': [0, 1], 'fprintf': [0, 1], 'fputs': [0, 1], 'printf': [0], 'snprintf': [2], 'vsnprintf': [2],
    'sprintf': [0, 1], 'fgetc': [0], 'getc': [0], 'fileno': [0], 'fread': [0, 3], 'fwrite': [0, 3],
    'inet_pton': [1, 2], 'inet_ntop': [1, 2], 'strtoll': [0], 'strtoull': [0], '__isoc99_sscanf': [0, 1],
    'mktime': [0], 'gmtime': [0], 'regcomp': [0, 1], 'regexec': [0, 1], 'regfree': [0], 'qsort': [0],
    'xmlRegexpExec': [0, 1], 'xmlRegexpCompile': [0], 'clearerr': [0], 'ferror': [0], 'tcgetattr': [1], 'tcsetattr': [2],
    'llvm.memcpy.p0.p0.i64': [0, 1], 'llvm.memmove.p0.p0.i64': [0, 1], 'llvm.memset.p0.i64': [0],
    'memcpy': [0, 1], 'memmove': [0, 1], 'memset': [0], 'feof': [0], 'fgets': [0, 2], 'atoi': [0], 'strtol': [0], 'strtoul': [0],
    'strrchr': [0], 'strnlen': [0], 'strndup': [0], 'puts': [0], 'fclose': [0], 'stpcpy': [0, 1], 'strtok': [1],
    'strspn': [0, 1], 'strcspn': [0, 1], 'memchr': [0], 'opendir': [0],
}
# arguments whose memory is written
WRITES = {
    'strcpy': [0], 'strncpy': [0], 'strcat': [0], 'strncat': [0], 'snprintf': [0], 'vsnprintf': [0], 'sprintf': [0], 'vsprintf': [0],
    'llvm.memcpy.p0.p0.i64': [0], 'llvm.memmove.p0.p0.i64': [0], 'llvm.memset.p0.i64': [0],
    'memcpy': [0], 'memmove': [0], 'memset': [0], 'stpcpy': [0],
    'read': [1], 'fread': [0], 'inet_pton': [2], 'inet_ntop': [2], 'strtoll': [1], 'strtoull': [1], 'strtol': [1], 'strtoul': [1],
    '__isoc99_sscanf': [2, 3, 4, 5, 6, 7, 8, 9, 10], 'tcgetattr': [1], 'ioctl': [2], 'select': [1, 2, 3, 4], 'sigaction': [2],
    'sigemptyset': [0], 'sigaddset': [0], 'sigfillset': [0], 'sigprocmask': [2], 'regcomp': [0], 'regexec': [3],
    'regerror': [2], 'socketpair': [3], 'pipe': [0], 'waitpid': [1], 'strsep': [0], 'qsort': [0], 'fgets': [0], 'llvm.va_start': [0], 'llvm.va_copy': [0], 'llvm.va_end': [],
    'mktime': [0], 'xmlRegexpExec': [], 'regfree': [0], 'stat': [1], 'fstat': [1], 'lstat': [1],
}
ALLOC = {'malloc': 'malloc', 'calloc': 'calloc', 'strdup': 'strdup', 'strndup': 'strndup', 'realloc': 'realloc', 'reallocarray': 'realloc'}
NORETURN = {'exit', 'abort', '_exit', '__assert_fail', '_Exit'}
# system calls whose negative result is a failure of the operation
SYSFAIL = {'socketpair': 'socketpair', 'fork': 'fork', 'dup2': 'dup2', 'dup': 'dup', 'pipe': 'pipe', 'open': 'open',
           'tcgetattr': 'tcgetattr', 'tcsetattr': 'tcsetattr', 'sigaction': 'sigaction', 'sigprocmask': 'sigprocmask', 'vsnprintf': 'vsnprintf',
           'read': 'read', 'select': 'select', 'waitpid': 'waitpid'}
RANGES = {'fgetc': (-1, 255), 'getc': (-1, 255), 'close': (-1, 0), 'isatty': (0, 1), 'fork': (-1, 1 << 30), 'socketpair': (-1, 0),
          'dup2': (-1, 1 << 20), 'kill': (-1, 0), 'tcgetattr': (-1, 0), 'tcsetattr': (-1, 0), 'sigaction': (-1, 0),
          'sigprocmask': (-1, 0), 'select': (-1, 1 << 20), 'read': (-1, 1 << 62), 'write': (-1, 1 << 62), 'fread': (0, 1 << 62), 'fwrite': (0, 1 << 62),
          'inet_pton': (-1, 1), 'ioctl': (-1, 1 << 30), 'fileno': (-1, 1 << 20), 'regcomp': (0, 100), 'regexec': (0, 100), 'xmlRegexpExec': (-100, 1),
          'snprintf': (0, (1 << 31) - 1), 'vsnprintf': (0, (1 << 31) - 1), 'sprintf': (0, (1 << 31) - 1), 'waitpid': (-1, 1 << 30), 'ferror': (0, 1), 'open': (-1, 1 << 20),
          'dup': (-1, 1 << 20), 'pipe': (-1, 0), 'toupper': (-1, 255), 'tolower': (-1, 255), 'feof': (0, 1)}
# resources: (creator -> kind), (releaser -> kind)
RES = {'fopen': 'FILE', 'fdopen': 'FILE', 'popen': 'FILE', 'opendir': 'FILE', 'xmlRegexpCompile': 'rx'}
REL = {'fclose': 'FILE', 'pclose': 'FILE', 'closedir': 'FILE', 'xmlRegFreeRegexp': 'rx'}
MAYNULL = {'gmtime', 'strchr', 'index', 'strstr', 'strpbrk', 'strrchr', 'memchr', 'strsep', 'getenv', 'fgets', 'inet_ntop', 'strtok', 'localtime'}
INTO = {'strchr': 0, 'index': 0, 'strstr': 0, 'strpbrk': 0, 'strrchr': 0, 'memchr': 0}


def writes(n):
    return WRITES.get(n)


def strlen_av(I, st, fr, ins, a):
    if a[0] == 'p' and a[1][0] == 'G' and isinstance(a[2], int):
        g = I.prog.globals.get(a[1][1])
        if g and g['const'] and g.get('init'):
            if 's' in g['init']:
                s = g['init']['s']
                if '\ufffd' not in s:
                    s = s.encode()[a[2]:]
                    return ('c', s.index(0) if 0 in s else len(s))
            elif g['init'].get('zero'):
                return ('c', 0)
    if a[0] == 'p' and a[1][0] in ('D',) and a[2] is not None:
        e = st.ep.get(('t', 'i8'))
        d = ('op', 'strlen', a) if e is None else ('op', 'strlen', a, ('E', e))
        return symav(T.get(d, 0, 1 << 40))
    if fr is None:
        return symav(T.get(('unk', 'len'), 0, 1 << 40))
    return I.fresh(st, fr, ins['i'], ('len', a), None, 0, 1 << 40)


def havoc(I, st, fr, ins, a, sz=None):
    """unknown data written through a"""
    if a[0] != 'p':
        return
    b, off = a[1], a[2]
    cells = st.mem.get(b)
    if b[0] in ('A', 'H'):
        ty = None
        if cells:
            nc = {}
            for o, c in cells.items():
                if o == '*':
                    continue
                if isinstance(o, int) and isinstance(off, int) and (o < off or (sz is not None and o >= off + sz)):
                    nc[o] = c
                    continue
                I._lose(st, c[0])
            s = cells.get('*')
            # whatever is read later from here is unknown (fresh name per write)
            R = I.root(fr, ins['i']); st.gen = st.gen | {R}
            tag = None
            nc['*'] = (('any',), None) if not (isinstance(off, int) and off > 0) else (s if s else (('any',), None))
            st.mem[b] = nc
            # re-reads after a second write must not see the first value
            ep = dict(st.ep); ep[('hv', b)] = R; st.ep = ep
        else:
            st.mem[b] = {'*': (('any',), None)}
    else:
        nc = {o: c for o, c in (cells or {}).items() if o != '*' and isinstance(o, int) and (c[1] == 'ptr' or c[1] != 'i8') and off != o}
        st.mem[b] = nc
        ep = dict(st.ep); R = I.root(fr, ins['i']); ep[('t', 'i8')] = R; st.ep = ep; st.gen = st.gen | {R}


def call(I, fr, ins, st, name, args):
    if name in NORETURN:
        return []
    if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime'):
        return [(None, st)]
    for k in NONNULL.get(name, ()):
        if k >= len(args):
            continue
        a = norm(st, args[k])
        if name.startswith('llvm.mem') or name in ('memcpy', 'memset', 'memmove', 'memcmp'):
            if isconst(args[2]) and cval(args[2]) == 0:
                continue
        if a[0] == 'z':
            I.report('nullderef', fr, ins, st, 'result of %s is passed to %s without the failure having been checked' % (a[1], name), origin=a[1])
            return []
        if a[0] == 'c' and a[1] == 0:
            I.report('constnull', fr, ins, st, 'null pointer is passed to %s' % name)
            return []
        if a[0] == 'p':
            h = st.heap.get(a[1])
            if h and h[0] == 'freed':
                I.report('uaf', fr, ins, st, 'released block (%s) is passed to %s' % (h[1], name))
            if a[1][0] == 'D':
                if a[2] == 0:
                    f = fact(st, a[1][1])
                    if f[0] <= 0:
                        setfact(st, a[1][1], max(f[0], 1), f[1], f[2])
                if T.desc[a[1][1]][0] == 'arg' and fr.parent is None:
                    I.derefs.add(T.desc[a[1][1]][1])
            for hk in I.hooks:
                hk.access(I, fr, ins, st, a, k in WRITES.get(name, ()))
        if a[0] == 'u':
            I.report('undefptr', fr, ins, st, 'uninitialised pointer is passed to %s' % name)
    if name in ALLOC:
        return alloc(I, fr, ins, st, name, args)
    if name == 'free' or name in REL:
        return release(I, fr, ins, st, name, args)
    if name in RES:
        return acquire(I, fr, ins, st, name, args)
    iid = ins['i']
    if name in ('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memmove'):
        copymem(I, fr, ins, st, args)
        return [(args[0], st)]
    if name in ('llvm.memset.p0.i64', 'memset'):
        setmem(I, fr, ins, st, args)
        return [(args[0], st)]
    if name == 'strlen':
        return [(strlen_av(I, st, fr, ins, args[0]), st)]
    if name == '__errno_location':
        return [(('p', ('G', 'errno'), 0), st)]
    if name == '__ctype_b_loc':
        return [(('p', ('G', '__ctype_b'), 0), st)]
    if name == 'strsep' and args[0][0] == 'p' and isinstance(args[0][2], int):
        b, o = args[0][1], args[0][2]
        c = (st.mem.get(b) or {}).get(o)
        p = norm(st, c[0]) if c and c[1] == 'ptr' else None
        if p == ZERO:
            return [(ZERO, st)]
        if p is not None and p[0] == 'p' and p[1][0] in ('H', 'A', 'D') and nonnull(st, p):
            # the token starts at the pointer; the pointer moves on inside the same string or becomes null
            last = st.copy()
            for s1, v in ((st, ('p', p[1], None)), (last, ZERO)):
                cells = dict(s1.mem[b])
                cells[o] = (v, 'ptr', c[2])
                s1.mem[b] = cells
                if p[1][0] == 'D':
                    R = I.root(fr, iid)
                    s1.gen = s1.gen | {R}
                    ep = dict(s1.ep); ep[('t', 'i8')] = R; s1.ep = ep
            return [(p, st), (p, last)]
    for k in WRITES.get(name, ()):
        if k < len(args):
            havoc(I, st, fr, ins, args[k])
    if name in ('strcpy', 'strncpy', 'strcat', 'strncat', 'stpcpy'):
        return [(args[0], st)]
    if name in ('strtoll', 'strtoull', 'strtol', 'strtoul') and len(args) > 1 and args[1][0] == 'p':
        b, o = args[1][1], args[1][2]
        if isinstance(o, int):
            cells = dict(st.mem.get(b) or {})
            p = args[0]
            cells[o] = (('p', p[1], None) if p[0] == 'p' else I.fresh(st, fr, iid, 'end', 'ptr', 1, INF), 'ptr', ('t', 'ptr'))
            st.mem[b] = cells
    if name == 'socketpair' or name == 'pipe':
        k = 3 if name == 'socketpair' else 0
        a = args[k]
        ok = st.copy()
        if a[0] == 'p' and isinstance(a[2], int):
            cells = dict(ok.mem.get(a[1]) or {})
            for j in (0, 1):
                v = I.fresh(ok, fr, iid, ('fd', j), None, 0, 1 << 20)
                cells[a[2] + 4 * j] = (v, 'i32', ('t', 'i32'))
            ok.mem[a[1]] = cells
        for h in I.hooks:
            h.sys(I, fr, ins, ok, name, args, True)
        st.mon = st.mon | {('F', name)}
        I.note(st, fr, ins, name + ' fails')
        return [(ZERO, ok), (('c', -1), st)]
    if name in ('fgetc', 'getc', 'fgets') and 'stream' in I.policy.get('sysfail', ()) and not onstdin(args[-1]):
        # the end of the file and a read error have one answer; ferror tells them apart
        bad = st.copy(); end = st.copy()
        bad.mon = bad.mon | {('F', name)}
        I.note(bad, fr, ins, name + ' fails')
        e = ZERO if name == 'fgets' else ('c', -1)
        return [(args[0] if name == 'fgets' else I.fresh(st, fr, iid, name, None, 0, 255), st), (e, end), (e, bad)]
    if name == 'ferror' and 'stream' in I.policy.get('sysfail', ()) and not onstdin(args[0]):
        if any(m[0] == 'F' and m[1] in ('fgetc', 'getc', 'fgets') for m in st.mon):
            return [(('c', 1), st)]
        return [(ZERO, st)]
    if name in ('gmtime', 'localtime', 'strsep', 'getenv', 'fgets', 'strtok', 'inet_ntop', 'tmpfile') or name in INTO:
        s0 = st.copy()
        if name in INTO and args[0][0] == 'p':
            v = ('p', args[0][1], None)
            R = I.root(fr, iid)
            o = T.get(('q', ('E', R), 'into'), 0, 1 << 40)
            st.gen = st.gen | {R}
            l = lin(args[0][2] if isinstance(args[0][2], tuple) else ('c', args[0][2])) if args[0][2] is not None else None
            if l is not None:
                v = ('p', args[0][1], linadd(symav(o), mklin(l[0], l[1])))
        elif name == 'inet_ntop':
            v = args[2]
        elif name == 'fgets':
            v = args[0]
        else:
            v = I.fresh(st, fr, iid, 'ptr', 'ptr', 1, INF)
            setfact(st, v[1][1], 1, INF, ())
        return [(v, st), (ZERO, s0)]
    if name in ('strerror', 'inet_ntoa', 'fdopen'):
        v = I.fresh(st, fr, iid, 'ptr', 'ptr')
        setfact(st, v[1][1], 1, INF, ())
        return [(v, st)]
    if name in SYSFAIL:
        lo, hi = RANGES.get(name, (-1, (1 << 31) - 1))
        if name in ('read', 'recv', 'write') and len(args) > 2 and isconst(args[2]) and 0 <= cval(args[2]) <= hi:
            hi = cval(args[2])
        bad = st.copy()
        v = I.fresh(st, fr, iid, 'sys', None, 0, hi)
        for h in I.hooks:
            h.sys(I, fr, ins, st, name, args, True, v)
            h.sys(I, fr, ins, bad, name, args, False)
        if name in I.policy.get('sysfail', ()):
            bad.mon = bad.mon | {('F', name)}
            I.note(bad, fr, ins, name + ' fails')
        return [(v, st), (('c', -1), bad)]
    if name == 'regcomp':
        bad = st.copy()
        for h in I.hooks:
            h.sys(I, fr, ins, st, name, args, True)
        return [(ZERO, st), (I.fresh(bad, fr, iid, 'rc', None, 1, 100), bad)]
    for h in I.hooks:
        h.sys(I, fr, ins, st, name, args, True)
    if ins['t'] == 'void':
        return [(None, st)]
    lo, hi = RANGES.get(name, (None, None))
    if lo is None:
        if name in ('strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'memcmp', 'strverscmp') and args[0][0] == 'p' and args[1][0] == 'p':
            e = st.ep.get(('t', 'i8'))
            v = T.get(('op', name, args[0], args[1]) if e is None else ('op', name, args[0], args[1], ('E', e)), -(1 << 31), (1 << 31) - 1)
            return [(symav(v), st)]
        return [(I.fresh(st, fr, iid, name, ins['t']), st)]
    return [(I.fresh(st, fr, iid, name, None, lo, hi), st)]


def onstdin(a):
    if a[0] != 'p' or a[1][0] != 'D':
        return False
    d = T.desc[a[1][1]]
    return d[0] == 'm' and d[1] == ('G', 'stdin')


def alloc(I, fr, ins, st, name, args):
    iid = ins['i']
    loc = fr.fn.loc(ins)
    label = '%s at %s' % (name, loc)
    old = None
    if name in ('realloc', 'reallocarray'):
        old = norm(st, args[0])
        if old[0] == 'p':
            h = st.heap.get(old[1])
            if h and h[0] == 'freed':
                I.report('doublefree', fr, ins, st, 'released block (%s) is passed to %s' % (h[1], name))
    bad = st.copy()
    outs = []
    b = I.newheap(st, fr, iid, 0, label)
    if name in ('malloc', 'calloc') and not all(isconst(norm(st, a)) for a in args):
        I.arrays.add(b)
    if name == 'calloc':
        st.mem[b] = {'*': (ZERO, None)}
    elif name in ('realloc', 'reallocarray') and old[0] == 'p':
        ob = old[1]
        cells = st.mem.get(ob) or {}
        nc = dict(cells)
        if ob[0] in ('D',):
            nc.setdefault('*', ('copy', ob, 0, None))
        st.mem[b] = nc
        if ob[0] == 'H':
            st.mem.pop(ob, None)
        st.heap[ob] = ('freed', 'by %s at %s' % (name, loc))
    elif name in ('strdup', 'strndup'):
        st.mem[b] = {'*': (('any',), None)}
    else:
        st.mem[b] = {'*': (UNDEF, None)}
    sizes = st.tmp.get('size') if st.tmp else None
    for h in I.hooks:
        h.alloc(I, fr, ins, st, name, args, b)
    outs.append((('p', b, 0), st))
    if I.policy.get('allocfail', True):
        bad.mon = bad.mon | {('F', 'alloc')}
        I.note(bad, fr, ins, name + ' fails')
        outs.append((('z', label), bad))
    return outs


def acquire(I, fr, ins, st, name, args):
    bad = st.copy()
    b = I.newheap(st, fr, ins['i'], 0, '%s at %s' % (name, fr.fn.loc(ins)), RES[name])
    st.mem[b] = {'*': (('any',), None)}
    outs = [(('p', b, 0), st)]
    if RES[name] == 'FILE':
        bad.mon = bad.mon | {('F', name)}
        I.note(bad, fr, ins, name + ' fails')
    outs.append((ZERO, bad))
    return outs


def release(I, fr, ins, st, name, args):
    a = norm(st, args[0])
    if isconst(a) or a[0] == 'u':
        if a[0] == 'u':
            I.report('undefptr', fr, ins, st, 'uninitialised pointer is released')
        return [(ZERO if ins['t'] != 'void' else None, st)]
    if a[0] == 'p':
        if isinstance(a[2], int) and a[2] != 0:
            I.report('badfree', fr, ins, st, 'release of an address inside a block')
        elif a[1][0] == 'D' and not nonnull(st, a):
            # free(p) with p possibly null: the non-null case matters
            s0 = st.copy()
            if assume_cmp(s0, 'eq', a, ZERO):
                assume_cmp(st, 'ne', a, ZERO)
                I.dofree(fr, ins, st, a[1], 'at %s' % fr.fn.loc(ins))
                return [(ZERO if ins['t'] != 'void' else None, st), (ZERO if ins['t'] != 'void' else None, s0)]
        I.dofree(fr, ins, st, a[1], 'at %s' % fr.fn.loc(ins))
        for h in I.hooks:
            h.released(I, fr, ins, st, name, a)
    return [(ZERO if ins['t'] != 'void' else None, st)]


def setmem(I, fr, ins, st, args):
    p, v, n = args[0], args[1], args[2]
    if p[0] != 'p':
        return
    b, off = p[1], p[2]
    cells = st.mem.get(b) or {}
    if not isinstance(off, int):
        havoc(I, st, fr, ins, p)
        return
    k = cval(n) if isconst(n) else None
    for o, c in cells.items():
        if o != '*' and b[0] in ('A', 'H', 'D') and isinstance(o, int) and o >= off and (k is None or o < off + k):
            I._lose(st, c[0])
    nc = {o: c for o, c in cells.items() if o != '*' and isinstance(o, int) and (o < off or (k is not None and o >= off + k))}
    val = ZERO if isconst(v) and cval(v) == 0 else ('any',)
    if off == 0:
        old = cells.get('*')
        nc['*'] = (val, None if (k is None or b[0] in ('A', 'H')) else k)
        if old is not None and b[0] in ('A', 'H') and k is not None and isinstance(k, int):
            nc['*'] = (val, None)
    else:
        nc['*'] = (('any',), None) if b[0] in ('A', 'H') else nc.get('*')
        if nc['*'] is None:
            del nc['*']
        if k is not None and val == ZERO and k <= 512:
            for o, c in cells.items():
                if o != '*' and isinstance(o, int) and off <= o < off + k:
                    nc[o] = (ZERO, c[1], c[2])
    st.mem[b] = nc


def copymem(I, fr, ins, st, args):
    d, s, n = args[0], args[1], args[2]
    if d[0] != 'p':
        return
    if s[0] != 'p' or not isinstance(d[2], int) or not isinstance(s[2], int):
        havoc(I, st, fr, ins, d)
        return
    k = cval(n) if isconst(n) else None
    db, do, sb, so = d[1], d[2], s[1], s[2]
    dc = st.mem.get(db) or {}
    sc = st.mem.get(sb) or {}
    for o, c in dc.items():
        if o != '*' and isinstance(o, int) and o >= do and (k is None or o < do + k):
            I._lose(st, c[0])
    nc = {o: c for o, c in dc.items() if o != '*' and isinstance(o, int) and (o < do or (k is not None and o >= do + k))}
    if k is None or k > 4096 or (k is not None and k < 1):
        # character data of unknown length
        if do == 0 and db[0] in ('A', 'H'):
            nc['*'] = (('any',), None)
        st.mem[db] = nc
        if db[0] == 'D':
            e = dict(st.ep); R = I.root(fr, ins['i']); e[('t', 'i8')] = R; st.ep = e; st.gen = st.gen | {R}
        return
    for o, c in sc.items():
        if o != '*' and isinstance(o, int) and so <= o < so + k:
            nc[o - so + do] = c
    star = sc.get('*')
    if star is not None and star[0] != 'copy':
        nc['*'] = (star[0], None if star[1] is None else star[1])
    elif star is not None:
        nc['*'] = star
    elif sb[0] in ('D', 'G'):
        nc['*'] = ('copy', sb, so - do, do + k)
    else:
        nc['*'] = (('any',), None)
    if do != 0:
        old = dc.get('*')
        if db[0] in ('A', 'H'):
            nc['*'] = (('any',), None)
        else:
            nc.pop('*', None)
    st.mem[db] = nc
