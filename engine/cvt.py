"""Which bytes of a value's union belong to which type, and what a function reads, writes and prints of them."""
from scen import *
import libc

INTS = {'CGV_INT8': ('varu_int8', 8, True), 'CGV_INT16': ('varu_int16', 16, True), 'CGV_INT32': ('varu_int32', 32, True),
        'CGV_INT64': ('varu_int64', 64, True), 'CGV_UINT8': ('varu_uint8', 8, False), 'CGV_UINT16': ('varu_uint16', 16, False),
        'CGV_UINT32': ('varu_uint32', 32, False), 'CGV_UINT64': ('varu_uint64', 64, False)}
STRS = ('CGV_REST', 'CGV_STRING', 'CGV_INTERFACE')
URL = ['varurl_proto', 'varurl_user', 'varurl_passwd', 'varurl_addr', 'varurl_path']
# members of a type; members whose bytes are the value (printed and parsed)
MEMBERS = {t: [m] for t, (m, w, s) in INTS.items()}
MEMBERS.update({t: ['varu_string'] for t in STRS})
MEMBERS.update({'CGV_BOOL': ['varu_bool'], 'CGV_DEC64': ['vardec64_i', 'vardec64_n'], 'CGV_IPV4ADDR': ['varipv4_ipv4addr'],
                'CGV_IPV4PFX': ['varipv4_ipv4addr', 'varipv4_masklen'], 'CGV_IPV6ADDR': ['varipv6_ipv6addr'],
                'CGV_IPV6PFX': ['varipv6_ipv6addr', 'varipv6_masklen'], 'CGV_MACADDR': ['varu_macaddr'], 'CGV_URL': URL,
                'CGV_UUID': ['varu_uuid'], 'CGV_TIME': ['varu_time'], 'CGV_VOID': ['varu_void'], 'CGV_EMPTY': [], 'CGV_ERR': []})
EXTRA = {'CGV_IPV4ADDR': ['varipv4_masklen'], 'CGV_IPV6ADDR': ['varipv6_masklen']}
OWNED = {t: ['varu_string'] for t in STRS}
OWNED['CGV_URL'] = URL
NAMES = {'int8': 'CGV_INT8', 'int16': 'CGV_INT16', 'int32': 'CGV_INT32', 'int64': 'CGV_INT64', 'uint8': 'CGV_UINT8',
         'uint16': 'CGV_UINT16', 'uint32': 'CGV_UINT32', 'uint64': 'CGV_UINT64', 'decimal64': 'CGV_DEC64', 'bool': 'CGV_BOOL',
         'rest': 'CGV_REST', 'string': 'CGV_STRING', 'interface': 'CGV_INTERFACE', 'ipv4addr': 'CGV_IPV4ADDR',
         'ipv4prefix': 'CGV_IPV4PFX', 'ipv6addr': 'CGV_IPV6ADDR', 'ipv6prefix': 'CGV_IPV6PFX', 'macaddr': 'CGV_MACADDR',
         'url': 'CGV_URL', 'uuid': 'CGV_UUID', 'time': 'CGV_TIME', 'void': 'CGV_VOID', 'empty': 'CGV_EMPTY'}


def span(p, ms):
    s = set()
    for m in ms:
        o, sz, ty = member(p, 'cg_var', m)
        s |= set(range(o, o + sz))
    return s


def union(p):
    for m in p.ditypes['cg_var']['m']:
        if m['n'] == 'u':
            return m['o'], m['sz']
    raise Broken('struct cg_var has no union u')


def lltw(t):
    return {'ptr': 8, 'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'double': 8, 'float': 4}.get(t, 8)


EXTLEN = {'gmtime': [8], 'localtime': [8], 'gmtime_r': [8], 'localtime_r': [8], 'ctime': [8], 'ctime_r': [8]}
LEN2 = {'memcmp', 'memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'bcmp'}


class Foot(Hook):
    """the bytes of the object that are read and written, with the place"""
    def __init__(self, base, lo, hi):
        self.b = base; self.lo = lo; self.hi = hi
        self.r = {}; self.w = {}; self.unk = []

    def note(self, d, o, n, where):
        for k in range(max(o, self.lo), min(o + n, self.hi)):
            d.setdefault(k, where)

    def access(self, I, fr, ins, st, q, wr):
        if ins['op'] not in ('load', 'store'):
            return
        q = norm(st, q)
        if q[0] == 'p' and q[1] == self.b:
            if not isinstance(q[2], int):
                r = interval(st, q[2]) if isinstance(q[2], tuple) else (-INF, INF)
                if r[1] < self.lo or r[0] >= self.hi:
                    return
                n = lltw(ins['vt'] if ins['op'] == 'store' else ins['t'])
                lo, hi = max(r[0], self.lo), min(r[1] + n, self.hi)
                self.note(self.w if wr else self.r, int(lo), int(hi - lo), fr.fn.loc(ins))
                if r[0] < self.lo or r[1] >= self.hi:
                    self.unk.append(fr.fn.loc(ins))
                return
            n = lltw(ins['vt'] if ins['op'] == 'store' else ins['t'])
            self.note(self.w if wr else self.r, q[2], n, fr.fn.loc(ins))

    def call(self, I, fr, ins, st, name, args):
        if name in I.prog.defined or name.startswith(('llvm.dbg', 'llvm.lifetime')) or name == 'free':
            return None
        for k, a in enumerate(args):
            a = norm(st, a)
            if a[0] != 'p' or a[1] != self.b or not isinstance(a[2], int):
                continue
            n = None
            if name in LEN2 or name.endswith('memset') or name.startswith('llvm.memset'):
                c = norm(st, args[2]); n = cval(c) if isconst(c) else None
            elif name in ('inet_ntop', 'inet_pton'):
                c = norm(st, args[0]); n = {2: 4, 10: 16}.get(cval(c)) if isconst(c) else None
            elif name in EXTLEN:
                n = EXTLEN[name][0]
            if n is None:
                self.unk.append('%s (%s)' % (fr.fn.loc(ins), name)); continue
            wr = k in libc.WRITES.get(name, ())
            self.note(self.w if wr else self.r, a[2], n, fr.fn.loc(ins))
        return None


def conversions(s):
    """[(literal,)|(flags, length modifier, conversion, number of * arguments)] of a format"""
    out = []; i = 0
    while i < len(s):
        if s[i] != '%':
            j = s.find('%', i)
            j = len(s) if j < 0 else j
            out.append((s[i:j],)); i = j; continue
        if s[i + 1:i + 2] == '%':
            out.append(('%',)); i += 2; continue
        j = i + 1; stars = 0; lm = ''
        while j < len(s) and s[j] in '-+ #0123456789.*\'':
            stars += s[j] == '*'; j += 1
        fl = s[i + 1:j]
        while j < len(s) and s[j] in 'hljztLq':
            lm += s[j]; j += 1
        if j >= len(s):
            raise ValueError('incomplete conversion')
        out.append((fl, lm, s[j], stars)); i = j + 1
    return out


def cstr(I, st, v):
    """text of a pointer to a constant string"""
    v = norm(st, v)
    if v[0] != 'p' or not isinstance(v[2], int) or v[1][0] != 'G':
        return None
    g = I.prog.globals.get(v[1][1])
    if not g or not g.get('const') and not v[1][1].startswith('.str'):
        return None
    ini = g.get('init')
    s = ini.get('s') if isinstance(ini, dict) else None
    if s is None:
        return '' if isinstance(ini, dict) and ini.get('zero') else None
    return s[v[2]:].split('\0')[0]


PRINTS = {'printf': (0, None), 'fprintf': (1, 0), 'dprintf': (1, 0), 'snprintf': (2, 0), 'sprintf': (1, 0), 'cprintf': (1, 0)}
BITS = {'hh': 8, 'h': 16, '': 32, 'l': 64, 'll': 64, 'j': 64, 'z': 64, 't': 64, 'q': 64}


class Out(Hook):
    """what is printed, in order, to every destination: ('lit', s) ('int', v, bits, conv, flags) ('str', v) ('ptr', v) ('addr', family, pointer or word)"""
    def __init__(self):
        self.bad = []

    def get(self, st, d):
        for m in st.mon:
            if m[0] == 'out' and m[1] == d:
                return m[2]
        return ()

    def put(self, st, d, items, fresh=False):
        old = self.get(st, d)
        rest = frozenset(m for m in st.mon if not (m[0] == 'out' and m[1] == d))
        new = tuple(items) if fresh else old + tuple(items)
        st.mon = rest | {('out', d, new[:48])}

    def text(self, I, st, v):
        v = norm(st, v)
        s = cstr(I, st, v)
        if s is not None:
            return (('lit', s),) if s else ()
        if v[0] == 'p' and v[2] == 0:
            o = self.get(st, v[1])
            if o:
                return o
        return (('str', v),)

    def call(self, I, fr, ins, st, name, args):
        if name in PRINTS:
            fi, di = PRINTS[name]
            if len(args) <= fi:
                return None
            s = cstr(I, st, args[fi])
            d = norm(st, args[di]) if di is not None else ('stdout',)
            if s is None:
                self.bad.append((fr.fn.loc(ins), 'the format of %s is not a constant' % name)); return None
            items = []; k = fi + 1
            try:
                for c in conversions(s):
                    if len(c) == 1:
                        items.append(('lit', c[0])); continue
                    k += c[3]
                    a = norm(st, args[k]); k += 1
                    if c[2] == 's':
                        items += self.text(I, st, a)
                    elif c[2] == 'p':
                        items.append(('ptr', a))
                    elif c[2] == 'c':
                        items.append(('chr', a))
                    else:
                        items.append(('int', a, BITS.get(c[1], 64), c[2], c[0]))
            except (IndexError, ValueError) as e:
                self.bad.append((fr.fn.loc(ins), 'format and arguments of %s do not agree' % name)); return None
            if name in ('snprintf', 'sprintf') and d[0] == 'p':
                self.put(st, d[1], items, d[2] == 0)
            elif name in ('snprintf', 'sprintf'):
                pass
            else:
                self.put(st, d[1] if d[0] == 'p' else d, items)
            if name == 'cprintf':
                r = I.fresh(st, fr, ins['i'], 'cprintf', 'i32', -1, 0)
                return [(r, st)]
            return None
        if name in ('fputs', 'cbuf_append_str', 'cbuf_append', 'fputc', 'putc', 'puts', 'strcpy', 'strncpy', 'strlcpy', 'strcat', 'strncat'):
            fp = name in ('fputs', 'fputc', 'putc')
            if name == 'puts':
                args = [('stdout',)] + list(args); fp = False
            d, v = norm(st, args[1 if fp else 0]), args[0 if fp else 1]
            it = self.text(I, st, v) if name not in ('cbuf_append', 'fputc', 'putc') else (('chr', norm(st, v)),)
            self.put(st, d[1] if d[0] == 'p' else d, it, name in ('strcpy', 'strncpy', 'strlcpy') and d[0] == 'p' and d[2] == 0)
            if name.startswith('cbuf'):
                return [(I.fresh(st, fr, ins['i'], name, 'i32', -1, 0), st)]
            return None
        if name == 'inet_ntoa':
            s = T.get(('in', 'inet_ntoa', ins['i'], fr.fn.name), 1, INF)
            st.facts[s] = (1, INF, ())
            self.put(st, ('D', s), [('addr', 2, norm(st, args[0]))], True)
            return [(ptrav(s), st)]
        if name == 'inet_ntop':
            d = norm(st, args[2])
            if d[0] == 'p':
                s2 = st.copy()
                self.put(st, d[1], [('addr', norm(st, args[0]), norm(st, args[1]))], d[2] == 0)
                return [(d, st), (ZERO, s2)]
        return None


def ev(v, m, x):
    """value of an expression over the single symbol m, at m = x; None: something else is in it"""
    if isconst(v):
        return cval(v)
    if v[0] != 'l':
        return None
    t = v[2]
    for s, c in v[1]:
        if s == m:
            t += c * x; continue
        d = T.desc[s]
        if d[0] == 'op' and d[1][:2] in ('zx', 'sx', 'tr', 'wr') and len(d) == 3:
            a = ev(d[2], m, x)
            if a is None:
                return None
            w = int(d[1].lstrip('zxsrtwap'))
            a %= 1 << w
            if d[1][:2] != 'zx' and a >> (w - 1):
                a -= 1 << w
            t += c * a
        else:
            return None
    return t


def printed(item, m, x):
    """the number an ('int', …) item shows when the symbol m is x"""
    a = ev(item[1], m, x)
    if a is None:
        return None
    b = item[2]
    a %= 1 << b
    if item[3] in 'di' and a >> (b - 1):
        a -= 1 << b
    return a
