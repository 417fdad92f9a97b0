"""C21: text is never interpreted as a print format.

Every call of a formatting function (the C library's, and every library function found to forward a parameter to one as
its format) is resolved to the constant texts its format may be, through locals, selects, constant tables and the
parameters of private functions; anything else (a parameter of a public function, memory, a result) is a violation.
Conversions of each text must agree in number and machine type with the arguments of the call.  Typestate of every
variable-argument list: started afresh before each traversal, ended on every path."""
from common import *
from cvt import conversions, BITS
import ir

FORMATS = {'printf': 0, 'fprintf': 1, 'dprintf': 1, 'sprintf': 1, 'snprintf': 2, 'asprintf': 1, 'syslog': 1, 'err': 1, 'errx': 1,
           'warn': 0, 'warnx': 0, 'error': 2, '__fprintf_chk': 2, '__printf_chk': 1, '__snprintf_chk': 4, '__sprintf_chk': 3}
VFORMATS = {'vprintf': (0, 1), 'vfprintf': (1, 2), 'vsprintf': (1, 2), 'vsnprintf': (2, 3), 'vdprintf': (1, 2), 'vasprintf': (1, 2), 'vsyslog': (1, 2)}
SCANS = {'sscanf': 1, '__isoc99_sscanf': 1, 'fscanf': 1, '__isoc99_fscanf': 1, 'scanf': 0, '__isoc99_scanf': 0, '__isoc23_sscanf': 1}
TIME = {'strftime': 2}
INT = 'diouxXc'
FLT = 'eEfFgGaA'


def gtext(p, n, off=0):
    g = p.globals.get(n)
    if not g or not (g.get('const') or n.startswith('.str')):
        return None
    ini = g.get('init')
    if isinstance(ini, dict):
        if ini.get('s') is not None:
            return ini['s'][off or 0:].split('\0')[0]
        if ini.get('zero'):
            return ''
    return None


class Resolve:
    def __init__(self, p, api):
        self.p = p; self.api = api
        self.wrap = {}        # library function -> index of format parameter (variadic or va_list taking)
        ch = True
        while ch:
            ch = False
            for f in p.defined.values():
                if f.name in self.wrap:
                    continue
                for ins in ir.calls(f):
                    k = self.fmtindex(ins)
                    if k is None or k >= len(ins['a']):
                        continue
                    fwd = ins['fn'] in VFORMATS or (p.fns.get(ins['fn']) is not None and not p.fns[ins['fn']].va and ins['fn'] in self.wrap)
                    for r in ir.root(f, ins['a'][k]):
                        # the wrapper hands on its own argument list
                        if r[0] == 'a' and fwd and (f.va or any('va_list' in t for t in f.sig)):
                            self.wrap[f.name] = r[1]; ch = True

    def fmtindex(self, ins):
        n = ins.get('fn')
        if n in FORMATS:
            return FORMATS[n]
        if n in VFORMATS:
            return VFORMATS[n][0]
        return self.wrap.get(n)

    def texts(self, f, o, seen=None):
        """(set of constant texts, list of other origins (description, fn, ins))"""
        p = self.p; out = set(); bad = []
        seen = set() if seen is None else seen
        todo = [(f, list(o), None)]
        while todo:
            f, o, at = todo.pop()
            k = (f.name, tuple(o[:3]))
            if k in seen:
                continue
            seen.add(k)
            if o[0] == 'g':
                t = gtext(p, o[1], o[2] if len(o) > 2 else 0)
                if t is None:
                    bad.append(('modifiable object %s' % o[1], f, at))
                else:
                    out.add(t)
            elif o[0] == 'n':
                pass
            elif o[0] == 'a':
                if self.wrap.get(f.name) == o[1]:
                    continue
                if f.name in self.api or not f.internal and f.name not in p.callers or f.name in p.addrtaken:
                    bad.append(('argument %d of %s' % (o[1] + 1, f.name), f, at))
                for g, ins in p.callers.get(f.name, ()):
                    if o[1] < len(ins['a']):
                        todo.append((g, ins['a'][o[1]], ins))
            elif o[0] == 'v':
                d = f.defs.get(o[1])
                if d is None:
                    bad.append(('unknown value', f, at))
                elif d['op'] == 'phi':
                    todo += [(f, x, d) for x, _ in d['inc']]
                elif d['op'] == 'select':
                    todo += [(f, x, d) for x in d['a'][1:]]
                elif d['op'] in ('bitcast', 'freeze'):
                    todo.append((f, d['a'][0], d))
                elif d['op'] == 'getelementptr' and not d.get('vars') and d['a'][0][0] == 'g':
                    g = d['a'][0]
                    todo.append((f, ['g', g[1], (g[2] if len(g) > 2 and g[2] else 0) + d.get('co', 0)], d))
                elif d['op'] == 'load':
                    base, off, fld = ir.addr(f, d['a'][0])
                    g = p.globals.get(base[1]) if base[0] == 'g' else None
                    if g and g.get('const') and isinstance(g.get('init'), dict) and g['init'].get('agg'):
                        for x in flat(g['init']):
                            if x.get('op'):
                                todo.append((f, x['op'], d))
                    elif base[0] == 'v' and f.defs.get(base[1], {}).get('op') == 'alloca':
                        n = 0
                        for b in f.blocks:
                            for i in b:
                                if i['op'] == 'store' and ir.addr(f, i['a'][1])[0] == base:
                                    todo.append((f, i['a'][0], i)); n += 1
                                if i['op'] == 'call' and any(ir.addr(f, x)[0] == base for x in i['a']) and not i['fn'].startswith('llvm.'):
                                    bad.append(('local variable set by %s' % i.get('fn'), f, i))
                        if not n:
                            bad.append(('local buffer', f, d))
                    else:
                        bad.append(('text read from memory (%s)' % (fld[0] if fld else base[1]), f, d))
                elif d['op'] == 'call':
                    g = p.defined.get(d.get('fn'))
                    if g is None:
                        bad.append(('result of %s' % d.get('fn'), f, d))
                    else:
                        for b in g.blocks:
                            if b[-1]['op'] == 'ret':
                                todo += [(g, x, b[-1]) for x in operands(b[-1])]
                else:
                    bad.append(('text held in memory', f, d))
            else:
                bad.append(('unknown value', f, at))
        return out, bad


def flat(i):
    if i.get('agg'):
        for x in i['agg']:
            yield from flat(x)
    else:
        yield i


def optype(f, o):
    if o[0] == 'v':
        return f.defs[o[1]]['t'] if o[1] in f.defs else None
    if o[0] == 'a':
        return f.params[o[1]]['t']
    if o[0] == 'c':
        return 'i%d' % o[2]
    if o[0] in ('g', 'n', 'f'):
        return 'ptr'
    return None


def match(text, f, args):
    """what is wrong with these arguments for this format, or None"""
    want = []
    try:
        for c in conversions(text):
            if len(c) == 1:
                continue
            fl, lm, ch, stars = c
            want += [('i32', '*')] * stars
            if ch == 'n':
                return 'conversion %n'
            if ch == 'm':
                continue
            if ch in INT:
                want.append(('i%d' % max(32, BITS[lm]), ch))
            elif ch in FLT:
                want.append(('x86_fp80' if lm == 'L' else 'double', ch))
            elif ch in 'sp':
                want.append(('ptr', ch))
            else:
                return 'unknown conversion %%%s' % ch
    except (ValueError, IndexError, KeyError):
        return 'malformed conversion'
    if len(want) != len(args):
        return '%d conversions and %d arguments' % (len(want), len(args))
    for i, ((w, ch), a) in enumerate(zip(want, args)):
        t = optype(f, a)
        if t is not None and t != w:
            return 'argument %d is %s where %%%s takes %s' % (i + 1, t, ch, w)
    return None


def valists(f):
    """variable argument lists of a function: base operand -> description"""
    out = {}
    for ins in ir.calls(f, 'llvm.va_start', 'llvm.va_copy'):
        out[ir.addr(f, ins['a'][0])[0]] = ins
    return out


def vastate(p, R, f, fs):
    ls = valists(f)
    n = 0
    pa = {('a', i - 1) for i, t in enumerate(f.sig) if i and ('va_list' in t)}
    for base in list(ls) + sorted(pa):
        start = 'started' if base in pa else 'none'
        inn = {0: frozenset([start])}; todo = [0]; seen = {}

        def step(s, ins, rep):
            if ins['op'] == 'call':
                nm = ins.get('fn') or ''
                hit = [k for k, x in enumerate(ins['a']) if ir.addr(f, x)[0] == base]
                if hit:
                    if nm in ('llvm.va_start',) or nm == 'llvm.va_copy' and hit[0] == 0:
                        if rep and s & {'started', 'used'}:
                            rep('restarted without being ended', ins)
                        return frozenset(['started'])
                    if nm == 'llvm.va_copy':
                        if rep and s != {'started'}:
                            rep('copied after it was traversed or before it was started', ins)
                        return s
                    if nm == 'llvm.va_end':
                        if rep and 'none' in s:
                            rep('ended without being started', ins)
                        return frozenset(['none'])
                    if rep and s != {'started'}:
                        rep('traversed again without being restarted' if 'used' in s else 'traversed without being started', ins)
                    return frozenset(['used'])
            elif ins['op'] == 'ret' and rep and base not in pa and s & {'started', 'used'}:
                rep('not ended on a path out of the function', ins)
            return s
        while todo:
            b = todo.pop()
            s = inn[b]
            for ins in f.blocks[b]:
                s = step(s, ins, None)
            for x in f.succs[b]:
                m = inn.get(x, frozenset()) | s
                if m != inn.get(x):
                    inn[x] = m; todo.append(x)
        for b in inn:
            s = inn[b]
            for ins in f.blocks[b]:
                def rep(msg, i):
                    fs.append(finding('valist|%s|%s' % (f.name, msg), '%s %s' % (f.loc(i), f.name),
                                      'the variable argument list is %s' % msg, 'variable arguments started afresh and ended'))
                s = step(s, ins, rep)
        n += 1
    return n


def run(tier):
    p = program(); api = public_api(p)
    R = Resolve(p, api)
    fs = []; calls = 0; texts = 0; checked = 0; nva = 0
    for f in p.defined.values():
        if os.path.basename(f.file) in GENERATED and False:
            continue
        for ins in ir.calls(f):
            n = ins.get('fn')
            k = R.fmtindex(ins); scan = False
            if k is None and n in SCANS:
                k = SCANS[n]; scan = True
            if k is None and n in TIME:
                k = TIME[n]; scan = True
            if k is None or k >= len(ins['a']):
                continue
            if generated(f.loc(ins)):
                continue
            calls += 1
            T, bad = R.texts(f, ins['a'][k])
            where = '%s %s' % (f.loc(ins), f.name)
            for d, g, at in bad:
                fs.append(finding('format|%s|%s|%s' % (f.name, n, d), where, 'the format of %s is not fixed: it may be %s' % (n, d), 'constant formats'))
            v = n in VFORMATS or (n in R.wrap and not p.fns[n].va)
            for t in sorted(T):
                texts += 1
                if v or n in TIME:
                    continue
                if scan:
                    k2 = len([c for c in re.findall(r'%(\*?)[^%]', t) if c != '*'])
                    if k2 != len(ins['a']) - k - 1:
                        fs.append(finding('args|%s|%s' % (f.name, t[:30]), where, '%s with format "%s": %d conversions, %d arguments' % (n, t, k2, len(ins['a']) - k - 1), 'conversions agree with arguments'))
                    continue
                checked += 1
                w = match(t, f, ins['a'][k + 1:])
                if w:
                    fs.append(finding('args|%s|%s' % (f.name, t[:30]), where, '%s with format "%s": %s' % (n, t.replace('\n', '\\n'), w), 'conversions agree with arguments'))
        if f.va or any('va_list' in t for t in f.sig) or valists(f):
            nva += vastate(p, R, f, fs)
    if calls < 150 or len(R.wrap) < 3 or nva < 4:
        raise Broken('only %d formatted prints, %d wrappers, %d argument lists recognised' % (calls, len(R.wrap), nva))
    return {'findings': fs, 'assumptions': ['text handed to the library by its application in the format argument of a formatting function of the public interface is the application\'s own fixed format',
                                            'machine types of the target (x86-64): int 32, long and pointers 64 bits'],
            'coverage': dict(p.stats(), formatting_calls=calls, format_texts=texts, argument_lists_matched=checked, wrappers=R.wrap, variable_argument_lists=nva,
                             explanation='%d formatting calls resolved to %d constant texts, %d argument lists matched, %d variable-argument lists followed' % (calls, texts, checked, nva))}
