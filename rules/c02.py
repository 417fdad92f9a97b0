"""C02: a command specification with a refused construct is rejected as a whole.

1. Grammar actions: for every call in the generated parser of a library function that can fail (its summary has a
   failing outcome) or of an allocator, the path on which it failed is followed through the control-flow graph: it must
   enter the error exit of the parser and never the tail of the reduction, nor accept.  The grammar recovers from no error.
2. Scanner: a lexeme that cannot be stored ends the scan with an invalid token on every path, and no character falls
   through to the default rule that would leave it out.
3. Construction functions of the grammar: a step that refuses its text (unknown type, a number that is not
   accepted, a range limit that is not a value of the type) makes the function fail, on every path; a number of
   fraction digits is 1..18 and a variable without a type is never inserted.
4. The failed steps of the loading functions and of the construction functions reach their results (failure dataflow
   as in C01, restricted to these files)."""
from scen import *
import main1

FILES = ('cligen_parse.y', 'cligen_parse.l', 'cligen_syntax.c')
ALLOC = {'malloc', 'calloc', 'realloc', 'strdup', 'strndup'}


PRED = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b,
        'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}


class Walk:
    """follows one failed result through the control-flow graph of a function: values that follow from the result are
    constants, everything else is unknown"""

    def __init__(self, fn, stop):
        self.fn = fn; self.stop = stop      # stop(block, ins) -> label or None

    def val(self, env, o):
        if o[0] == 'c':
            return o[1]
        if o[0] == 'n':
            return 0
        if o[0] == 'v':
            return env.get(o[1])
        return None

    def addr(self, o, depth=0):
        """name of a location: how it is reached"""
        off = 0
        while o[0] == 'v' and depth < 12:
            d = self.fn.defs.get(o[1])
            if d is None:
                return None
            depth += 1
            if d['op'] == 'getelementptr' and len(d['a']) == 1 and isinstance(d.get('co'), int):
                off += d['co']; o = d['a'][0]; continue
            if d['op'] == 'load':
                a = self.addr(d['a'][0], depth)
                return a and (('at', a), off)
            return (o[1], off)
        return (tuple(o), off)

    def run(self, b, i, value):
        """labels of what can be reached from instruction i of block b, whose result is value"""
        ins = self.fn.blocks[b][i]
        out = {}
        work = [(b, i + 1, {ins['i']: value}, {}, (self.fn.loc(ins),))]
        seen = set()
        while work:
            b, i, env, mem, tr = work.pop()
            dead = False
            for ins in self.fn.blocks[b][i:]:
                op = ins['op']
                lab = self.stop(b, ins, lambda o: self.val(env, o))
                if lab:
                    out.setdefault(lab, (self.fn.loc(ins), tr)); dead = True
                    break
                r = None
                if op == 'phi':
                    continue
                if op == 'store':
                    a = self.addr(ins['a'][1])
                    if a:
                        mem = dict(mem)
                        v = self.val(env, ins['a'][0])
                        if v is None:
                            mem.pop(a, None)
                        else:
                            mem[a] = v
                elif op == 'load':
                    a = self.addr(ins['a'][0])
                    r = mem.get(a) if a else None
                elif op == 'icmp':
                    x, y = (self.val(env, o) for o in ins['a'])
                    if x is not None and y is not None and ins['pred'] in PRED:
                        r = int(PRED[ins['pred']](x, y))
                elif op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'ptrtoint'):
                    r = self.val(env, ins['a'][0])
                elif op in ('and', 'or', 'xor'):
                    x, y = (self.val(env, o) for o in ins['a'])
                    if x is not None and y is not None:
                        r = x & y if op == 'and' else x | y if op == 'or' else x ^ y
                        if ins['t'] == 'i1':
                            r &= 1
                    elif op == 'and' and 0 in (x, y):
                        r = 0
                elif op == 'select':
                    c = self.val(env, ins['a'][0])
                    if c is not None:
                        r = self.val(env, ins['a'][1 if c else 2])
                elif op == 'ret':
                    v = self.val(env, ins['a'][0]) if ins.get('a') else None
                    out.setdefault(('ret', v), (self.fn.loc(ins), tr))
                elif op in ('br', 'switch'):
                    to = list(ins['to']) if op == 'br' else None
                    if op == 'br':
                        if len(to) == 2:
                            c = self.val(env, ins['a'][0])
                            if c is not None:
                                to = [to[0] if c else to[1]]
                    else:
                        c = self.val(env, ins['a'][0])
                        to = sorted({x[1] for x in ins['cases']} | {ins['default']} if c is None else {dict(map(tuple, ins['cases'])).get(c, ins['default'])})
                    for t in to:
                        e2 = env
                        new = {}
                        for ph in self.fn.blocks[t]:
                            if ph['op'] != 'phi':
                                break
                            for o, pb in ph['inc']:
                                if pb == b:
                                    new[ph['i']] = self.val(env, o)
                        if new:
                            e2 = {k: v for k, v in env.items() if k not in new}
                            e2.update({k: v for k, v in new.items() if v is not None})
                        k = (t, frozenset(e2.items()), frozenset(mem.items()))
                        if k not in seen:
                            if len(seen) > 40000:
                                raise Broken('a failed result in %s could not be followed' % self.fn.name)
                            seen.add(k)
                            work.append((t, 0, e2, mem, (tr + (self.fn.loc(ins),))[-12:]))
                if r is None:
                    if ins.get('i') in env:
                        env = dict(env); env.pop(ins['i'], None)
                elif 'i' in ins:
                    env = dict(env); env[ins['i']] = r
            if dead:
                continue
        return out


def uses(ins, g):
    return any(o[0] == 'g' and o[1] == g for o in ins.get('a', ()) if isinstance(o, (list, tuple)) and len(o) > 1)


def grammar(p, may, fs):
    """obligation 1"""
    f = p.defined['cligen_parseparse']
    need = {g: sum(uses(i, g) for b in f.blocks for i in b) for g in ('yyr1', 'yypact', 'yycheck')}
    if not all(need.values()):
        raise Broken('parser skeleton not recognised: %s' % need)
    tok = [l for l in open(os.path.join(front.REPO, 'cligen_parse.y'), errors='replace').read().split('\n%%')[1].split('\n')]
    if any(re.search(r'(^|[:|])\s*error\b', l) for l in tok):
        fs.append(finding('recovery', 'cligen_parse.y', 'the grammar recovers from an error (token error)', 'grammar action'))

    def stop(b, ins, val):
        if ins['op'] in ('getelementptr', 'load'):
            if uses(ins, 'yyr1'):
                return 'reduced'
            if uses(ins, 'yypact'):
                return 'error exit'
        return None
    w = Walk(f, stop); n = 0; helpers = set()
    for b, bl in enumerate(f.blocks):
        for i, ins in enumerate(bl):
            name = ins.get('fn')
            if ins['op'] != 'call' or name is None or not (name in may or name in ALLOC) or not f.loc(ins).startswith('cligen_parse.y:'):
                continue
            if p.defined.get(name) and p.defined[name].ret == 'void':
                continue
            n += 1; helpers.add(name)
            for lab, (loc, tr) in sorted(w.run(b, i, 0 if ins['t'] == 'ptr' else -1).items(), key=repr):
                if lab == 'reduced' or (lab[0] == 'ret' and lab[1] == 0):
                    fs.append(finding('action|%s|%s' % (name, lab if lab == 'reduced' else 'accepted'), '%s cligen_parseparse' % f.loc(ins),
                                      'when %s fails here the construct is left out and the specification goes on to be %s' % (name, 'parsed' if lab == 'reduced' else 'accepted'),
                                      'grammar action', tr))
    return n, helpers


def scanner(p, fs):
    """obligation 2"""
    f = p.defined['cligen_parselex']
    copy = {n for n in p.defined if n in ('stripdup',) or (p.defined[n].file.endswith('cligen_parse.l') and p.defined[n].ret == 'ptr')}

    def stop(b, ins, val):
        if ins['op'] in ('getelementptr', 'load') and any(uses(ins, g) for g in ('yy_ec', 'yy_nxt', 'yy_base')):
            return 'scan goes on'
        return None
    w = Walk(f, stop); n = 0
    for b, bl in enumerate(f.blocks):
        for i, ins in enumerate(bl):
            if ins['op'] == 'call' and (ins.get('fn') in copy or ins.get('fn') in ALLOC) and f.loc(ins).startswith('cligen_parse.l:'):
                n += 1
                for lab, (loc, tr) in sorted(w.run(b, i, 0).items(), key=repr):
                    if lab[0] == 'ret' and lab[1] is not None and lab[1] <= 0:
                        continue
                    fs.append(finding('lexeme|%s|%s' % (ins['fn'], lab if isinstance(lab, str) else lab[1]), '%s cligen_parselex' % f.loc(ins),
                                      'when the lexeme cannot be stored %s' % (lab if isinstance(lab, str) else 'token %s is handed out' % lab[1]), 'scanner', tr))
    if n < 10:
        raise Broken('only %d lexeme copies found in the scanner' % n)
    return n


def dropped(p, fs):
    """obligation 2, text: no character of a specification is matched by the scanner's default rule, which leaves it out
    (from the automaton that flex generated: one step from every start condition with every character)"""
    def tab(n, pad=0):
        g = p.globals.get('yy_' + n, {}).get('init') or {}
        r = list(g['ints']) if 'ints' in g else [ord(x) for x in g['s']] if 's' in g else None
        if r is None:
            raise Broken('scanner table yy_%s not recognised' % n)
        return r + [0] * pad
    acc, ec, base, df, nxt, chk, meta = tab('accept'), tab('ec', 256), tab('base'), tab('def'), tab('nxt'), tab('chk'), tab('meta', 4)
    default = max(acc) - 1
    text = open(os.path.join(front.REPO, 'cligen_parse.l'), errors='replace').read().split('\n%%')[0]
    names = ['INITIAL'] + [x for l in re.findall(r'^%[sx](.*)$', text, re.M) for x in l.split()]
    if len(names) < 5 or default < 40:
        raise Broken('scanner not recognised')
    n = 0
    for k, name in enumerate(names):
        for bol in (0, 1):
            for c in range(1, 256):
                s = 2 * k + 1 + bol; e = ec[c]; r = 0
                while chk[base[s] + e] != s:
                    s = df[s]; r += 1
                    if s >= len(acc):
                        e = meta[e]
                    if r > 10000:
                        raise Broken('scanner tables not recognised')
                t = nxt[base[s] + e]
                n += 1
                if acc[t] == default and not bol:
                    fs.append(finding('dropped|%s|%d' % (name, c), 'cligen_parse.l %s' % name,
                                      'the character %r is left out of the specification and parsing goes on' % chr(c), 'scanner'))
    return n


REFUSE = re.compile(r'^parse_u?int(8|16|32|64)$')


class Refuse(Hook):
    """contracts of the steps that refuse a text"""

    def __init__(self, p):
        self.p = p; self.err = enum(p, 'CGV_ERR'); self.sites = set()

    def call(self, I, fr, ins, st, name, args):
        if name is None:
            return None
        bad = st.copy()
        if name == 'cv_str2type':
            bad.mon = bad.mon | {('R', name, fr.fn.loc(ins))}
            v = I.fresh(st, fr, ins['i'], 'type', 'i32', self.err + 1, max(v for k, v in self.p.enumval.items() if k.startswith('CGV_')))
            self.sites.add((fr.fn.name, fr.fn.loc(ins)))
            return [(('c', self.err), bad), (v, st)]
        if REFUSE.match(name) or name in ('cv_parse1', 'cv_parse'):
            self.sites.add((fr.fn.name, fr.fn.loc(ins)))
            bad.mon = bad.mon | {('R', name, fr.fn.loc(ins))}
            err = bad.copy()
            out = []
            for s, v in ((bad, ZERO), (err, ('c', -1)), (st, ('c', 1))):
                if name == 'cv_parse':
                    if v == ZERO:
                        continue
                    v = ZERO if v == ('c', 1) else v
                elif REFUSE.match(name) and v == ('c', 1):
                    # the number that was read
                    a = norm(s, args[1])
                    w = int(re.search(r'\d+', name).group())
                    lo, hi = (0, (1 << w) - 1) if 'uint' in name else trange(w)
                    if a[0] == 'p' and a[2] is not None:
                        key = a[2]
                        cells = dict(s.mem.get(a[1]) or {})
                        tag = next((c[2] for o, c in cells.items() if o == key), None)
                        x = symav(T.get(('in', 'number', fr.fn.name), lo, hi))
                        cells[key] = (x, 'i%d' % w, tag or ('t', 'i%d' % w))
                        s.mem[a[1]] = cells
                elif v == ZERO:
                    a = norm(s, args[-1])
                    if a[0] == 'p':
                        cells = dict(s.mem.get(a[1]) or {})
                        cells[a[2]] = (I.fresh(s, fr, ins['i'], 'why', 'ptr', 1, INF), 'ptr', ('t', 'ptr'))
                        s.mem[a[1]] = cells
                out.append((v, s))
            return out
        if name == 'co_insert' or name == 'co_copy':
            st.mon = st.mon | {('I', name)}
        return None


def failed(f, st, rv):
    if rv is None:
        return False
    if f.ret == 'ptr':
        return isnull(st, rv)
    return decide(st, 'slt', rv, ZERO)


def isnull(st, rv):
    rv = norm(st, rv)
    return (isconst(rv) and cval(rv) == 0) or rv[0] == 'z'


def builders(p, fs):
    """obligation 3"""
    users = [n for n, f in sorted(p.defined.items()) if f.file.endswith('cligen_parse.y') and n != 'cligen_parseparse' and
             any(i.get('fn') and (REFUSE.match(i['fn']) or i['fn'] in ('cv_str2type', 'cv_parse1', 'cv_parse')) for b in f.blocks for i in b)]
    if len(users) < 4:
        raise Broken('only %d construction functions that read a text found' % len(users))
    exits = 0; sites = set()
    for n in users + ['cgy_var_post']:
        f = p.defined.get(n)
        if f is None:
            raise Broken('%s is not there' % n)
        h = Refuse(p)
        st = St(); args = []
        cy = None
        for i, x in enumerate(f.params):
            t = f.sig[i + 1].rstrip('*').strip()
            if x['t'] != 'ptr':
                lo, hi = trange(width(x['t']))
                args.append(symav(T.get(('in', n, i), lo, hi)))
            elif t == 'cligen_yacc' or t == 'cligen_parse_yacc':
                cells = {'cy_var': None}
                args.append(argobj(p, st, i, 'cligen_parse_yacc', cells))
                cy = args[-1][1]
            else:
                args.append(ptrav(T.get(('arg', i, 'ptr'), 0, INF)))
        var = None
        if cy is not None:
            o, sz, ty = member(p, 'cligen_parse_yacc', 'cy_var')
            var = st.mem[cy][o][0][1]
            if n == 'cgy_var_post':
                argmem(p, st, var, 'cg_obj', 'cgs_vtype', enum(p, 'CGV_ERR'))
        I, ex = results(p, n, args, st, [h], exact=False, maxinline=3,
                        when=lambda fn, a: fn.nins < 60 and not fn.name.startswith('co_') )
        sites |= h.sites
        for rv, s, ins in ex:
            exits += 1
            ok = failed(f, s, rv)
            R = sorted(m for m in s.mon if m[0] == 'R')
            if R and not ok:
                fs.append(finding('refused|%s|%s' % (n, R[0][1]), '%s %s' % (R[0][2], n), '%s refuses the text but %s does not fail' % (R[0][1], n), 'refused construct', trail_(s)))
            if n == 'cgy_var_post' and (not ok or ('I', 'co_insert') in s.mon):
                fs.append(finding('untyped|%s' % n, '%s %s' % (f.loc(ins), n), 'a variable without a type is inserted', 'refused construct', trail_(s)))
            if not ok and var is not None:
                o, sz, ty = member(p, 'cg_obj', 'cgs_dec64_n')
                c = (s.mem.get(var) or {}).get(o)
                if c is not None and '*' not in (o,):
                    lo, hi = interval(s, c[0])
                    if c[0] != ZERO and (lo < 1 or hi > 18):
                        fs.append(finding('digits|%s' % n, '%s %s' % (f.loc(ins), n), 'fraction-digits in %s..%s accepted' % (lo, hi), 'refused construct', trail_(s)))
    return users, exits, sites


def trail_(st):
    from interp import trail
    return trail(st.tr)


def argmem(p, st, base, struct, name, v):
    o, sz, ty = member(p, struct, name)
    st.mem.setdefault(base, {})[o] = (val(v), lltype(sz, ty), (struct, o))


def run(tier):
    p = program()
    evs, st = ownership(p)
    may = failing(p)
    fs = []
    na, helpers = grammar(p, may, fs)
    nl = scanner(p, fs)
    nd = dropped(p, fs)
    users, exits, sites = builders(p, fs)
    if na < 25 or len(sites) < 5:
        raise Broken('only %d failing steps in the grammar actions, %d refusing steps found' % (na, len(sites)))
    for e in evs:
        if e.kind == 'swallow' and e.loc.split(':')[0].split('/')[-1] in FILES:
            for m in e.data['mon']:
                if m != 'cligen_eval' and not re.search(r'(_get|_free)$', m):
                    fs.append(finding('swallow|%s|%s' % (e.fn, m), '%s %s' % (e.loc, e.fn), e.msg, 'failure lost', e.path))
    fns = sorted(n for n, f in p.defined.items() if f.file.split('/')[-1] in FILES)
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS + [
        'an invalid token (zero or negative) is a syntax error wherever it appears: the grammar accepts only after MY_EOF',
        'cv_str2type, cv_parse1 and the number parsers refuse as their own properties (C08, C11) say'],
        'coverage': coverage(p, st, grammar_steps=na, helpers=sorted(helpers), lexeme_copies=nl, scanner_steps=nd, construction_functions=users, exits=exits, refusing_steps=len(sites),
                             functions=fns,
                             explanation='%d failing steps in grammar actions, %d lexeme copies, %d exits of construction functions, %d functions of the loader' % (na, nl, exits, len(fns)))}
