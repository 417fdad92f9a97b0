"""C24: independent sessions do not influence each other.

Effect analysis: every modifiable object with static storage in the library (file scope, function scope, or inside the C
library) is found in the linked program; for each, the functions that may store into it and the public functions that
can reach such a store through the call graph are computed.  An object is accepted only in one of these roles, decided by
what writes and reads it (not by its name):
  line editor      defined in the line editor's own file
  screen pager     private to the screen output functions / written only by the screen geometry and paging setters
  debug switch     written only by public functions ending in debug
  buffer sizing    written only by cbuf_alloc_set
  statistics       a counter whose value flows only into itself and into the statistics getter
  parser skeleton  declared by the generated scanner / parser, and its start state and buffer are set anew in every load
Everything else that is written at all is state shared between sessions."""
from common import *
import ir

# functions of the C library that change or keep state of the whole process
PROCESS = {'setlocale', 'setenv', 'putenv', 'unsetenv', 'clearenv', 'chdir', 'fchdir', 'umask', 'srand', 'srandom', 'rand',
           'random', 'drand48', 'strtok', 'signal', 'alarm', 'setitimer', 'atexit', 'setvbuf', 'setbuf', 'setlinebuf',
           'hcreate', 'hsearch', 'hdestroy', 'freopen', 'localeconv', 'uselocale', 'mtrace', 'mallopt', 'setrlimit',
           'setuid', 'setgid', 'chroot', 'getopt', 'setenv', 'tzset'}
# allowed with the role that owns the state they change
ROLE_PROCESS = {'sigaction': 'line editor or output pipe', 'sigprocmask': 'line editor or output pipe', 'dup2': 'output pipe'}
SCREEN_SET = {'cligen_terminal_rows_set', 'cligen_init', 'cligen_paging_set'}
EDITOR = 'cligen_getline.c'
PAGER = re.compile(r'^(cli_output_\w+|cligen_output\w*|cli_pipe_output_socket_\w+)$')


def bases(f, o):
    """globals an operand's address may be based on"""
    out = set(); seen = set(); todo = [list(o)]
    while todo:
        x = todo.pop()
        if x[0] == 'g':
            out.add(x[1])
        elif x[0] == 'v' and x[1] not in seen:
            seen.add(x[1])
            d = f.defs.get(x[1])
            if d is None:
                continue
            if d['op'] in ('getelementptr', 'bitcast', 'sext', 'zext', 'trunc', 'freeze'):
                todo.append(d['a'][0])
            elif d['op'] == 'phi':
                todo += [y for y, _ in d['inc']]
            elif d['op'] == 'select':
                todo += list(d['a'][1:])
            elif d['op'] == 'alloca':
                # address of a static object kept in a local variable
                for b in f.blocks:
                    for i in b:
                        if i['op'] == 'store' and list(i['a'][1][:2]) == ['v', x[1]]:
                            todo.append(i['a'][0])
            elif d['op'] == 'load':
                a = d['a'][0]
                if a[0] == 'v' and f.defs.get(a[1], {}).get('op') == 'alloca':
                    todo.append(a)
    return out


READONLY = re.compile(r'^(strlen|strcmp|strncmp|strcasecmp|strncasecmp|strchr|strstr|strdup|memcmp|tcsetattr|fprintf|printf|sigaddset|fputs|strverscmp|index)$')


def effects(p):
    """{global: set of functions storing into it or handing out its address}, {global: functions reading it}"""
    W = {}; R = {}
    for f in p.defined.values():
        for b in f.blocks:
            for ins in b:
                op = ins['op']
                if op == 'store':
                    for g in bases(f, ins['a'][1]):
                        W.setdefault(g, {}).setdefault(f.name, ins)
                    v = ins['a'][0]
                    for g in bases(f, v):
                        t = ins['a'][1]
                        if t[0] == 'v' and f.defs.get(t[1], {}).get('op') == 'alloca':
                            continue
                        W.setdefault(g, {}).setdefault(f.name, ins)
                elif op == 'load':
                    for g in bases(f, ins['a'][0]):
                        R.setdefault(g, {}).setdefault(f.name, ins)
                elif op == 'call':
                    n = ins.get('fn') or ''
                    for k, o in enumerate(ins['a']):
                        for g in bases(f, o):
                            if isptrarg(f, ins, k, o):
                                R.setdefault(g, {}).setdefault(f.name, ins)
                                if READONLY.match(n) or (n.startswith('llvm.mem') and k == 1) or (n in ('strcpy', 'strncpy', 'strcat', 'strncat', 'snprintf', 'sprintf') and k > 0):
                                    continue
                                W.setdefault(g, {}).setdefault(f.name, ins)
                elif op == 'ret':
                    for o in operands(ins):
                        for g in bases(f, o):
                            W.setdefault(g, {}).setdefault(f.name, ins)
    return W, R


def isptrarg(f, ins, k, o):
    """the operand is the address itself, not a value loaded from it"""
    while o[0] == 'v':
        d = f.defs.get(o[1])
        if d is None:
            return False
        if d['op'] == 'load':
            a = d['a'][0]
            return a[0] == 'v' and f.defs.get(a[1], {}).get('op') == 'alloca' and d['t'] == 'ptr'
        if d['op'] in ('getelementptr', 'bitcast'):
            o = d['a'][0]
        elif d['op'] in ('phi', 'select'):
            return d['t'] == 'ptr'
        else:
            return False
    return o[0] == 'g'


def counter(p, g, W, R):
    """loads of the global flow only into stores to it and out of functions that write nothing else"""
    for n in R.get(g, {}):
        f = p.defined[n]; us = ir.uses(f)
        for b in f.blocks:
            for ins in b:
                if ins['op'] != 'load' or g not in bases(f, ins['a'][0]):
                    continue
                todo = [ins['i']]; seen = set()
                while todo:
                    v = todo.pop()
                    if v in seen:
                        continue
                    seen.add(v)
                    for u in us.get(v, ()):
                        if u['op'] in ('add', 'sub', 'zext', 'sext', 'trunc'):
                            todo.append(u['i'])
                        elif u['op'] == 'store' and list(u['a'][0][:2]) == ['v', v]:
                            if g in bases(f, u['a'][1]):
                                continue
                            if n in getters(p, g, R):
                                continue
                            return False
                        elif u['op'] == 'ret' and n in getters(p, g, R):
                            continue
                        else:
                            return False
    return True


def getters(p, g, R):
    """functions that read the counter and have no other effect: no call, no store but through a parameter"""
    out = set()
    for n in R.get(g, {}):
        f = p.defined[n]
        if not any(i['op'] == 'call' and not (i.get('fn') or '').startswith('llvm.') for b in f.blocks for i in b) and n not in p.calls_in_lib:
            out.add(n)
    return out


def reach(p, start):
    s = {start}; t = [start]
    while t:
        for c in p.calls.get(t.pop(), ()):
            if c in p.defined and c not in s:
                s.add(c); t.append(c)
    return s


def only_from(p, fns, ok):
    """every function is one of ok, or a private function all of whose callers are"""
    todo = list(fns); seen = set()
    while todo:
        n = todo.pop()
        if n in seen or ok(n):
            continue
        seen.add(n)
        if not p.defined[n].internal or n in p.addrtaken or not p.callers.get(n):
            return False
        todo += [f.name for f, _ in p.callers[n]]
    return True


def load_resets(p):
    """on every path to the parser, scanner start state and input buffer are set since entry of the calling function"""
    need = {}
    for n, g in p.globals.items():
        if n in ('yy_start', 'yy_buffer_stack'):
            need[n] = g
    if len(need) != 2:
        raise Broken('scanner state variables not found')
    must = {n: set() for n in need}       # functions that store on every path to a normal return
    must['yy_buffer_stack'] |= {n for n in p.defined if re.search(r'_(scan_(string|bytes|buffer)|switch_to_buffer)$', n)
                                and os.path.basename(p.defined[n].file) in GENERATED}

    def muststore(f, g):
        """forward must analysis; the result at each call of the parser"""
        def writes(ins):
            if ins['op'] == 'store':
                if g in bases(f, ins['a'][1]):
                    return True
                # element of the buffer stack: address loaded from the global
                a = ins['a'][1]
                while a[0] == 'v':
                    d = f.defs.get(a[1])
                    if d is None or d['op'] not in ('getelementptr', 'bitcast', 'load'):
                        break
                    a = d['a'][0]
                return a[0] == 'g' and a[1] == g
            return ins['op'] == 'call' and ins.get('fn') in must[g]
        inn = {b: True for b in f.rpo}; inn[0] = False
        ch = True
        out = {}
        while ch:
            ch = False
            for b in f.rpo:
                v = inn[b] if b == 0 else all(out.get(x, True) for x in f.preds[b])
                w = v or any(writes(i) for i in f.blocks[b])
                if out.get(b) != w:
                    out[b] = w; ch = True
                inn[b] = v
        return inn, out, writes
    for g in need:
        ch = True
        while ch:
            ch = False
            for f in p.defined.values():
                if f.name in must[g]:
                    continue
                inn, out, _ = muststore(f, g)
                rets = [b for b in f.rpo if f.blocks[b][-1]['op'] == 'ret']
                ok = True
                for b in rets:
                    if not out[b]:
                        # an error return may skip it
                        o = list(operands(f.blocks[b][-1]))
                        if not o or not errphi(f, o[0], b, out):
                            ok = False
                if ok and rets:
                    must[g].add(f.name); ch = True
    fs = []; sites = 0
    for f, ins in p.callers.get('cligen_parseparse', ()):
        sites += 1
        for g in need:
            inn, out, writes = muststore(f, g)
            b = next(bi for bi, bl in enumerate(f.blocks) if any(i is ins for i in bl))
            v = inn[b]
            for i in f.blocks[b]:
                if i is ins:
                    break
                v = v or writes(i)
            if not v:
                fs.append(finding('stale|%s|%s' % (f.name, g), '%s %s' % (f.loc(ins), f.name),
                                  'the parser is started with scanner state (%s) left over from an earlier load' % g, 'scanner state set anew before every load'))
    if not sites:
        raise Broken('no call of the parser found')
    return fs, sites


def errphi(f, o, b, out):
    """the value returned along every predecessor that has not stored is a negative constant"""
    if o[0] == 'c':
        return o[1] < 0
    d = f.defs.get(o[1]) if o[0] == 'v' else None
    if d is not None and d['op'] == 'phi' and any(i is d for i in f.blocks[b]):
        for x, q in d['inc']:
            if not out.get(q, True) and not (x[0] == 'c' and x[1] < 0):
                if not errphi(f, x, q, out):
                    return False
        return True
    return False


def run(tier):
    p = program()
    api = public_api(p)
    p.calls_in_lib = {c for f in p.defined for c in p.calls[f]}
    W, R = effects(p)
    RE = {a: reach(p, a) for a in api}
    indirect = {n for n in p.addrtaken if n in p.defined}
    fs = []; roles = {}
    for g, d in sorted(p.globals.items()):
        if d.get('const') or d.get('decl'):
            continue
        ws = W.get(g, {})
        if not ws:
            roles.setdefault('never modified', []).append(g); continue
        pub = sorted(a for a in api if any(w in RE[a] for w in ws))
        for w in ws:            # hooks reached through pointers
            if not any(w in RE[a] for a in api):
                pub.append(w)
        fl = os.path.basename(d.get('file', '?'))
        priv = set(ws) | set(R.get(g, {}))
        if fl == EDITOR:
            role = 'line editor'
        elif fl in GENERATED:
            role = 'parser skeleton'
        elif pub and all(a in SCREEN_SET for a in pub):
            role = 'screen geometry and paging'
        elif only_from(p, priv, PAGER.match):
            role = 'screen pager'
        elif pub and all(a.endswith('debug') for a in pub):
            role = 'debug switch'
        elif pub == ['cbuf_alloc_set']:
            role = 'buffer sizing'
        elif counter(p, g, W, R):
            role = 'statistics'
        else:
            k = ','.join(pub) if pub else '%s|%s' % (fl, g)
            n_ = sum(1 for f_ in fs if f_['key'].startswith('shared|%s' % k))
            w = sorted(ws)[0]
            fs.append(finding('shared|%s%s' % (k, '#%d' % (n_ + 1) if n_ else ''),
                              '%s %s' % (p.defined[w].loc(ws[w]), w),
                              'modifiable state %s (%s) is shared by all sessions: stored by %s, read by %s' % (
                                  g, fl, ', '.join(sorted(ws)[:4]), ', '.join(sorted(R.get(g, {}))[:4])), 'no state outside the session'))
            continue
        roles.setdefault(role, []).append(g)
    ncall = 0
    for f in p.defined.values():
        for ins in ir.calls(f):
            ncall += 1
            n = ins.get('fn')
            if n in p.defined or os.path.basename(f.file) == EDITOR:
                continue
            if n in PROCESS:
                fs.append(finding('process|%s|%s' % (f.name, n), '%s %s' % (f.loc(ins), f.name),
                                  '%s changes or keeps state of the whole process' % n, 'no state outside the session'))
    f2, sites = load_resets(p)
    fs += f2
    for r in ('line editor', 'parser skeleton', 'debug switch', 'screen geometry and paging'):
        if not roles.get(r):
            raise Broken('no modifiable object in the role %s recognised' % r)
    return {'findings': fs, 'assumptions': [
        'callbacks supplied by the application are outside the library',
        'the line editor, the screen (geometry, paging), debug switches, statistics and buffer sizing are process wide by design',
        'the parser is entered by one load at a time'],
        'coverage': dict(p.stats(), modifiable_objects={k: sorted(v) for k, v in roles.items()}, call_sites_examined=ncall,
                         public_functions=len(api), parser_entries=sites,
                         explanation='effect analysis of %d modifiable static objects, %d call sites and %d parser entries' % (
                             sum(map(len, roles.values())), ncall, sites))}
