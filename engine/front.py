"""Front end: compile /repo's current library sources to LLVM bitcode, link them,
and load the resolved program (types, globals, SSA functions) as Python objects."""
import os, sys, json, subprocess, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('CLIGEN_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
CLANG = LLVM + '/clang'
IRDUMP = os.path.join(ROOT, 'build', 'irdump')
APPS = ['cligen_file.c', 'cligen_hello.c', 'cligen_tutorial.c']
GEN = ['cligen_parse.tab.c', 'lex.cligen_parse.c']


class Broken(Exception):
    """The analysis itself cannot give an answer (never a pass, never a violation)."""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode != 0:
        raise Broken('command failed: %s\n%s' % (' '.join(cmd), p.stderr.decode(errors='replace')[-3000:]))
    return p.stdout


def build_irdump():
    src = os.path.join(HERE, 'irdump.cpp')
    if os.path.exists(IRDUMP) and os.path.getmtime(IRDUMP) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(IRDUMP), exist_ok=True)
    flags = run(['llvm-config-18', '--cxxflags']).decode().split()
    libs = run(['llvm-config-18', '--ldflags', '--libs']).decode().split()
    tmp = IRDUMP + '.%d' % os.getpid()
    run(['/usr/bin/clang++-18', '-O1'] + flags + [src, '-o', tmp] + libs)
    os.rename(tmp, IRDUMP)


def library_sources():
    """The library's translation units: every .c of the top directory except the demo
    applications, with the generated parser and lexer produced afresh from .y and .l."""
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, '*.c'))):
        b = os.path.basename(p)
        if b in APPS or b in GEN:
            continue
        out.append(p)
    return out


def compile_program(apps=False):
    """Return the parsed JSON program of the current working tree."""
    build_irdump()
    tmp = tempfile.mkdtemp(prefix='cligen-sa-')
    try:
        inc = ['-I' + tmp, '-I' + REPO]
        if not os.path.exists(os.path.join(REPO, 'cligen_config.h')):
            cp = os.path.join(tmp, 'conf')
            shutil.copytree(REPO, cp, symlinks=True)
            run(['sh', './configure'], cwd=cp)
            shutil.copy(os.path.join(cp, 'cligen_config.h'), tmp)
        if not os.path.exists(os.path.join(REPO, 'build.c')):
            with open(os.path.join(tmp, 'build.c'), 'w') as f:
                f.write('const char GIT_VERSION[]="x";\nconst char CLIGEN_BUILDSTR[]="x";\n')
        run(['bison', '-d', '-b', 'cligen_parse', '-p', 'cligen_parse',
             os.path.join(REPO, 'cligen_parse.y')], cwd=tmp)
        run(['flex', '-Pcligen_parse', os.path.join(REPO, 'cligen_parse.l')], cwd=tmp)
        srcs = library_sources() + [os.path.join(tmp, g) for g in GEN]
        if os.path.exists(os.path.join(tmp, 'build.c')):
            srcs.append(os.path.join(tmp, 'build.c'))
        base = [CLANG, '-std=gnu17', '-DHAVE_CONFIG_H'] + inc + ['-I/usr/include/libxml2', '-O0', '-w',
                '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-emit-llvm', '-c']

        def one(job):
            s, o, extra = job
            run(base + extra + [s, '-o', o], cwd=tmp)
            return o
        jobs = [(s, os.path.join(tmp, os.path.basename(s) + '.bc'), []) for s in srcs]
        if apps:
            for a in APPS:
                p = os.path.join(REPO, a)
                if os.path.exists(p):
                    jobs.append((p, os.path.join(tmp, a + '.bc'), ['-Dmain=main_' + a[:-2]]))
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, jobs))
        nlib = len(srcs)
        lib = os.path.join(tmp, 'lib.bc')
        run([LLVM + '/llvm-link', '-o', lib] + objs[:nlib])
        prog = json.loads(run([IRDUMP, lib]).decode(errors='replace'))
        prog['units'] = [os.path.basename(s) for s in srcs]
        prog['apps'] = {}
        for o in objs[nlib:]:
            prog['apps'][os.path.basename(o)[:-3]] = json.loads(run([IRDUMP, o]).decode(errors='replace'))
        return prog
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


TERMS = ('br', 'switch', 'ret', 'unreachable', 'indirectbr')


class Fn:
    __slots__ = ('name', 'internal', 'decl', 'ret', 'va', 'file', 'line', 'sig', 'params', 'names',
                 'pnames', 'blocks', 'preds', 'succs', 'rpo', 'rpoidx', 'livein', 'inloop', 'headers',
                 'defs', 'addr', 'usesites', 'joins', 'nins', 'iloc', 'counters', 'retvals')

    def __init__(self, d):
        self.name = d['name']; self.internal = d['internal']; self.decl = d['decl']
        self.ret = d['ret']; self.va = d['va']; self.file = d.get('file', '?'); self.line = d.get('line', 0)
        self.sig = d.get('sig', []); self.params = d['params']
        self.names = {int(k): v for k, v in d.get('names', {}).items()}
        self.pnames = d.get('pnames', []); self.addr = d.get('addr')
        self.blocks = d.get('blocks', [])
        if not self.decl:
            self.unselect()
            self.analyse()

    def unselect(self):
        """a conditional value is the same as a branch: one form for all analyses (0/1 values of a condition stay)"""
        if not any(i['op'] == 'select' for b in self.blocks for i in b):
            return
        bl = self.blocks = [list(b) for b in self.blocks]
        nid = max(i['i'] for b in bl for i in b) + 1
        bi = 0
        while bi < len(bl):
            for k, ins in enumerate(bl[bi]):
                if ins['op'] == 'select' and ins['t'] != 'i1' and sorted(o[1] for o in ins['a'][1:] if o[0] == 'c') != [0, 1]:
                    n = len(bl); rest = bl[bi][k + 1:]; ln = {q: ins[q] for q in ('ln', 'fl') if q in ins}
                    phi = dict(ln, op='phi', t=ins['t'], i=ins['i'], inc=[[ins['a'][1], n], [ins['a'][2], n + 1]])
                    jump = [dict(ln, op='br', t='void', i=nid + j, to=[n + 2]) for j in (0, 1)]
                    bl[bi] = bl[bi][:k] + [dict(ln, op='br', t='void', i=nid + 2, a=[ins['a'][0]], to=[n, n + 1])]
                    nid += 3
                    for b in bl:
                        for x in b:
                            if x['op'] == 'phi':
                                x['inc'] = [[o, n + 2 if q == bi else q] for o, q in x['inc']]
                    for x in rest:
                        if x['op'] == 'phi':
                            x['inc'] = [[o, n + 2 if q == bi else q] for o, q in x['inc']]
                    bl += [[jump[0]], [jump[1]], [phi] + rest]
                    break
            bi += 1

    def analyse(self):
        n = len(self.blocks)
        self.succs = []; self.preds = [[] for _ in range(n)]
        self.defs = {}; self.iloc = {}
        self.nins = 0
        for bi, b in enumerate(self.blocks):
            for k, ins in enumerate(b):
                self.defs[ins['i']] = ins; self.iloc[ins['i']] = (bi, k)
                self.nins += 1
            t = b[-1]
            if t['op'] == 'br':
                s = list(t['to'])
            elif t['op'] == 'switch':
                s = [c[1] for c in t['cases']] + t['to']
            else:
                s = []
            u = []
            for x in s:
                if x not in u:
                    u.append(x)
            self.succs.append(u)
            for x in u:
                self.preds[x].append(bi)
        # rpo
        seen = set(); order = []
        stack = [(0, iter(self.succs[0]))]; seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.succs[s]))); break
            else:
                order.append(b); stack.pop()
        self.rpo = order[::-1]
        self.rpoidx = {b: i for i, b in enumerate(self.rpo)}
        # headers: targets of back edges (w.r.t. rpo); blocks in loops = nontrivial SCCs
        self.headers = set()
        for b in self.rpo:
            for s in self.succs[b]:
                if self.rpoidx[s] <= self.rpoidx[b]:
                    self.headers.add(s)
        self.inloop = set()
        for c in sccs(self.rpo, lambda b: self.succs[b]):
            if len(c) > 1 or c[0] in self.succs[c[0]]:
                self.inloop.update(c)
        # liveness of SSA ids
        use = []; de = []; phiuse = [dict() for _ in range(n)]
        for bi, b in enumerate(self.blocks):
            u = set(); d = set()
            for ins in b:
                if ins['op'] == 'phi':
                    d.add(ins['i'])
                    for (o, p) in ins['inc']:
                        if o[0] == 'v':
                            phiuse[p].setdefault(bi, set()).add(o[1])
                    continue
                for o in operands(ins):
                    if o[0] == 'v' and o[1] not in d:
                        u.add(o[1])
                d.add(ins['i'])
            use.append(u); de.append(d)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succs[b]:
                    out |= live[s]
                    out |= phiuse[b].get(s, set())
                new = use[b] | (out - de[b])
                # phi defs are live at block start
                if new != live[b]:
                    live[b] = new; changed = True
        self.livein = live
        for bi, b in enumerate(self.blocks):
            self.livein[bi] = set(live[bi])
        self.usesites = None
        # loop counters: values on a data-flow cycle through an addition
        g = {}
        for i, d in self.defs.items():
            if d['op'] in ('phi', 'add', 'sub', 'sext', 'zext', 'trunc') and d['t'] != 'ptr':
                g[i] = [o[1] for o in operands(d) if o[0] == 'v']
        self.counters = set()
        for c in sccs(sorted(g), lambda x: [y for y in g[x] if y in g]):
            if len(c) > 1 and any(self.defs[x]['op'] in ('add', 'sub') for x in c):
                self.counters.update(c)
        self.counters |= {i for i in g if self.defs[i]['op'] in ('add', 'sub') and any(y in self.counters for y in g[i])}

        # values that may become the function's result
        self.retvals = set()
        todo = [o[1] for b in self.blocks for o in operands(b[-1]) if b[-1]['op'] == 'ret' and o[0] == 'v']
        while todo:
            i = todo.pop()
            if i in self.retvals or i not in self.defs:
                continue
            self.retvals.add(i)
            d = self.defs[i]
            if d['op'] in ('phi', 'sext', 'zext', 'trunc', 'select', 'freeze'):
                todo += [o[1] for o in operands(d) if o[0] == 'v']

    def loc(self, ins):
        return '%s:%s' % (ins.get('fl', self.file), ins.get('ln', 0))

    def vname(self, iid):
        return self.names.get(iid, '%%%d' % iid)


def operands(ins):
    for o in ins.get('a', ()):
        yield o
    if ins['op'] == 'call' and 'callee' in ins:
        yield ins['callee']
    for v in ins.get('vars', ()):
        yield v[0]
    if 'n' in ins and isinstance(ins['n'], list):
        yield ins['n']
    if ins['op'] == 'phi':
        for (o, p) in ins['inc']:
            yield o


def sccs(nodes, succ):
    """Tarjan, iterative; returns components in reverse topological order (callees first)."""
    idx = {}; low = {}; onst = set(); st = []; out = []; cnt = [0]
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(succ(r)))]
        idx[r] = low[r] = cnt[0]; cnt[0] += 1; st.append(r); onst.add(r)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = cnt[0]; cnt[0] += 1; st.append(w); onst.add(w)
                    work.append((w, iter(succ(w)))); adv = True; break
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                c = []
                while True:
                    w = st.pop(); onst.discard(w); c.append(w)
                    if w == v:
                        break
                out.append(c)
    return out


class Program:
    def __init__(self, apps=False):
        d = compile_program(apps)
        self.units = d['units']
        self.structs = d['structs']; self.ditypes = d['ditypes']; self.enums = d['enums']
        self.typedefs = d['typedefs']; self.globals = d['globals']
        self.fns = {}
        for f in d['functions']:
            fn = Fn(f)
            self.fns[fn.name] = fn
        self.apps = {}
        for a, dd in d['apps'].items():
            self.apps[a] = {'functions': [Fn(f) for f in dd['functions']], 'globals': dd['globals']}
        self.defined = {n: f for n, f in self.fns.items() if not f.decl}
        self.enumval = {}
        for e, m in self.enums.items():
            for k, v in m.items():
                self.enumval[k] = v
        # functions whose address is taken (stored/passed): potential indirect targets
        self.callers = {}
        self.calls = {}
        self.addrtaken = {}
        for f in self.defined.values():
            cs = set()
            for b in f.blocks:
                for ins in b:
                    if ins['op'] == 'call' and ins.get('fn'):
                        cs.add(ins['fn'])
                        self.callers.setdefault(ins['fn'], []).append((f, ins))
                    for o in list(ins.get('a', ())) + [x for p in ins.get('inc', ()) for x in [p[0]]]:
                        if o[0] == 'f':
                            self.addrtaken.setdefault(o[1], []).append((f, ins))
            self.calls[f.name] = cs

    def order(self):
        """bottom-up SCCs of the direct call graph"""
        return sccs(sorted(self.defined), lambda n: sorted(c for c in self.calls[n] if c in self.defined))

    def stats(self):
        fs = [f for f in self.defined.values()]
        return {'units': len(self.units), 'functions': len(fs), 'instructions': sum(f.nins for f in fs),
                'call_sites': sum(1 for f in fs for b in f.blocks for i in b if i['op'] == 'call')}


if __name__ == '__main__':
    if sys.argv[1:] == ['--build']:
        build_irdump()
        sys.exit(0)
    import time
    t = time.time()
    p = Program(apps=True)
    print(p.stats(), time.time() - t)
    if len(sys.argv) > 1:
        for n in sys.argv[1:]:
            f = p.fns[n]
            print(f.name, f.pnames, f.sig)
            for i, b in enumerate(f.blocks):
                print(i, 'H' if i in f.headers else '', 'L' if i in f.inloop else '', sorted(f.livein[i]))
                for x in b:
                    print('   ', {k: v for k, v in x.items()})
