"""Shared by the rules: program loading, the ownership/failure analysis, findings."""
import os, re, subprocess, tempfile, shutil
from front import Program, Broken, REPO, CLANG, run, operands
import front
from main1 import analyse, POL, ANSWER

GENERATED = ('lex.cligen_parse.c', 'cligen_parse.tab.c')
_prog = None


def program(apps=False):
    global _prog
    if _prog is None or (apps and not _prog.apps):
        _prog = Program(apps)
    return _prog


def public_api(prog):
    """functions a user of <cligen/cligen.h> can call"""
    tmp = tempfile.mkdtemp(prefix='cligen-api-')
    try:
        os.symlink(REPO, os.path.join(tmp, 'cligen'))
        with open(os.path.join(tmp, 'x.c'), 'w') as f:
            f.write('#include <cligen/cligen.h>\n')
        out = run([CLANG, '-fsyntax-only', '-w', '-I' + tmp, '-I' + REPO, '-DHAVE_CONFIG_H', '-Xclang', '-ast-list',
                   os.path.join(tmp, 'x.c')]).decode(errors='replace')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    names = {l.strip() for l in out.split('\n')}
    api = {n for n in prog.defined if n in names}
    if len(api) < 150:
        raise Broken('public API of <cligen/cligen.h>: only %d functions recognised' % len(api))
    return api


def generated(loc):
    """location inside the skeleton code that bison and flex add"""
    return loc.split(':')[0].split('/')[-1] in GENERATED


def finding(key, where, msg, rule='', path=()):
    return {'key': key, 'where': where, 'msg': msg, 'rule': rule, 'path': list(path)}


_an = {}


def ownership(prog):
    """the whole-library run: events of every kind, once per process"""
    if 'r' not in _an:
        events, stats, extras, I = analyse(prog)
        evs = [e for d in events.values() for e in d.values() if not generated(e.loc)]
        if stats['functions'] < 300:
            raise Broken('only %d functions analysed' % stats['functions'])
        _an['I'] = I
        _an['r'] = (sorted(evs, key=lambda e: (e.kind, e.fn, e.loc, e.msg)), stats)
    return _an['r']


def failing(prog):
    """functions with an outcome that is a failure"""
    ownership(prog)
    return {n for n in prog.defined if any(o.fails for o in _an['I'].summ.get(n) or ())}


def coverage(prog, stats, **kw):
    d = dict(prog.stats())
    d.update({'functions_summarised': stats['functions'], 'abstract_steps': stats['steps'], 'symbols': stats['symbols'],
              'functions_with_joined_histories': sorted(stats['coarse']), 'functions_not_explored_fully': sorted(stats['capped'])})
    d.update(kw)
    return d


def origin(s):
    """'malloc at f.c:10 (in g, called at ..)' -> 'malloc in g'"""
    m = re.match(r'(\S+) at \S+?(?: \(in (\w+),)?', s)
    m2 = re.search(r'\(in (\w+),', s)
    return '%s%s' % (s.split(' at ')[0], ' via ' + m2.group(1) if m2 else '')


ENGINE_ASSUMPTIONS = [
    'library translation units compiled with the repository configuration; generated parser/lexer skeletons are treated as able to do anything to the fields they may write',
    'external functions behave as modelled in engine/libc.py',
    'memory reached through two unrelated parameters is assumed not to overlap',
    'after 2500 block visits in one function, histories are joined per result class and ownership state (listed in coverage)',
]
