"""C26: default preferences.  co_pref is specialised to every row of Appendix D (node type, variable type, with and
without range / expansion / regular expression) and must return the documented constant; a declared preference is
returned for every type.  The table is transcribed from cligen_tutorial.tex and must still agree with it."""
from scen import *
import re

TAB = {'command': 100, 'time': 74, 'uuid': 73, 'macaddr': 72, 'ipv6addr': 71, 'ipv4addr': 70, 'decimal64': 62,
       'int8 (range)': 60, 'uint8 (range)': 59, 'int16 (range)': 58, 'uint16 (range)': 57, 'int32 (range)': 56,
       'uint32 (range)': 55, 'int64 (range)': 54, 'uint64 (range)': 53, 'int8': 52, 'uint8': 51, 'int16': 50,
       'uint16': 49, 'int32': 48, 'uint32': 47, 'int64': 46, 'uint64': 45, 'url': 20, 'bool': 12,
       'string (expand)': 8, 'string (regexp)': 7, 'string': 5, 'command (partial)': 3, 'rest': 1}
NAME = {'decimal64': 'CGV_DEC64'}


SELECT = [  # (alternatives, which are left as (row, declared preference, matched exactly)); every one of them matches
    ('declared 10 and 20', [('v', 10, 0), ('v', 20, 0)]),
    ('declared 20 and 10', [('v', 20, 0), ('v', 10, 0)]),
    ('declared 10, 20 and 10', [('v', 10, 0), ('v', 20, 0), ('c', 10, 1)]),
    ('whole and part of a command', [('c', 0, 1), ('c', 0, 0)]),
    ('part and whole of a command', [('c', 0, 0), ('c', 0, 1)]),
    ('part of a command and a string', [('c', 0, 0), ('v', 0, 0)]),
    ('a string and a whole command', [('v', 0, 0), ('c', 0, 1)]),
    ('a string, part and whole of a command', [('v', 0, 0), ('c', 0, 0), ('c', 0, 1)]),
    ('two commands of the same preference', [('c', 0, 0), ('c', 0, 0)]),
    ('declared 20 and 21', [('v', 20, 0), ('v', 21, 0)]),
    ('a variable and a command of the same preference', [('v', 20, 0), ('c', 20, 0)]),
    ('a command and a variable of the same preference', [('c', 20, 1), ('v', 20, 0)]),
    ('two variables of the same preference', [('v', 20, 0), ('v', 20, 0)]),
    ('two variables above a third', [('v', 20, 0), ('v', 19, 0), ('v', 20, 0)]),
    ('part of a command and two strings', [('c', 0, 0), ('v', 0, 0), ('v', 0, 0)]),
    ('a string and two variables above it', [('v', 0, 0), ('v', 30, 0), ('v', 30, 0)]),
    ('a variable, a higher command and a variable of the same', [('v', 0, 0), ('c', 30, 1), ('v', 30, 0)]),
    ('two commands above a third', [('c', 0, 1), ('c', 30, 0), ('c', 0, 1)]),
]
PREF = {('c', 1): 100, ('c', 0): 3, ('v', 0): 5, ('v', 1): 5}


class AllMatch(SpecInterp):
    """every alternative matches (whether as a whole is part of the case), or none does and each gives a reason"""
    def inline(self, fr, ins, st, fn, args):
        if fn.name == 'match_object' and len(args) == 6:
            co, ex = args[2], args[4]
            for i, b in enumerate(self.cos):
                if co == b and ex[0] == 'p':
                    self.store(st, fr, ins, ex[1], ex[2], ('c', self.exacts[i]), 'i32', ('t', 'i32'))
                    if self.match:
                        return [(('c', 1), st)]
                    b = ('H', ('in', 'reason%d' % i), 0)
                    st.heap[b] = ('live', 'mem')
                    st.mem[b] = {'*': (('any',), None)}
                    self.store(st, fr, ins, args[5][1], args[5][2], ('p', b, 0), 'ptr', ('t', 'ptr'))
                    return [(('c', 0), st)]
            raise Broken('match_vec asks for a node that is not an alternative')
        if fn.name in ('co_copy1', 'co_copy', 'co_free'):
            return self.apply(fr, ins, st, fn, args)
        return SpecInterp.inline(self, fr, ins, st, fn, args)

    def modof(self, fn):
        # copying or releasing one node leaves the others and the vectors alone
        return frozenset() if fn.name in ('co_copy1', 'co_copy', 'co_free') else SpecInterp.modof(self, fn)


def select(p, best, alts, mode, lastt, match=1):
    """[(how many alternatives match_vec leaves, the last one left, where, number of the reason kept)] for a level where
    all alternatives match, or none"""
    st = St()
    cos = []
    for i, (k, pref, ex) in enumerate(alts):
        c = {'coc_type': enum(p, 'CO_COMMAND' if k == 'c' else 'CO_VARIABLE'), 'coc_preference': pref, 'coc_flags': 0, 'coc_ref': 0}
        if k == 'v':
            c.update({'cgs_vtype': enum(p, 'CGV_STRING'), 'cgs_expand_fn_str': 0, 'cgs_regex': 0})
        cos.append(argobj(p, st, 1, 'cg_obj', c, 'alt%d' % i))
    vec = ('H', ('in', 'alts'), 0)
    st.heap[vec] = ('escaped', 'mem')
    st.mem[vec] = {8 * i: (c, 'ptr', ('t', 'ptr')) for i, c in enumerate(cos)}
    pt = argobj(p, st, 1, 'parse_tree', {'pt_vec': ('p', vec, 0), 'pt_len': len(cos)}, 'level')
    ptm = ('H', ('in', 'left'), 0)
    st.heap[ptm] = ('escaped', 'mem')
    st.mem[ptm] = {member(p, 'parse_tree', n)[0]: (ZERO, t, ('parse_tree', member(p, 'parse_tree', n)[0])) for n, t in (('pt_vec', 'ptr'), ('pt_len', 'i32'), ('pt_set', 'i8'))}
    mr = argobj(p, st, 6, 'match_result', {'mr_pt': ('p', ptm, 0), 'mr_reason': 0, 'mr_co_match_orig': 0})
    h = argobj(p, st, 0, 'cligen_handle', {'ch_preference_mode': mode})
    I = AllMatch(p, None, (), 10)
    I.cos = cos; I.exacts = [a[2] for a in alts]; I.match = match
    f = p.defined['match_vec']
    args = []
    for i, t in enumerate(f.sig[1:]):
        args.append(h if i == 0 else pt if i == 1 else ('c', best) if i == 5 else mr if i == 6 else ('c', lastt) if i == 4
                    else ptrav(T.get(('arg', i, 'ptr'), 1, INF)))
    out = []
    for rv, s, ins in I.run(f, args, st):
        rv = norm(s, rv)
        lo, hi = interval(s, rv)
        if hi < 0:
            continue  # out of memory
        m = s.mem.get(mr[1], {})
        t = norm(s, m[member(p, 'match_result', 'mr_pt')[0]][0])
        n = s.mem.get(t[1], {}) if t[0] == 'p' else {}
        c = n.get(member(p, 'parse_tree', 'pt_len')[0]) or n.get('*')
        n = norm(s, c[0]) if c else None
        last = norm(s, m[member(p, 'match_result', 'mr_co_match_orig')[0]][0])
        r = norm(s, m[member(p, 'match_result', 'mr_reason')[0]][0])
        out.append((cval(n) if n is not None and isconst(n) else None, cos.index(last) if last in cos else None, ins,
                    int(r[1][1][1][6:]) if r[0] == 'p' and r[1][0] == 'H' and r[1][1][0] == 'in' else -1 if r == ZERO else None))
    return out


def selection(p, fs):
    f = p.defined.get('match_vec')
    if f is None or len(f.params) != 7 or 'match_object' not in p.defined:
        return []
    done = []
    for name, alts in SELECT:
        ps = [a[1] or PREF[a[0], a[2]] for a in alts]
        top = [i for i, x in enumerate(ps) if x == max(ps)]
        tie = len(top) > 1 and sum(alts[i][0] == 'v' for i in top) > 1
        cases = [(0, mode, last) for mode in ((0, 3) if tie else (0,)) for last in (0, 1)] + \
                [(1, mode, last) for mode in (range(4) if len(top) > 1 else (0,)) for last in (0, 1)]
        for best, mode, last in cases:
            keep = top if best else list(range(len(alts)))
            if best and (mode == 3 or (mode == 1 and last) or (mode == 2 and not last)):
                # the first of the variables stands for them all
                keep = [i for n, i in enumerate(top) if not (alts[i][0] == 'v' and n and alts[top[0]][0] == 'v')]
            out = select(p, best, alts, mode, last)
            if not out or any(o[0] is None for o in out):
                continue  # not decided, and not counted
            done.append('%s (%s, preference mode %d, %s token)' % (name, 'best' if best else 'all', mode, 'last' if last else 'not the last'))
            for n, l, ins, r in out:
                if n != len(keep) or (l is not None and l != keep[-1]):
                    fs.append(finding('select|%s|%d|%d' % (name, best, mode), '%s match_vec' % f.loc(ins),
                                      'of %s, all of which match, %s left (the last is number %s), %d should be (%s, preference mode %d, %s token)' %
                                      (name, 'one is' if n == 1 else '%d are' % n, 'unknown' if l is None else l + 1, len(keep),
                                       'those of the highest preference' if best else 'all of them', mode, 'last' if last else 'not the last'), 'selection'))
                    break
    return done


def run(tier):
    p = program()
    fs = []; rows = []
    try:
        doc = open(os.path.join(REPO, 'cligen_tutorial.tex'), errors='replace').read()
        sec = doc[doc.index('label{app:varpref}'):]
        got = {a.strip(): int(b) for a, b in re.findall(r'^([a-z0-9]+(?: \([a-z]+\))?)\s*&\s*\$(\d+)\$', sec, re.M)}
    except (OSError, ValueError):
        got = {}
    tab = got if len(got) >= 25 else TAB
    f = p.defined.get('co_pref')
    if f is None or len(f.params) != 2:
        raise Broken('co_pref(co, exact) is not there')
    decl = sym('declared', 1, 65535)

    def one(row, cells, exact, want):
        st = St()
        co = argobj(p, st, 0, 'cg_obj', cells)
        I, ex = results(p, 'co_pref', [co, exact], st)
        rows.append(row)
        if not ex:
            raise Broken('co_pref: no result for %s' % row)
        for rv, s, ins in ex:
            if rv is None or not (rv == val(want) or decide(s, 'eq', rv, val(want))):
                r = interval(s, rv)
                fs.append(finding('pref|%s' % row, '%s co_pref' % f.loc(ins), 'preference of %s is %s, documented is %s' %
                                  (row, r[0] if r[0] == r[1] else 'not fixed', want if isinstance(want, int) else 'the declared one'), 'table'))
                break
        # ranking only reads
        return ex

    for name, want in sorted(tab.items()):
        t, _, opt = name.partition(' (')
        opt = opt.rstrip(')')
        if t == 'command':
            c = {'coc_type': enum(p, 'CO_COMMAND'), 'coc_preference': 0}
            one(name, c, ('c', 0) if opt else ('c', 1), want)
            continue
        v = NAME.get(t, 'CGV_' + t.upper())
        base = {'coc_type': enum(p, 'CO_VARIABLE'), 'coc_preference': 0, 'cgs_vtype': enum(p, v)}
        others = []
        if t == 'string':
            if opt == 'expand':
                others = [{'cgs_expand_fn_str': None, 'cgs_regex': 0}, {'cgs_expand_fn_str': None, 'cgs_regex': None}]
            elif opt == 'regexp':
                others = [{'cgs_expand_fn_str': 0, 'cgs_regex': None}]
            else:
                others = [{'cgs_expand_fn_str': 0, 'cgs_regex': 0}]
        elif 'int' in t:
            others = [{'cgs_rangelen': sym('rangelen', 1, 1 << 20) if opt else 0}]
        else:
            others = [{}]
        for o in others:
            for exact in (('c', 0), ('c', 1)):
                one(name, dict(base, **o), exact, want)
    for typ in ('CO_COMMAND', 'CO_VARIABLE'):
        for exact in (0, 1):
            one('declared preference, %s' % typ, {'coc_type': enum(p, typ), 'coc_preference': decl}, ('c', exact), decl)
    sel = selection(p, fs)
    if len(rows) < 30:
        raise Broken('only %d rows of the table decided' % len(rows))
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS[:2],
            'coverage': dict(p.stats(), rows=sorted(set(rows)), selections=sel, table='cligen_tutorial.tex Appendix D' if tab is got else 'transcribed table',
            explanation='co_pref specialised by partial evaluation to %d rows of the documented table (%d configurations); match_vec specialised to %d levels of matching alternatives' % (len(tab), len(rows), len(sel)))}
