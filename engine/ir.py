"""Small structural queries on the IR, shared by the rules."""
from front import operands


def addr(fn, o):
    """address expression: (base operand, offset, (struct, offset) of the last field or None); vars -> offset None"""
    off = 0; field = None
    while o[0] == 'v':
        d = fn.defs.get(o[1])
        if d is None or d['op'] not in ('getelementptr', 'bitcast'):
            break
        if d['op'] == 'getelementptr':
            if field is None and d.get('path'):
                field = tuple(d['path'][-1])
            if d.get('vars'):
                off = None
            elif off is not None:
                off += d.get('co', 0)
        o = d['a'][0]
    if o[0] == 'g' and len(o) > 2:
        if off is not None:
            off += o[2] or 0
    return (tuple(o[:2]), off, field)


def field(fn, o):
    return addr(fn, o)[2]


def calls(fn, *names):
    for b in fn.blocks:
        for ins in b:
            if ins['op'] == 'call' and (not names or ins.get('fn') in names):
                yield ins


def uses(fn):
    u = {}
    for b in fn.blocks:
        for ins in b:
            for o in operands(ins):
                if o[0] == 'v':
                    u.setdefault(o[1], []).append(ins)
    return u


def strip(fn, o):
    """through casts"""
    while o[0] == 'v':
        d = fn.defs.get(o[1])
        if d is None or d['op'] not in ('sext', 'zext', 'trunc', 'bitcast', 'freeze'):
            return o, d
        o = d['a'][0]
    return o, None


def root(fn, o, phis=True):
    """set of root operands a value may stem from, through casts, phis and selects"""
    out = set(); seen = set(); todo = [o]
    while todo:
        o = todo.pop()
        if o[0] != 'v':
            out.add(tuple(o[:2])); continue
        if o[1] in seen:
            continue
        seen.add(o[1])
        d = fn.defs.get(o[1])
        if d is not None and d['op'] in ('sext', 'zext', 'trunc', 'bitcast', 'freeze'):
            todo.append(d['a'][0])
        elif d is not None and d['op'] == 'phi' and phis:
            todo += [x for x, p in d['inc']]
        elif d is not None and d['op'] == 'select' and phis:
            todo += list(d['a'][1:])
        else:
            out.add(tuple(o[:2]))
    return out
