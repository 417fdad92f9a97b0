"""C17: a string setter given its own present value, or a tail of it, stores that string.

Each setter that keeps a copy is analysed with its string argument pointing anywhere into the block the attribute
holds now.  The present block must not be read or copied after it is released, and what is held afterwards must be a
fresh copy of the argument."""
from acc import *


def run(tier):
    p = program()
    fs = []; names = []
    for s, g, k in string_setters(p):
        ev, out, arg, h, off, args = run_string(p, s, g, k, 'set', 'inside')
        f = p.defined[s]
        names.append(s)
        for e in ev:
            if e.kind in ('uaf', 'doublefree'):
                fs.append(finding('alias|%s|%s' % (s, e.kind), '%s %s' % (e.loc, e.fn), '%s with its own present value: %s' % (s, e.msg), 'release after copy', e.path))
        if not any(not o[3] for o in out):
            fs.append(finding('alias|%s|none' % s, '%s %s' % (f.file, s), '%s never accepts its own present value' % s, 'accepted'))
        for v, src, status, ref, loc in out:
            if ref:
                continue
            if v == arg or v == ('p', arg[1], 0):
                # nothing stored: fine only if the present block is kept and is the argument itself
                if status == 'freed':
                    fs.append(finding('alias|%s|freed' % s, '%s %s' % (loc, s), 'the released present value is what %s leaves stored' % s, 'release after copy'))
                elif v != arg:
                    fs.append(finding('alias|%s|kept' % s, '%s %s' % (loc, s), '%s keeps the present value when given a tail of it' % s, 'stores the argument'))
            elif src is None or any(x[0] != arg for x in src):
                fs.append(finding('alias|%s|copy' % s, '%s %s' % (loc, s), 'what %s stores is not a copy of its argument when that is part of the present value' % s, 'stores the argument'))
    if len(names) < 14:
        raise Broken('only %d string setters found' % len(names))
    return {'findings': fs, 'assumptions': ENGINE_ASSUMPTIONS[:2], 'coverage': dict(p.stats(), setters=names,
            explanation='aliasing analysis of %d string setters: argument inside the block to be released' % len(names))}
