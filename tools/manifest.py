#!/usr/bin/env python3
"""regenerates /verif/MANIFEST.json from properties.jsonl, the rules present and the reasons below"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C13': 'the bound is a relation between the length of the text in the line buffer, the counter kept beside it and the allocated size, carried through an editor loop of some forty commands with shifting inner loops; the linear domain built for it (engine/lin.py, kept but not registered) loses the text length in the yank and redraw loops and cannot be made quiet without assuming what is to be shown. Arrays of fixed size, including the editor\'s, are decided by C27 instead',
 'C40': 'equality of two run-time strings produced by formatted printing and numeric conversion; no static abstraction in reach relates printf output to parser input for all values',
 'C41': 'depends on the contents of the command tree and the line; the selection is a search over run-time data that no dataflow or typing argument bounds',
 'C42': 'longest common prefix of run-time candidate strings; a relation between data values, not a property of code paths',
 'C43': 'termination of recursive expansion and matching depends on the shape of user-supplied trees; a ranking argument over run-time structures is out of reach of the analyses here',
 'C44': 'relates bytes sent to a terminal with cursor arithmetic over run-time widths; needs a model of the display that static analysis of the source does not give',
 'C45': 'the effect of the process time zone is inside mktime/timegm of the C library; the source alone does not decide the resulting instant',
 'C46': 'the set of accepted word orders is a language defined by run-time expansion of trees; not decidable from code structure',
 'C47': 'equivalence of two run-time trees under matching; a relational property of data',
 'C48': 'equality of file contents written and read back; depends on run-time strings and the file system',
 'C49': 'quantifies over the instant a signal arrives; an interleaving property, not decided by per-path analysis of the source',
}
TECH = {}
def tech(pid, technique, note): TECH[pid] = (technique, note)
exec(open(os.path.join(H, 'tools', 'techniques.py')).read())
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    if i in TECH and os.path.exists(os.path.join(H, 'rules', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': TECH[i][0], 'level': 'other', 'level_note': TECH[i][1]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
doc = {'version': 1,
       'setup_cmd': 'python3 engine/front.py --build',
       'checks': checks, 'not_applicable': na,
       'notes': 'Every check compiles /repo\'s current sources to LLVM IR (out of tree) and analyses that IR; nothing of the library is executed.'}
json.dump(doc, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
