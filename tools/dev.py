#!/usr/bin/env python3
"""dev.py HARNESS [ENTRY] [-t SEC] [-v] [-j N] [--nb] [extra symex options]: compile and run one harness."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
a = sys.argv[1:]; h = a.pop(0); ent = None; t = 60; v = False; j = 8; opts = []; nb = False; full=False; defs=[]
while a:
    x = a.pop(0)
    if x == '-t': t = float(a.pop(0))
    elif x == '-v': v = True
    elif x == '-j': j = int(a.pop(0))
    elif x == '--nb': nb = True
    elif x == '--full': full = True
    elif x.startswith('-D'): defs.append(x[2:])
    elif x.startswith('--'): opts += [x] + ([a.pop(0)] if a and not a[0].startswith('-') else [])
    else: ent = x
w = '/tmp/vdev/' + h; os.makedirs(w, exist_ok=True)
if nb: bc, nat = w + '/' + h + '.bc', w + '/' + h + '.native'
else: bc, nat = vlib.compile_harness(h, w, defs)
ents = [ent] if ent else [l.strip()[12:l.strip().index(')')] for l in open(vlib.VERIF + '/harness/' + h + '.cpp') if l.strip().startswith('VERIF_ENTRY(')]
for e in ents:
    r, err = vlib.run_entry(bc, nat, e, w, t, j, 1, opts, v)
    if r is None: print(e, 'ERROR', err); continue
    f = r.pop('functions'); r.pop('samples') if not full else 0
    print('==', e, 'paths', r['paths'], 'unsup', r['unsupported_paths'], 'unexpl', r['unexplored'], 'infeas', r['infeasible'], 'Q', r['queries'], 'unk', r['q_unknown'], 'solver %.1f wall %.1f' % (r['solver_s'], r['wall_s']), 'tr %d/%d' % (r['trace_mismatch'], r['traces']), 'crashed', r['crashed'], 'procs', r['processes'])
    for k in ('asserts', 'covers', 'unsupported', 'unresolved', 'notes', 'stubs', 'confirmed', 'known'):
        if r[k]: print('  ', k, json.dumps(r[k], indent=None if not full else 1)[:6000])
    if full: print('\n'.join(f))
