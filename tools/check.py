#!/usr/bin/env python3
"""check.py <property>: decides one property by symbolic execution of /repo's current code.
exit 0: held on everything explored (listed findings are printed); exit 1: VIOLATION; exit 2: the check could not run."""
import sys, os, json, time, shutil, tempfile, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from specs import SPECS

def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if len(sys.argv) > 2: tier = sys.argv[2]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    spec = SPECS[pid]; t0 = time.time(); thorough = tier == 'thorough'
    known = {}
    kf = os.path.join(vlib.VERIF, 'known_findings.json')
    if os.path.exists(kf):
        for k in json.load(open(kf)).get('known', []):
            if k['property'] == pid: known[k['id']] = k['what']
    work = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        results = []; viol = []; found = {}; errors = []
        harnesses = {}
        for e in spec['entries']:
            if e.get('thorough_only') and not thorough: continue
            harnesses.setdefault(e['harness'], []).append(e)
        for h, ents in harnesses.items():
            bc, nat = vlib.compile_harness(h, work, ['VERIF_THOROUGH=1'] if thorough else [])
            for e in ents:
                lim = e.get('time', 60) * (1 if not thorough else e.get('tmul', 8))
                r, err = vlib.run_entry(bc, nat, e['entry'], work, lim, 8, seed, e.get('opts', []))
                if r is None: errors.append('%s: %s' % (e['entry'], err)); continue
                r['bounds'] = e.get('bounds', ''); results.append(r)
                for c in r['confirmed']:
                    k = c['kind']
                    if k.startswith('known:'):
                        kid = k[6:]
                        if kid in known: found[kid] = c
                        else: viol.append((e, h, c))
                    else: viol.append((e, h, c))
                if viol: break
            if viol: break
        for kid in sorted(found): print('KNOWN-FINDING: property=%s %s' % (pid, known[kid]))
        rc = 0
        if viol:
            e, h, c = viol[0]
            d = os.path.join(vlib.VERIF, 'replays', pid); os.makedirs(d, exist_ok=True)
            dst = os.path.join(d, '%s.txt' % e['entry']); shutil.copy(c['cex'], dst)
            with open(dst, 'a') as f: f.write('# %s: %s\n# replay: python3 /verif/tools/replay.py %s %s %s\n' % (c['kind'], c['msg'], h, e['entry'], dst))
            print('%s: %s' % (c['kind'], c['msg'])); print('counterexample:'); print(open(dst).read()[:3000])
            print('VIOLATION property=%s replay=%s' % (pid, dst)); rc = 1
        tot = lambda k: sum(r[k] for r in results)
        obl = sum(v[0] for r in results for v in r['asserts'].values()); dis = sum(v[1] for r in results for v in r['asserts'].values())
        funcs = sorted(set(f for r in results for f in r['functions']))
        incomplete = [r['entry'] for r in results if r['unexplored'] or r['unsupported_paths'] or r['crashed'] or r['unresolved_count']]
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
              'coverage': {
                'states': tot('paths') + tot('forks'), 'transitions': tot('blocks'), 'traces_validated_against_impl': tot('traces') - tot('trace_mismatch'),
                'samples': [s for r in results for s in r['samples']][:6] or [{'note': 'no input dependent path'}],
                'explanation': 'Symbolic execution of the LLVM IR of the listed functions, compiled from /repo on this run; states = symbolic paths completed plus forks, transitions = basic blocks executed symbolically; each assertion on each path is decided by Z3 over all remaining inputs.',
                'exhaustive': not incomplete and not errors and not viol,
                'paths': tot('paths'), 'paths_with_concrete_witness': tot('paths_with_witness'), 'assertion_instances': obl, 'assertion_instances_discharged': dis,
                'assertions_decided_by_solver': tot('asserts_by_solver'), 'assertions_decided_by_rewriting': tot('asserts_concrete'),
                'solver_queries': tot('queries'), 'solver_sat': tot('q_sat'), 'solver_unsat': tot('q_unsat'), 'solver_unknown': tot('q_unknown'), 'solver_cache_hits': tot('q_cached'), 'solver_seconds': round(sum(r['solver_s'] for r in results), 2),
                'unexplored_states': tot('unexplored'), 'unsupported_paths': tot('unsupported_paths'), 'unresolved_assertions': tot('unresolved_count'), 'counterexamples_replayed': tot('cex_tried'), 'trace_mismatches': tot('trace_mismatch'),
                'functions_encoded': funcs, 'functions_encoded_count': len(funcs),
                'entries': [{'entry': r['entry'], 'bounds': r['bounds'], 'paths': r['paths'], 'queries': r['queries'], 'solver_s': r['solver_s'], 'wall_s': r['wall_s'], 'asserts': r['asserts'], 'covers': r['covers'], 'unsupported': r['unsupported'], 'unresolved': r['unresolved'], 'unexplored': r['unexplored'], 'notes': r['notes'], 'stubs': r['stubs']} for r in results],
                'errors': errors, 'known_findings_reproduced': sorted(found)},
              'assumptions': spec.get('assumptions', []) + ['engine: 64-bit ints as mathematical integers with wrap, doubles as exact reals plus a rigorous rounding-error bound per expression; every counterexample is replayed on a native g++ build before it is reported']}
        os.makedirs(os.path.join(vlib.VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(vlib.VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
        print('%s %s: paths=%d obligations=%d/%d queries=%d solver=%.1fs wall=%.1fs functions=%d%s' % (pid, tier, ev['coverage']['paths'], dis, obl, ev['coverage']['solver_queries'], ev['coverage']['solver_seconds'], ev['wall_s'], len(funcs), (' incomplete: ' + ','.join(incomplete)) if incomplete else ''))
        if errors: print('errors:', errors)
        if rc == 0 and errors and not results: rc = 2
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)
if __name__ == '__main__':
    try: sys.exit(main())
    except SystemExit as e:
        if isinstance(e.code, str): print(e.code, file=sys.stderr); sys.exit(2)
        raise
