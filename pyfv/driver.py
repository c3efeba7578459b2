"""C19: obligations of the Python implementation (see terms.py, stubs.py, load.py, spec.py, run.py)."""
import os, json, subprocess, time, concurrent.futures as cf, threading
H = os.path.dirname(os.path.abspath(__file__)); VT = '/opt/veriftools/pyvenv/bin/python'; RP = '/opt/vp/pyvenv/bin/python'
NS = (640, 976, 1344); GS = ('AES', 'SHAKE'); KEM = ('keygen', 'encaps', 'decaps'); COMP = ('encode', 'decode', 'pack', 'unpack', 'sample', 'smat', 'rnd')
TRUST = ['CPython 3.12 executing the implementation on symbolic operands; pyfv/load.py rewrites conditionals, comparisons and boolean operators of the parsed source so that they accept them (nothing is dropped)',
         'pyfv/terms.py: exact one-unknown tables, sums of products modulo q, bit-level boolean functions', 'pyfv/stubs.py: contracts of bitstring, struct, secrets and cryptography; SHAKE128/256 and AES are uninterpreted functions of their complete input', 'pyfv/spec.py: the specification functions']
def weight(j):
    k, n = j.split(':')[:2]; n = int(n)
    return (n * n * 8 / 1e5 if k == 'mm' and not j.endswith('sb') else n * n / 3e4 if k in KEM or k == 'gen' else 1)
def C19(R, repo, jobs_max):
    path = repo + '/python3/frodokem.py'; py = VT if os.path.exists(VT) else 'python3-vt'; res = {}; lock = threading.Lock(); lim = 420 if R.tier == 'quick' else 1500
    def one(j, modular):
        left = max(20, min(lim, R.left() - 200))
        try: r = subprocess.run([py, H + '/run.py', path, ','.join(modular), j], capture_output=True, text=True, timeout=left, cwd=R.tmp, env=dict(os.environ, PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1'))
        except subprocess.TimeoutExpired: return {'job': j, 'modular': list(modular), 'status': 'unsupported', 'what': 'time limit', 'obligations': 0, 'seconds': left}
        try: return json.loads(r.stdout.strip().splitlines()[-1])
        except Exception: return {'job': j, 'modular': list(modular), 'status': 'unsupported', 'what': 'verifier ended: ' + r.stderr[-300:], 'obligations': 0, 'seconds': 0}
    def run(js, par):
        with cf.ThreadPoolExecutor(par) as ex:
            for r in ex.map(lambda a: one(*a), sorted(js, key=lambda a: -weight(a[0]))):
                res[r['job']] = r
                if os.environ.get('FV_VERBOSE'): print('[%6.1f]' % (time.time() - R.t0), r['job'], r['modular'], r['status'], r.get('what', ''), r['seconds'], r.get('mb'), flush=True)
    api = ['%s:%d:SHAKE' % (k, n) for n in NS for k in COMP] + ['gen:%d:%s' % (n, g) for n in NS for g in GS]; mm = ['mm:%d:SHAKE:%s' % (n, s) for n in NS for s in ('as', 'sa', 'sb')]; kem = ['%s:%d:%s' % (k, n, g) for n in NS for g in GS for k in KEM]
    run([(j, ('gen', 'mm')) for j in api + mm + kem], jobs_max)
    okmm = {n: all(res['mm:%d:SHAKE:%s' % (n, s)]['status'] == 'ok' for s in ('as', 'sa', 'sb')) for n in NS}
    # callers whose callee contract did not hold (or that failed against the contracts) are verified again with those callees inlined
    again = [(j, ('gen',) if res[j]['status'] != 'fail' and res['gen:' + j.split(':', 1)[1]]['status'] == 'ok' else ()) for j in kem if not okmm[int(j.split(':')[1])] or res[j]['status'] != 'ok']
    bad = [j for j in api if res[j]['status'] == 'fail']
    if again and not bad: run(again, 4)
    elif again: R.notes.append('KEM functions not verified again with callees inlined, a called function already fails: %s' % bad[:4])
    mine = [res[j] for j in api + kem if j in res]; fails = [r for r in mine if r['status'] == 'fail']; uns = [r for r in mine if r['status'] not in ('ok', 'fail')]
    mis = None; compared = 0
    if fails or uns:
        # confirm on the real interpreter; stand-in for what the verifier could not read
        def nat(r):
            j = ':'.join(r['job'].split(':')[:3]); v = R.tmp + '/vec_%s.json' % j.replace(':', '_')
            if j.startswith('rnd'): return None
            try:
                subprocess.run([py, H + '/vecs.py', v, str(R.seed), j], check=True, capture_output=True, timeout=max(20, min(200, R.left() - 60)), cwd=R.tmp)
                o = json.loads(subprocess.run([RP, H + '/native.py', path, v], capture_output=True, text=True, timeout=max(20, min(300, R.left() - 30)), cwd=R.tmp, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1')).stdout.strip().splitlines()[-1])
            except Exception as e: return {'compared': 0, 'mismatch': None, 'error': repr(e)[:300]}
            finally:
                if os.path.exists(v): os.unlink(v)
            o['job'] = j; return o
        order = sorted(fails, key=lambda r: weight(r['job'])) + sorted(uns, key=lambda r: weight(r['job']))
        with cf.ThreadPoolExecutor(6) as ex: outs = list(ex.map(nat, order))
        for r, o in zip(order, outs):
            r['native'] = {k: v for k, v in (o or {}).items() if k != 'mismatch'}; compared += (o or {}).get('compared', 0)
            if o and o['mismatch'] and not mis: mis = o['mismatch']
        for r in uns: R.bounded.append({'function': r['job'], 'why': r.get('what', r['status']), 'bound': 'compared with the specification on %d inputs only' % r['native'].get('compared', 0)})
    tot = sum(r['obligations'] for r in res.values()); ok = [r for r in res.values() if r['status'] == 'ok']
    extra = {'obligations': tot, 'discharged': sum(r['obligations'] for r in ok), 'checker_cmd': 'python3 check.py C19 %s  (pyfv/run.py on %s)' % (R.tier, path), 'trusted_base': TRUST, 'harnesses': [{k: v for k, v in r.items() if k != 'trace'} for r in res.values()],
             'functions_whose_bodies_were_verified': ['FrodoKEM.' + x for x in ('__init__', 'encode', 'decode', 'pack', 'unpack', 'sample', 'sample_matrix', 'genAES128', 'genSHAKE128', 'kem_keygen', 'kem_encaps', 'kem_decaps')] + ['the private helpers they call'],
             'callee_contracts_used_in_callers': ['gen', '__matrix_mul (proved for the three shapes used)'] if all(okmm.values()) else ['gen'], 'by_solver_tier': {'exact tables and normal forms': round(sum(r['seconds'] for r in res.values()), 1)}, 'by_kind': {'equalities': tot}, 'verifier_seconds': round(sum(r['seconds'] for r in res.values()), 1)}
    asm = ['assumed contracts: bitstring 3.1, struct, cryptography SHAKE/AES-ECB, secrets as in pyfv/stubs.py', 'inputs have the documented sizes and entry ranges (matrix entries in [0,q), 16-bit samples)']
    if uns: asm.append('bounded, not proved: ' + ', '.join(r['job'] for r in uns))
    rc = 0; rd = os.path.dirname(H) + '/evidence/replays'; os.makedirs(rd, exist_ok=True)
    for fn in os.listdir(rd):
        if fn.startswith('C19_'): os.unlink(rd + '/' + fn)
    if fails or mis:
        p = rd + '/C19_1.json'; f = [x for x in fails if mis and x['job'].startswith(mis['job'])] or fails or uns
        json.dump({'property': 'C19', 'obligation': '%s: %s' % (f[0]['job'], f[0].get('what')), 'failing_input': mis, 'verifier_output': fails or uns, 'how_to_replay': 'failing_input gives the call, the value the implementation returned and the specified value; rerun: python3 /verif/check.py C19'}, open(p, 'w'), indent=1)
        R.violations = ['%s: %s' % (r['job'], r.get('what')) for r in fails] or ['native comparison']; rc = 1
        for x in R.violations[:8]: print('failed obligation:', x)
        if mis: print('failing input:', json.dumps(mis)[:300])
        print('VIOLATION property=C19 replay=%s%s' % (p, '' if mis else ' no-failing-input-found'))
    if not ok: print('no obligation could be generated'); rc = rc or 3
    R.evidence('proof', extra, asm)
    print('C19 %s: %d harness runs, %d obligations, %s, %.0f s' % (R.tier, len(res), tot, 'FAILED' if rc else 'all discharged' if not uns else 'rest bounded', time.time() - R.t0)); return rc
