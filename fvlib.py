"""Build, schedule, verify, replay, report."""
import os, json, subprocess, time, tempfile, shutil, threading, hashlib, re, sys
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('FV_REPO', '/repo'); FV = HERE + '/build/fv'
os.environ.setdefault('GLIBC_TUNABLES', 'glibc.malloc.hugetlb=1')   # transparent huge pages for the engine's heap
CLANG = shutil.which('clang-18') or 'clang'
PS = (640, 976, 1344); IMPLS = ('GEN', 'FAST', 'REF'); GENS = ('SHAKE', 'AES', 'AESO')
NCPU = int(os.environ.get('FV_JOBS', min(8, os.cpu_count() or 8))); MEMGB = float(os.environ.get('FV_MEM', 25))
FUNC = {'abort', 'oob', 'null', 'uaf', 'uninit-out', 'ro-write', 'trap', 'unreachable', 'div0'}
SAFE = {'oob', 'align', 'uninit', 'uninit-out', 'ovf', 'shift', 'div0', 'null', 'uaf', 'gep', 'overlap', 'ro-write', 'unreachable', 'trap'}
CTK = {'secret-branch', 'secret-addr', 'secret-div', 'secret-arg'}
TRUST = ['clang 18.1 front end translating the repository C sources to LLVM IR (obligations are generated from that IR; LLVM mem2reg/sroa/instcombine/simplifycfg where stated)',
         'engine/fv: the verification-condition generator and its decision procedures written for this task (term rewriting, polynomial and GF(2) normal forms, exhaustive evaluation), and z3 where the solver tiers list smt',
         'the specification functions sp_* in contracts/spec.c, validated natively against the independently written pyfv/spec.py (on hashlib and OpenSSL) by selftest.py']

# contracted callees of the operations, kept as calls in the whole-program optimised image (clear_bytes is inlined there)
KEEP = ['randombytes', 'shake128', 'shake256', 'frodo_pack', 'frodo_unpack', 'frodo_sample_n', 'ct_verify', 'ct_select', 'frodo_mul_add_as_plus_e', 'frodo_mul_add_sa_plus_e', 'frodo_mul_bs', 'frodo_mul_add_sb_plus_e', 'frodo_add', 'frodo_sub', 'frodo_key_encode', 'frodo_key_decode']
TARGETS = {'be64': ['--target=aarch64_be-linux-gnu', '-D_ARM_'], 'le32': ['--target=i386-linux-gnu', '-D_X86_'], 'be32': ['--target=armeb-linux-gnueabi', '-D_ARM_'], 'ppc64': ['--target=powerpc64-linux-gnu', '-D_ARM_']}
class Cfg:
    __slots__ = ('P', 'I', 'G', 'V', 'mis')
    def __init__(s, P, I='GEN', G='SHAKE', V='', mis=1): s.P, s.I, s.G, s.V, s.mis = P, I, G, V, mis
    def key(s): return (s.P, s.I, s.G, s.V, s.mis)
    def __str__(s): return '%d-%s-%s%s%s' % (s.P, {'GEN': 'FAST_GENERIC', 'FAST': 'FAST', 'REF': 'REFERENCE'}[s.I], {'SHAKE': 'SHAKE128', 'AES': 'AES128', 'AESO': 'AES128-openssl'}[s.G], '-' + s.V if s.V else '', '' if s.mis == 1 else '-align%d' % s.mis)

class Job:
    def __init__(s, cfg, entry, replace=(), opaque=(), flags=(), passes=None, mem=0.3, cost=1, kinds=FUNC, subject=None, native=None, fallback=None, strict=()):
        s.cfg, s.entry, s.replace, s.opaque, s.flags, s.passes, s.mem, s.cost, s.kinds = cfg, entry, tuple(replace), tuple(opaque), tuple(flags), passes, mem, cost, kinds
        s.native, s.also, s.res, s.dropped = native, [], None, []
        s.param = flags[list(flags).index('--param') + 1] if '--param' in flags else ''
        s.fallback = fallback; s.strict = strict
    def name(s): return '%s%s@%s' % (s.entry, '(%s)' % s.param if s.param else '', s.cfg)

# contracts whose postcondition is expressed with an opaque specification function: without the contract that function must be interpreted
OPQ = {'frodo_mul_add_as_plus_e': 'mul', 'frodo_mul_add_sa_plus_e': 'mul', 'frodo_mul_bs': 'mul', 'frodo_mul_add_sb_plus_e': 'mul', 'frodo_sample_n': 'sample',
       'shake128': 'shake', 'shake256': 'shake', 'AES128_load_schedule': 'aes', 'AES128_ECB_enc_sch': 'aes', 'AES128_free_schedule': None, 'KeccakF1600_StatePermute': 'keccakf', 'aes128_enc_c': 'aes_blk', 'aes128_enc_ni': 'aes_blk'}

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

class Run:
    def __init__(s, pid, tier):
        s.pid, s.tier, s.t0 = pid, tier, time.time(); s.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        s.tmp = tempfile.mkdtemp(prefix='fv_%s_' % pid, dir=os.environ.get('FV_TMP')); s.units = {}; s.lock = threading.Lock(); s.violations = []; s.notes = []; s.known = []; s.jobs = []; s.extra = {}; s.assume = []; s.bounded = []; s.buildfail = None
        if not os.path.exists(FV):
            r = sh(['make', '-C', HERE + '/engine']); 
            if r.returncode: print(r.stdout); sys.exit(3)
        try: s.kf = [l for l in json.load(open(HERE + '/known_findings.json'))['findings'] if l.get('status') == 'open']
        except FileNotFoundError: s.kf = []
    def cleanup(s): shutil.rmtree(s.tmp, ignore_errors=True)
    def left(s): return 800 - (time.time() - s.t0)
    def log(s, *a):
        if os.environ.get('FV_VERBOSE'): print('[%6.1f]' % (time.time() - s.t0), *a, flush=True)
    # ---- compilation
    def flags(s, c):
        f = ['-DNIX', '-I' + REPO + '/src', '-std=gnu11']
        t = [x for x in TARGETS if c.V.startswith(x)]
        if t: f += TARGETS[t[0]] + ['-ffreestanding', '-nostdlibinc', '-I' + HERE + '/stub']
        else: f += ['-D_AMD64_']
        f += {'REF': ['-D_REFERENCE_'], 'GEN': ['-D_FAST_GENERIC_'], 'FAST': ['-D_FAST_', '-mavx2', '-maes', '-msse2']}[c.I]
        f += {'SHAKE': ['-D_SHAKE128_FOR_A_', '-DNO_OPENSSL'], 'AES': ['-D_AES128_FOR_A_', '-DNO_OPENSSL'], 'AESO': ['-D_AES128_FOR_A_', '-D_USE_OPENSSL_']}[c.G]
        return f
    def sources(s, c):
        r = ['frodo%d.c' % c.P, 'util.c', 'sha3/fips202.c', 'aes/aes.c', 'aes/aes_c.c', 'random/random.c']
        if c.I == 'FAST': r.append('aes/aes_ni.c')
        if c.I == 'FAST' and c.G == 'SHAKE': r += ['sha3/fips202x4.c', 'sha3/keccak4x/KeccakP-1600-times4-SIMD256.c']
        return [x for x in r if os.path.exists(REPO + '/src/' + x)]
    def unitcmd(s, c, src, spec, native=False):
        if spec:
            tf = [x for x in s.flags(c) if x.startswith('--target') or x in ('-ffreestanding', '-nostdlibinc') or x.endswith('/stub')]
            f = ['-g', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-builtin', '-DP=%d' % c.P, '-DMIS=%d' % c.mis, '-DGEN_SHAKE' if c.G == 'SHAKE' else '-DGEN_AES', '-DAES_ALIGN=%d' % (16 if c.I == 'FAST' else 1)] + (['-DFAST'] if c.I == 'FAST' else []) + (['-DNATIVE_ENTRIES'] if native else []) + (['-DOPENSSL'] if c.G == 'AESO' else []) + tf + ['-I' + HERE + '/contracts']
            return (HERE + '/contracts/' + src, tuple(f))
        o = ['-g', '-O0', '-fno-discard-value-names', '-Xclang', '-disable-O0-optnone'] if not c.V.endswith('O3') else ['-g', '-O3', '-fno-discard-value-names', '-fno-inline', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops']
        return (REPO + '/src/' + src, tuple(o + s.flags(c)))
    def unitpath(s, u): return s.tmp + '/' + hashlib.sha1(repr(u).encode()).hexdigest()[:16] + '.bc'
    def units_of(s, c, native=False):
        src = [s.unitcmd(c, x, False) for x in s.sources(c)]
        if c.V == 'LTO': src = [('LTO:frodo%d.c,util.c' % c.P, tuple(s.flags(c)))]   # whole-program optimised image of the operations and util.c
        return src, [s.unitcmd(c, x, True, native and x == 'harness.c') for x in ('spec.c', 'contracts.c', 'harness.c', 'prim.c')]
    def compile(s, cfgs, native=False):
        todo = []
        for c in cfgs:
            a, b = s.units_of(c, native)
            for u in a + b:
                if u not in s.units: s.units[u] = None; todo.append(u)
        def one(u):
            if u[0].startswith('LTO:'): s.units[u] = s.lto(u); return
            r = sh([CLANG, '-c', '-emit-llvm', '-w'] + list(u[1]) + [u[0], '-o', s.unitpath(u)]); s.units[u] = (r.returncode, r.stdout)
        s.pool([(lambda u=u: one(u), 0.2) for u in todo])
        bad = [(u, s.units[u][1]) for u in todo if s.units[u] is None or s.units[u][0]]
        return bad
    def lto(s, u):
        b = s.unitpath(u); ins = []
        for i, x in enumerate(u[0][4:].split(',')):
            r = sh([CLANG, '-c', '-emit-llvm', '-w', '-g', '-O3', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names'] + list(u[1]) + [REPO + '/src/' + x, '-o', '%s.%d' % (b, i)]); ins.append('%s.%d' % (b, i))
            if r.returncode: return r.returncode, r.stdout
        r = sh(['llvm-link-18', '-S'] + ins + ['-o', b + '.ll']); keep = set(KEEP)
        if r.returncode: return r.returncode, r.stdout
        L = []
        for l in open(b + '.ll'):
            m = re.match(r'define .*?@([\w.]+)\(', l)
            if m:
                k = m.group(1); k = 'noinline' if k in keep or k.startswith('crypto_kem_') else 'alwaysinline'
                l = re.sub(r'\) (?=(local_unnamed_addr |unnamed_addr )?#\d+)', ') ' , l); l = re.sub(r' (#\d+)', ' %s \\1' % k, l, count=1)
                if k == 'noinline': keep.add(m.group(1))
            L.append(l)
        open(b + '.ll', 'w').writelines(L)
        r = sh(['opt-18', '-passes=internalize,default<O3>', '-vectorize-loops=0', '-vectorize-slp=0', '-internalize-public-api-list=' + ','.join(sorted(keep)), b + '.ll', '-o', b]); return r.returncode, r.stdout
    def args(s, c, native=False):
        a, b = s.units_of(c, native); r = []
        for u in a:
            if s.units[u][0] == 0: r += ['--repo', s.unitpath(u)]
        for u in b: r += ['--spec', s.unitpath(u)]
        return r
    def pool(s, work):   # work: (fn, mem)
        work = list(work); cv = threading.Condition(); st = {'n': 0, 'm': 0.0}; ths = []
        def runner(fn, mem):
            try: fn()
            except Exception as e: s.notes.append('internal: %r' % e)
            finally:
                with cv: st['n'] -= 1; st['m'] -= mem; cv.notify_all()
        while work:
            with cv:
                pick = None
                while pick is None:
                    if st['n'] < NCPU:
                        for i, (fn, mem) in enumerate(work):
                            if st['n'] == 0 or st['m'] + mem <= MEMGB: pick = i; break
                    if pick is None: cv.wait()
                fn, mem = work.pop(pick); st['n'] += 1; st['m'] += mem
            t = threading.Thread(target=runner, args=(fn, mem)); t.start(); ths.append(t)
        for t in ths: t.join()
    # ---- jobs
    def prepare(s, jobs):
        """compile, check applicability of contracts, drop duplicates"""
        cfgs = {j.cfg.key(): j.cfg for j in jobs}; bad = s.compile(cfgs.values())
        for u, out in bad: s.notes.append('does not compile: %s %s' % (u[0], out[:400]))
        if bad: s.buildfail = bad
        s.log('compiled', len(s.units)); bycfg = {}
        for j in jobs: bycfg.setdefault(j.cfg.key(), []).append(j)
        def one(key):
            js = bycfg[key]; fn = s.tmp + '/hl_' + hashlib.sha1(repr(key).encode()).hexdigest()[:12]
            open(fn, 'w').write(''.join('%s %s\n' % (j.entry, ','.join(j.replace) or '-') for j in js))
            r = sh([FV] + s.args(cfgs[key]) + ['--hash-list', fn]); L = r.stdout.strip().split('\n')
            if len(L) != len(js):
                for j in js: j.hash = None; j.info = {}; j.bad = ['engine: ' + r.stdout[-300:]]
                return
            for j, l in zip(js, L):
                p = l.split(); j.hash = p[0]; j.info = dict(x.split('=') for x in p[1:] if '=' in x and x[0] != '!'); j.bad = [x[1:] for x in p[1:] if x[0] == '!']
        s.pool([(lambda k=k: one(k), 0.5) for k in bycfg])
        seen = {}; out = []
        for j in jobs:
            if j.hash == 'noentry': j.status = 'inapplicable'; j.reason = 'no such harness in this configuration'; continue
            if j.bad: j.status = 'inapplicable'; j.reason = ', '.join(j.bad); s.notes.append('%s not applicable: %s' % (j.name(), j.reason)); continue
            gone = [f for f in j.strict if f in j.replace and j.info.get(f) in ('mismatch', 'missing')]
            if gone: j.bad = gone; j.status = 'inapplicable'; j.reason = 'ghost argument needs ' + ', '.join(gone); continue
            drop = [f for f in j.replace if j.info.get(f) in ('mismatch',)]
            # a contracted function that no longer exists under this name or signature is verified inline instead
            dropop = set(); 
            for f in drop + [f for f in j.replace if j.info.get(f) == 'missing' and f in OPQ and s.relevant(f, j.cfg)]:
                o = OPQ.get(f); 
                if o == 'aes': dropop |= {'aes128', 'aes_sched'}
                elif o: dropop.add(o)
            if dropop & set(j.opaque): j.dropped = sorted(dropop & set(j.opaque)); j.opaque = tuple(o for o in j.opaque if o not in dropop); j.replace = tuple(f for f in j.replace if f not in drop and not (OPQ.get(f) in dropop)) ; j.mem = max(j.mem, 5)
            k = (j.hash, j.replace, j.opaque, j.flags, j.passes, j.cfg.V)
            if k in seen: seen[k].also.append(j.cfg); j.status = 'dup'; continue
            seen[k] = j; out.append(j)
        s.log('jobs', len(jobs), 'distinct', len(out)); return out
    def relevant(s, f, c):
        if f.startswith('AES128_'): return c.G == 'AES'
        if f == 'shake128': return c.P == 640 or c.G == 'SHAKE'
        if f == 'shake256': return c.P != 640
        if f.startswith('aes128_enc_ni'): return c.I == 'FAST'
        if f.startswith('KeccakP'): return False
        return True
    def fvcmd(s, j, out):
        return [FV] + s.args(j.cfg) + ['--entry', j.entry, '--seed', str(s.seed), '--out', out] + (['--replace', ','.join(j.replace)] if j.replace else []) + (['--opaque', ','.join(j.opaque)] if j.opaque else []) + (['--passes', j.passes] if j.passes else []) + list(j.flags)
    def runjobs(s, jobs):
        jobs = s.prepare(jobs); jobs.sort(key=lambda j: (-j.cost, -j.mem)); s.jobs += jobs
        def one(j):
            out = s.tmp + '/o_' + hashlib.sha1((j.name() + repr(j.flags) + repr(j.opaque)).encode()).hexdigest()[:16] + '.json'; t = time.time()
            lim = max(30, s.left() - 60); r = sh(['timeout', '-k', '5', '%d' % lim] + s.fvcmd(j, out) + ['--tlim', '%d' % max(20, lim - 20)])
            try: j.res = json.load(open(out))
            except Exception: j.res = {'status': 'unknown', 'reason': 'engine exit %d: %s' % (r.returncode, r.stdout[-300:]), 'proved': 0, 'failed': 0, 'undecided': 0, 'events': [], 'fails': [], 'obligations': {}, 'solver': {}, 'contracts_used': [], 'executed': [], 'time': time.time() - t}
            j.status = j.res['status']; s.log(j.name(), j.status, j.res.get('reason', '')[:200], '%.1fs' % (time.time() - t), '%sMB' % j.res.get('maxrss_mb'), '+%d' % len(j.also), [(e['kind'], e['fn'], e['line'], e['msg'][:60]) for e in j.res['events'] if e['kind'] in j.kinds][:4], [f['what'] for f in j.res['fails']][:3])
        s.pool([(lambda j=j: one(j), j.mem) for j in jobs])
        return jobs
    # ---- judgement
    def suppressed(s, j, kind, fn, what):
        for k in s.kf:
            if k['property'] == s.pid and k.get('entry', j.entry) == j.entry and k['kind'] == kind and k.get('function', fn) == fn and k.get('what', what) in what: return k
        return None
    def judge(s, jobs, use_eq=True):
        fails = []
        for j in jobs:
            if j.status in ('inapplicable',): continue
            if use_eq:
                for f in j.res['fails']: fails.append((j, 'undecided' if f['undecided'] else 'refuted', f['what'], f))
            if j.status == 'unknown' and not any(f['undecided'] for f in j.res['fails']): fails.append((j, 'unknown', j.res.get('reason', ''), None))
            for e in j.res['events']:
                if e['kind'] in j.kinds:
                    k = s.suppressed(j, e['kind'], e['fn'], e['msg'])
                    if k: 
                        if k not in s.known: s.known.append(k)
                        continue
                    fails.append((j, 'event', '%s: %s in %s (%s:%d)' % (e['kind'], e['msg'], e['fn'], os.path.basename(e['file']), e['line']), e))
        return fails
    # ---- native confirmation
    def native(s, cfg, entry, secs, cexf=None, trials=10**7, stage=None, san=False):
        if cfg.V: return None, 'not executable natively'
        exe = s.tmp + '/nat_' + hashlib.sha1(repr((cfg.key(), san)).encode()).hexdigest()[:12]
        if not os.path.exists(exe):
            if s.compile([cfg], native=True): return None, 'does not compile'
            kem = entry.startswith('n_') or entry.startswith('h_')
            lnk = exe + '.bc'; r = sh([FV] + s.args(cfg, True) + ['--entry', 'x', '--replace', 'randombytes,open,read,delay', '--emit', lnk])
            r = sh([CLANG, '-w', '-O2', '-rdynamic', '-Wl,--unresolved-symbols=ignore-all', '-I' + HERE + '/contracts', lnk, HERE + '/native/native.c', '-o', exe, '-lcrypto', '-lm'])
            if r.returncode: return None, r.stdout[-500:]
        cmd = [exe, entry, str(s.seed), str(trials), str(secs)] + ([cexf] if cexf else [])
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs * 3 + 60, errors='replace', env=dict(os.environ, FV_PARAM=getattr(s, 'param', '')))
        except subprocess.TimeoutExpired: return None, 'timeout'
        if r.returncode == 10: return True, r.stdout.strip()
        if r.returncode < 0: return True, 'the compiled code crashed (signal %d) running %s seed=%d: %s' % (-r.returncode, entry, s.seed, r.stdout[-300:])
        return False, r.stdout.strip()
    def confirm(s, j, f):
        """try to turn a failed obligation into a failing input of the compiled code"""
        cfgs = [c for c in [j.cfg] + j.also if not c.V]; tries = []
        if not cfgs: return None, 'no natively executable configuration'
        c = cfgs[0]; budget = max(5, min(40, s.left() / 4))
        s.param = j.param
        if f and f.get('cex') and j.entry.startswith('h'):
            fn = s.tmp + '/cex_%s' % hashlib.sha1(j.name().encode()).hexdigest()[:10]
            with open(fn, 'w') as h:
                for nm, m in f['cex'].items(): h.write('%s %d %s\n' % (nm.replace(' ', '_'), len(m), ' '.join('%s %d' % (k, v) for k, v in m.items())))
            ok, out = s.native(c, j.entry, 20, fn, 1); tries.append(out)
            if ok: return {'config': str(c), 'entry': j.entry, 'input': f['cex'], 'observed': out}, out
        if j.entry.startswith('h'):
            ok, out = s.native(c, j.entry, budget); tries.append(out)
            if ok: return {'config': str(c), 'entry': j.entry, 'seed': s.seed, 'observed': out}, out
        if j.entry in ('h_keypair', 'h_enc', 'h_dec'):
            ok, out = s.native(c, 'n_kem', budget); tries.append(out)
            if ok: return {'config': str(c), 'entry': 'n_kem', 'seed': s.seed, 'observed': out}, out
        return None, ' | '.join(str(t) for t in tries)
    def report(s, fails, confirm=True, statement=''):
        rd = HERE + '/evidence/replays'; os.makedirs(rd, exist_ok=True)
        for fn in os.listdir(rd):
            if fn.startswith(s.pid + '_'): os.unlink(rd + '/' + fn)
        for k in s.known: print('KNOWN-FINDING: property=%s %s' % (s.pid, k['what_fails']))
        if not fails: return 0
        order = {'refuted': 0, 'event': 1, 'undecided': 2, 'unknown': 3}; fails.sort(key=lambda x: (order[x[1]], x[0].cfg.P, x[0].cost))
        done = set(); first = None; best = None; n = 0
        for j, kind, what, f in fails:
            k = (j.entry, j.cfg.key())
            if k in done: continue
            done.add(k); rep, out = (None, '')
            if confirm and n < 4 and s.left() > 60: rep, out = s.confirm(j, f if kind in ('refuted', 'undecided') else None); n += 1
            rec = {'property': s.pid, 'obligation': '%s: %s' % (j.name(), what), 'kind': kind, 'also_fails_in': [str(c) for c in j.also], 'verifier_output': f, 'verifier_reason': j.res.get('reason', ''), 'checker_cmd': ' '.join(s.fvcmd(j, '-')), 'failing_input': rep, 'native_replay_output': out,
                   'how_to_replay': 'the harness %s in /verif/contracts runs the real function and its specification on the same values; rerun: python3 /verif/check.py %s' % (j.entry, s.pid)}
            if first is None: first = rec
            if rep: best = rec; break
            if n >= 4: break
        rec = best or first; path = rd + '/%s_1.json' % s.pid
        rec['all_failed_obligations'] = ['%s: %s [%s]' % (j.name(), w, k) for j, k, w, f in fails][:60]; json.dump(rec, open(path, 'w'), indent=1, default=str)
        s.violations = rec['all_failed_obligations']
        for x in rec['all_failed_obligations'][:8]: print('failed obligation:', x)
        if rec['failing_input']: print('failing input:', rec['failing_input']['observed'][:300])
        print('VIOLATION property=%s replay=%s%s' % (s.pid, path, '' if rec['failing_input'] else ' no-failing-input-found')); return 1
    def evidence(s, level='proof', extra=None, assumptions=()):
        tot = dis = 0; kinds = {}; tiers = {}; fu = set(); ex = set(); ct = set(); smt = 0.0; tm = 0.0; per = []
        for j in s.jobs:
            if not j.res: continue
            r = j.res; o = dict(r.get('obligations', {})); eq = r['proved'] + r['failed'] + r['undecided']; bad = len([e for e in r['events'] if e['kind'] in j.kinds])
            n = eq + sum(o.values()); tot += n; dis += n - r['failed'] - r['undecided'] - bad
            for k, v in o.items(): kinds[k] = kinds.get(k, 0) + v
            kinds['equalities'] = kinds.get('equalities', 0) + eq
            for k, v in r.get('solver', {}).items(): tiers[k] = round(tiers.get(k, 0) + v, 3)
            ct |= set(r.get('contracts_used', [])); ex |= set(r.get('executed', [])); tm += r.get('time', 0)
            per.append({'job': j.name(), 'same_code_in': [str(c) for c in j.also], 'status': r['status'], 'obligations': n, 'seconds': round(r.get('time', 0), 2), 'contracts_assumed_here': r.get('contracts_used', [])})
        cov = {'obligations': tot, 'discharged': dis, 'checker_cmd': 'python3 check.py %s %s  (engine: build/fv on LLVM IR compiled from %s/src)' % (s.pid, s.tier, REPO), 'trusted_base': TRUST, 'by_kind': kinds, 'by_solver_tier': tiers, 'verifier_seconds': round(tm, 1), 'functions_whose_bodies_were_verified': sorted(ex), 'callee_contracts_used_in_callers': sorted(ct), 'harnesses': per[:400], 'not_applicable_harnesses': [x for x in s.notes]}
        if s.bounded: cov['bounded'] = s.bounded
        if extra: cov.update(extra)
        cov.update(s.extra)
        os.makedirs(HERE + '/evidence', exist_ok=True)
        json.dump({'property': s.pid, 'tier': s.tier, 'seed': s.seed, 'level': level, 'coverage': cov, 'assumptions': list(assumptions) + s.assume, 'wall_s': round(time.time() - s.t0, 2), 'violations': len(s.violations)}, open(HERE + '/evidence/%s.json' % s.pid, 'w'), indent=1)
    def finish(s, jobs, level='proof', extra=None, assumptions=(), use_eq=True, confirm=True, more=()):
        fails = s.judge(jobs, use_eq) + list(more)
        nob = sum(sum(j.res.get('obligations', {}).values()) + j.res['proved'] for j in jobs if j.res)
        if not jobs or nob == 0:
            print('no obligation could be generated:', '; '.join(s.notes)[:600]); s.evidence(level, extra, assumptions); return 3
        rc = s.report(fails, confirm); s.evidence(level, extra, assumptions)
        print('%s %s: %d harness runs, %d obligations, %s, %.0f s' % (s.pid, s.tier, len(jobs), nob, 'all discharged' if rc == 0 else 'FAILED', time.time() - s.t0)); return rc
