"""Which obligations decide which property."""
from fvlib import *
RND = ('randombytes',)
SH = ('shake128', 'shake256')
LOWA = ('shake128_4x', 'AES128_load_schedule', 'AES128_ECB_enc_sch', 'AES128_free_schedule', 'EVP_CIPHER_CTX_new', 'EVP_aes_128_ecb', 'EVP_EncryptInit_ex', 'EVP_EncryptUpdate', 'EVP_CIPHER_CTX_free')
MULR = ('shake128', 'shake256') + LOWA
MULO = ('shake', 'aes128', 'aes_sched')
KEMF = ('frodo_pack', 'frodo_unpack', 'frodo_sample_n', 'ct_verify', 'ct_select', 'clear_bytes', 'frodo_mul_add_as_plus_e', 'frodo_mul_add_sa_plus_e', 'frodo_mul_bs', 'frodo_mul_add_sb_plus_e', 'frodo_add', 'frodo_sub', 'frodo_key_encode', 'frodo_key_decode')
KEMR = RND + SH + KEMF + LOWA
KEMO = ('shake', 'mul', 'sample', 'aes128', 'aes_sched')
MP = 'function(sroa,instcombine,simplifycfg)'
KP = ('KeccakF1600_StatePermute', 'KeccakP1600times4_PermuteAll_24rounds')

def repl(l, c): return tuple(f for f in l if not (c.G == 'AESO' and f.startswith('AES128_')))   # with OpenSSL the AES128_* wrappers are verified inline down to EVP_*
def cfgs(P=PS, I=IMPLS, G=GENS, **k): return [Cfg(p, i, g, **k) for g in G for i in I for p in P]
MULMEM = {640: (1.0, 10), 976: (1.8, 20), 1344: (3.4, 40)}
def muls(cs, which=('as', 'sa'), **k): return [Job(c, 'h_mul_' + w, repl(MULR, c), MULO, passes=MP, mem=MULMEM[c.P][0], cost=MULMEM[c.P][1] + (w == 'sa'), **k) for c in cs for w in which]
def small(cs, entries, **k): return [Job(c, e, passes=MP if e in ('h_mul_bs', 'h_mul_sb') else None, **k) for c in cs for e in entries]
def kem(cs, entries, **k): return [Job(c, e, repl(KEMR, c), KEMO, cost=5, mem=1.0, **k) for c in cs for e in entries]
# configurations for code that does not depend on the parameter set
def prim(G=GENS): return [Cfg(640, i, g) for g in G for i in IMPLS]
def shake_used(x4=True):
    r = []
    for c in prim(('SHAKE',)):
        r += [Job(c, 'h_keccakf', cost=2), Job(c, 'h_keccak4x', cost=8)] if c.I == 'FAST' else [Job(c, 'h_keccakf', cost=2)]
        r += [Job(c, e, KP, ('keccakf',), cost=4) for e in ('h_shake128_used', 'h_shake256_used') + (('h_shake4x_used',) if c.I == 'FAST' else ())]
    return r
def shake_all():
    r = shake_used()
    for c in prim(('SHAKE',)):
        r += [Job(c, e, KP, ('keccakf',), cost=10, mem=0.6) for e in ('h_shake128_in', 'h_shake128_out', 'h_shake128_bound', 'h_shake256_in', 'h_shake256_out', 'h_shake256_bound', 'h_shake_sep') + (('h_shake4x_sweep',) if c.I == 'FAST' else ())]
    return r
def aes_low(sizes=('128',)):
    r = []
    for c in prim(('AES',)):
        r.append(Job(c, 'h_sbox'))
        for z in sizes:
            for v in ('c', 'ni') if c.I == 'FAST' else ('c',):
                r += [Job(c, e, cost=2) for e in ('h_aes%s_load_schedule_%s' % (z, v), 'h_aes%s_enc_%s' % (z, v), 'h_aes%s_enc_%s_ip' % (z, v))]
            r += [Job(c, e, cost=6) for e in ('h_AES%s_load_schedule' % z, 'h_AES%s_ECB_enc_sch' % z, 'h_AES%s_free_schedule' % z, 'h_aes%s_e2e' % z)]
            r.append(Job(c, 'h_AES%s_ECB_enc_sch_used' % z, ('aes%s_enc_c' % z, 'aes%s_enc_ni' % z), ('aes_blk',), cost=20, mem=2.6))
    return r
def rnd(): return [Job(Cfg(640, 'GEN', 'SHAKE'), e, ('open', 'read', 'delay'), flags=('--nohavoc',)) for e in ('h_random_all', 'h_random_used')]

ASM_CFG = ['compile-time configurations covered: {640,976,1344} x {REFERENCE,FAST_GENERIC,FAST(AVX2,AES-NI)} x {SHAKE128, AES128 standalone, AES128 OpenSSL} on x86-64; other platform defines are not built here']
ASM_RND = ['assumed contract: the operating system delivers the bytes read(2) reports']
ASM_EVP = ['assumed contract on the external dependency: OpenSSL EVP AES-128-ECB encrypts as FIPS 197 AES-128 when its calls succeed']
# the fixed harnesses that prove a contract instance (contract name, lengths or aliasing) at configuration c
U128 = {(16, 16), (20480, 17), (16, 9616), (32, 32), (20608, 17), (16, 9736), (1280, 18), (1952, 18), (2688, 18)}
U256 = {(16, 16), (31232, 25), (24, 15632), (48, 48), (31360, 25), (24, 15768), (43008, 33), (32, 21520), (64, 64), (43136, 33), (32, 21664)}
UECB = {16, 17, 31, 32, 33, 64, 80, 81, 122, 168, 255, 256, 257, 320, 488, 672}
def covered(name, a, c):
    NN = 8 * c.P; Q = 15 if c.P == 640 else 16; SEC = {640: 16, 976: 24, 1344: 32}[c.P]; MU = {640: 16, 976: 24, 1344: 32}[c.P]
    return {'pack': a in ((NN, Q), (64, Q)), 'unpack': a in ((NN, Q), (64, Q)), 'sample': a in ((NN,), (64,)), 'verify': a in ((NN,), (64,)), 'select': a == (SEC,), 'clear': a in ((2 * NN,), (128,), (SEC + 1,), (2 * SEC,), (MU,)),
            'add': a in ((0, 0), (0, 1)), 'sub': a in ((0, 0), (0, 1)), 'shake128': a in U128, 'shake256': a in U256, 'shake128_4x': a in ((1280, 18), (1952, 18), (2688, 18)), 'ecb128': a[0] <= 9 or a[0] in UECB or (a[0] in (51200, 119072, 225792) and len(a) > 1 and a[1] == 1)}.get(name, False)
FNOF = {'pack': 'frodo_pack', 'unpack': 'frodo_unpack', 'sample': 'frodo_sample_n', 'verify': 'ct_verify', 'select': 'ct_select', 'clear': 'clear_bytes', 'encode': 'frodo_key_encode', 'decode': 'frodo_key_decode', 'add': 'frodo_add', 'sub': 'frodo_sub', 'mul_bs': 'frodo_mul_bs', 'mul_sb': 'frodo_mul_add_sb_plus_e'}
def instances(R, done, style, names=None):
    """contract instances the callers rely on that no fixed harness proves: prove them against the body as well"""
    seen = set(); extra = []
    for j in done:
        for u in (j.res or {}).get('instances', []):
            name, *a = u.split(); a = tuple(map(int, a))
            if names is not None and name not in names: continue
            for c in [j.cfg] + j.also:
                c2 = Cfg(c.P, c.I, c.G, c.V, 1)
                if covered(name, a, c2) or (c2.key(), u) in seen: continue
                seen.add((c2.key(), u)); big = name == 'ecb128' and a[0] > 700
                rp, op = (KP, ('keccakf',)) if name.startswith('shake') else (('aes128_enc_c', 'aes128_enc_ni'), ('aes_blk',)) if name == 'ecb128' else ((), ())
                extra.append(Job(c2, 'hp_' + name, rp, op, flags=tuple(style.get('flags', ())) + ('--param', ','.join(map(str, a))), kinds=style.get('kinds', FUNC), mem=2.6 if big else 0.4, cost=10 if big else 3))
    if extra: R.log('instances', [j.name() for j in extra]); return R.runjobs(extra)
    return []
def withdeps(R, jobs, style=None, names=None, inline=False):
    """run; where a function-level harness is not applicable because the function is gone, its callers are verified with it inlined;
    where only a function-level contract fails (inline=True: the property speaks about the operations), the callers are verified against the function's body instead of its contract"""
    done = R.runjobs(jobs); gone = [j for j in jobs if getattr(j, 'status', '') == 'inapplicable' and j.bad]
    if gone:
        have = {(j.entry, j.cfg.key()) for j in jobs}
        extra = [j for j in kem(list({j.cfg.key(): j.cfg for j in gone}.values()), ('h_keypair', 'h_enc', 'h_dec'), **(style or {})) if (j.entry, j.cfg.key()) not in have]
        if extra: done += R.runjobs(extra)
    done += instances(R, done, style or {}, names)
    if inline: done = inlined(R, done)
    return done
def broken(j): return j.status in ('fail', 'unknown') or any(e['kind'] in j.kinds for e in j.res['events'])
def inlined(R, done):
    bad = {}
    for j in done:
        m = re.fullmatch(r'hp?_(\w+?)(_n|_c|_s|_t|_m|_alias)?', j.entry); f = m and FNOF.get(m.group(1))
        if f and broken(j): bad.setdefault(f, []).append(j)
    ops = [j for j in done if j.entry in KEM3]
    if not bad or not ops or any(broken(j) for j in ops): return done
    drop = {OPQ[f] for f in bad if OPQ.get(f) == 'sample'}; again = []
    if any(f.startswith('frodo_mul') for f in bad): return done
    cf = {c.key() for js in bad.values() for j in js for c in [j.cfg] + j.also}
    for j in ops:
        if any(c.key() in cf for c in [j.cfg] + j.also): again.append(Job(j.cfg, j.entry, tuple(r for r in j.replace if r not in bad), tuple(o for o in j.opaque if o not in drop), j.flags, j.passes, 2.0, 6, j.kinds))
    R.log('inlining', sorted(bad), [j.name() for j in again]); r2 = R.runjobs(again)
    if r2 and not any(broken(j) for j in r2):
        R.notes.append('the contracts of %s no longer describe their bodies; the operations were proved with these bodies inlined' % ', '.join(sorted(bad)))
        dead = {id(j) for js in bad.values() for j in js}; R.jobs = [j for j in R.jobs if id(j) not in dead]; return [j for j in done if id(j) not in dead] + r2
    return done + r2
def C01(R):
    cs = cfgs(); jobs = kem(cs, ['h_keypair']) + muls(cs, ['as']) + small(cs, ['h_pack_n', 'h_sample_n', 'h_clear_n', 'h_clear_s', 'h_clear_t']) + shake_used() + aes_low() + rnd()
    return R.finish(withdeps(R, jobs, inline=True), assumptions=ASM_CFG + ASM_RND + ASM_EVP)
def C02(R):
    cs = cfgs(); jobs = kem(cs, ['h_enc']) + muls(cs, ['sa']) + small(cs, ['h_pack_n', 'h_pack_c', 'h_unpack_n', 'h_sample_n', 'h_sample_c', 'h_mul_sb', 'h_encode', 'h_add', 'h_add_alias', 'h_clear_n', 'h_clear_c', 'h_clear_s', 'h_clear_t', 'h_clear_m']) + shake_used() + aes_low() + rnd()
    return R.finish(withdeps(R, jobs, inline=True), assumptions=ASM_CFG + ASM_RND + ASM_EVP)
def C03(R):
    cs = cfgs(); jobs = kem(cs, ['h_dec']) + muls(cs, ['sa']) + small(cs, ['h_unpack_n', 'h_unpack_c', 'h_sample_n', 'h_sample_c', 'h_mul_sb', 'h_mul_bs', 'h_encode', 'h_decode', 'h_add', 'h_add_alias', 'h_sub', 'h_sub_alias', 'h_verify_n', 'h_verify_c', 'h_select', 'h_clear_n', 'h_clear_c', 'h_clear_s', 'h_clear_t', 'h_clear_m']) + shake_used() + aes_low()
    return R.finish(withdeps(R, jobs, inline=True), assumptions=ASM_CFG + ASM_EVP)
def lemma_lean(R):
    """the matrix identity behind C04, checked by the Lean kernel"""
    t = time.time(); r = sh(['lean', HERE + '/lean/Noise.lean'], cwd=R.tmp); out = r.stdout
    ok = r.returncode == 0 and 'sorry' not in out and "'noise' depends on axioms: [propext, Classical.choice, Quot.sound]" in out
    R.extra['lean'] = {'theorem': 'noise (lean/Noise.lean): W = M + (S\'E + E\'\' - E\'S) over ZMod q, every q and every dimension', 'accepted': ok, 'seconds': round(time.time() - t, 1), 'output': out[-400:]}
    return ok
def C04(R):
    cs = cfgs(); rt = [Job(c, 'h_roundtrip', repl(KEMR, c), KEMO, cost=8, mem=1.6, strict=KEMF) for c in cs]
    fn = muls(cs) + small(cs, SMALL + ['l_radius', 'l_packunpack_n', 'l_packunpack_c']) + shake_used() + aes_low()
    if not lemma_lean(R): print('the lemma lean/Noise.lean was not accepted:', R.extra['lean']['output']); R.evidence(); return 3
    done = withdeps(R, rt + fn)
    if any(broken(j) for j in done):
        # the ghost argument did not go through; exact conformance of the three operations implies the property as well
        keep = [j for j in done if j.entry != 'h_roundtrip']; have = {j.entry for j in keep}
        d2 = inlined(R, keep + (R.runjobs(kem(cs, KEM3)) if 'h_keypair' not in have else []))
        if not any(broken(j) for j in d2): R.jobs = [j for j in R.jobs if not broken(j)]; done = d2
    return R.finish(done, assumptions=ASM_CFG + ASM_EVP + ['lean/Noise.lean states the sums of contracts/spec.c (sp_as, sp_sa, sp_sb, sp_bs) over ZMod q; the correspondence of those loops with the Lean sums is by inspection'])
def C05(R): return R.finish(withdeps(R, small(cfgs(), ['h_pack_n', 'h_pack_c', 'h_unpack_n', 'h_unpack_c', 'l_packunpack_n', 'l_packunpack_c'])), assumptions=ASM_CFG)
def C06(R): return R.finish(withdeps(R, small(cfgs(), ['h_encode', 'h_decode', 'l_radius'])), assumptions=ASM_CFG)
def C07(R): return R.finish(withdeps(R, small(cfgs(), ['h_sample_n', 'h_sample_c'])), assumptions=ASM_CFG)
def C08(R): cs = cfgs(); return R.finish(withdeps(R, muls(cs) + small(cs, ['h_mul_sb', 'h_mul_bs', 'h_add', 'h_add_alias', 'h_sub', 'h_sub_alias'])), assumptions=ASM_CFG + ASM_EVP)
def C09(R): cs = cfgs(); return R.finish(withdeps(R, muls(cs) + shake_used() + aes_low()), assumptions=ASM_CFG + ASM_EVP)
def C10(R): return R.finish(withdeps(R, shake_all()), assumptions=ASM_CFG)
def C11(R): return R.finish(withdeps(R, aes_low(('128', '256'))), assumptions=ASM_CFG)
def C15(R): return R.finish(withdeps(R, rnd()), assumptions=['assumed contracts, adversarial outcomes: open(2), read(2)'])

SMALL = ['h_pack_n', 'h_pack_c', 'h_unpack_n', 'h_unpack_c', 'h_sample_n', 'h_sample_c', 'h_verify_n', 'h_verify_c', 'h_select', 'h_clear_n', 'h_clear_c', 'h_clear_s', 'h_clear_t', 'h_clear_m', 'h_encode', 'h_decode', 'h_add', 'h_add_alias', 'h_sub', 'h_sub_alias', 'h_mul_bs', 'h_mul_sb']
KEM3 = ['h_keypair', 'h_enc', 'h_dec']
def shakes(flags, **k):
    r = []
    for c in prim(('SHAKE',)):
        r += [Job(c, e, flags=flags, cost=2, **k) for e in ['h_keccakf'] + (['h_keccak4x'] if c.I == 'FAST' else [])]
        r += [Job(c, e, KP, ('keccakf',), flags=flags, cost=8, **k) for e in ('h_shake128_used', 'h_shake256_used') + (('h_shake4x_used',) if c.I == 'FAST' else ())]
    return r
def aess(flags, **k):
    r = []
    for c in prim(('AES',)):
        for z in ('128', '256'):
            for v in ('c', 'ni') if c.I == 'FAST' else ('c',):
                r += [Job(c, e, flags=flags, **k) for e in ('h_aes%s_load_schedule_%s' % (z, v), 'h_aes%s_enc_%s' % (z, v), 'h_aes%s_enc_%s_ip' % (z, v))]
            r += [Job(c, e, flags=flags, **k) for e in ('h_AES%s_load_schedule' % z, 'h_AES%s_ECB_enc_sch' % z, 'h_AES%s_free_schedule' % z)]
            r.append(Job(c, 'h_AES%s_ECB_enc_sch_used' % z, ('aes%s_enc_c' % z, 'aes%s_enc_ni' % z), ('aes_blk',), flags=flags, cost=20, mem=2.6, **k))
    return r
def rel(jobs, **k):
    for j in jobs:
        for a, v in k.items(): setattr(j, a, v)
    return jobs
def mulsabs(cs, flags=('--abstract', '--noeq'), **k): return [Job(c, 'h_mul_' + w, repl(MULR, c), MULO, flags=flags, mem=0.3, cost=MULMEM[c.P][1], **k) for c in cs for w in ('as', 'sa')]
def escalate(R, jobs, kinds, style=None):
    """interval/label abstraction is conservative: where it reports something, decide with exact terms"""
    done = withdeps(R, jobs, style); again = []
    for j in list(done):
        if '--abstract' in j.flags and (j.status == 'unknown' or any(e['kind'] in kinds for e in j.res['events'])):
            done.remove(j); again.append(Job(j.cfg, j.entry, j.replace, j.opaque, tuple(f for f in j.flags if f != '--abstract'), MP if j.entry.startswith('h_mul') else j.passes, max(j.mem, 3.5), j.cost, j.kinds))
    if again: R.log('escalating', [j.name() for j in again]); done += R.runjobs(again)
    return done
def C12(R):
    F = ('--abstract', '--noeq'); cs = cfgs()
    jobs = kem(cs, KEM3, flags=F) + mulsabs(cs) + small(cs, SMALL, flags=F) + shakes(F) + aess(F)
    for j in jobs: j.kinds = CTK; j.passes = None
    return R.finish(escalate(R, jobs, CTK, {'flags': F, 'kinds': CTK}), assumptions=ASM_CFG, use_eq=False, confirm=False)
def C13(R):
    cs = cfgs(); F = ('--noeq',)
    jobs = kem(cs + cfgs(mis=0), KEM3, flags=F) + mulsabs(cs) + small(cs, SMALL, flags=F) + shakes(F) + aess(F) + [Job(j.cfg, j.entry, j.replace, flags=('--nohavoc',)) for j in rnd()]
    for j in jobs: j.kinds = SAFE; j.passes = None
    return R.finish(escalate(R, jobs, SAFE, {'flags': F, 'kinds': SAFE}), assumptions=ASM_CFG, confirm=False)
def C14(R):
    F = ('--abstract', '--noeq', '--residual'); jobs = kem(cfgs() + cfgs(V='O3') + cfgs(V='LTO'), KEM3, flags=F) + small(cfgs() + cfgs(V='O3'), ['h_clear_n', 'h_clear_c', 'h_clear_s', 'h_clear_t', 'h_clear_m'])
    for j in jobs:
        if j.entry in KEM3: j.kinds = {'residual'}; j.opaque += ('declassify',)
    return R.finish(withdeps(R, jobs, names={'clear'}), assumptions=ASM_CFG, confirm=False)
def C16(R):
    cs = cfgs(); F = ('--noeq',)
    jobs = kem(cs, KEM3, flags=F) + mulsabs(cs) + small(cs, SMALL, flags=F) + shakes(F) + aess(F) + rnd()
    for j in jobs: j.kinds = {'gwrite'}
    done = escalate(R, jobs, {'gwrite'}, {'flags': F, 'kinds': {'gwrite'}})
    # the property allows the once-opened handle of the random source: one static object no larger than a descriptor or FILE*, written by randombytes only
    for j in done:
        if j.entry.startswith('h_random'):
            names = {e['msg'] for e in j.res['events'] if e['kind'] == 'gwrite'}
            m = re.search(r'\((\d+) bytes\)', next(iter(names), ''))
            if len(names) == 1 and m and int(m.group(1)) <= 8: j.res['events'] = [e for e in j.res['events'] if e['kind'] != 'gwrite']; R.extra['exempt_static_object'] = sorted(names)
    return R.finish(done, assumptions=ASM_CFG, use_eq=False, confirm=False)
def C17(R):
    cs = cfgs(G=('AESO',)); jobs = mulsabs(cs)
    for j in jobs: j.kinds = FUNC - {'abort'}; j.opaque += ('evp_fail', 'evp_frame')
    return R.finish(withdeps(R, jobs), assumptions=ASM_CFG + ASM_EVP, confirm=False)
def port(vs):
    """the complete obligation set of the three operations, generated from the IR of another target"""
    jobs = []
    for v in vs:
        cs = cfgs(I=('GEN', 'REF'), G=('SHAKE', 'AES'), V=v)
        jobs += kem(cs, KEM3) + muls(cs) + small(cs, SMALL)
        for c in [Cfg(640, i, g, V=v) for g in ('SHAKE', 'AES') for i in ('GEN', 'REF')]:
            if c.G == 'SHAKE': jobs += [Job(c, 'h_keccakf', cost=2)] + [Job(c, e, KP, ('keccakf',), cost=4) for e in ('h_shake128_used', 'h_shake256_used')]
            else: jobs += [Job(c, e, cost=2) for e in ('h_aes128_load_schedule_c', 'h_aes128_enc_c', 'h_aes128_enc_c_ip', 'h_AES128_load_schedule', 'h_AES128_ECB_enc_sch', 'h_AES128_free_schedule')] + [Job(c, 'h_AES128_ECB_enc_sch_used', ('aes128_enc_c',), ('aes_blk',), cost=20, mem=2.6)]
    return jobs
def C18(R):
    vs = ('be64', 'le32') if R.tier == 'quick' else ('be64', 'le32', 'be32', 'ppc64')
    return R.finish(withdeps(R, port(vs), inline=True), assumptions=ASM_RND + ['targets examined: ' + ', '.join(' '.join(TARGETS[v]) for v in vs) + '; REFERENCE and FAST_GENERIC, SHAKE128 and standalone AES128'])
def C19(R):
    from pyfv.driver import C19 as f
    return f(R, REPO, NCPU)
TABLE = {k: v for k, v in list(globals().items()) if re.fullmatch(r'C\d\d', k)}
