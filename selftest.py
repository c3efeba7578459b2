#!/usr/bin/env python3
"""Validates the specification itself (not the repository): the C specification functions of contracts/spec.c,
compiled natively, against the independently written pyfv/spec.py running on hashlib and the OpenSSL command.
usage: selftest.py [SEED]   run with /opt/veriftools/pyvenv/bin/python (numpy)"""
import sys, os, ctypes, random, subprocess, tempfile, shutil, hashlib
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H + '/pyfv')
import spec, vecs
def buf(b): return (ctypes.c_uint8 * len(b)).from_buffer_copy(bytes(b))
def main():
    R = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1); t = tempfile.mkdtemp(prefix='fv_selftest_'); n = 0
    try:
        for P in (640, 976, 1344):
            for G in ('AES', 'SHAKE'):
                so = '%s/s%d%s.so' % (t, P, G)
                subprocess.run(['clang-18', '-O2', '-w', '-shared', '-fPIC', '-DP=%d' % P, '-DGEN_' + G, '-I' + H + '/contracts', '-o', so, H + '/contracts/spec.c', H + '/native/native.c', '-ldl'], check=True)
                L = ctypes.CDLL(so, mode=os.RTLD_LAZY); S = spec.Spec(P, G, vecs.Conc()); rb = lambda k: bytes(R.randrange(256) for _ in range(k)); D = S.D
                for rate, f in ((168, hashlib.shake_128), (136, hashlib.shake_256)):
                    for il in (0, 1, rate - 1, rate, rate + 1, 500):
                        for ol in (1, rate, rate + 1, 700):
                            m = rb(il); o = buf(bytes(ol)); L.sp_shake(rate, o, ctypes.c_size_t(ol), buf(m or b'\0'), ctypes.c_size_t(il)); assert bytes(o) == f(m).digest(ol); n += 1
                for _ in range(20):
                    k, m = rb(16), rb(16); o = buf(bytes(16)); L.sp_aes128(buf(k), buf(m), o); assert bytes(o) == subprocess.run(['openssl', 'enc', '-aes-128-ecb', '-nopad', '-K', k.hex()], input=m, capture_output=True, check=True).stdout; n += 1
                L.sp_sample1.restype = ctypes.c_uint16
                for r in range(65536): assert L.sp_sample1(r) == S.sample(r) % 65536; n += 1
                x = rb(S.ls + S.lse + 16); pk, sk = S.keygen(list(x)); a, b = buf(bytes(len(pk))), buf(bytes(len(sk))); L.sp_keypair(a, b, buf(x)); assert (bytes(a), bytes(b)) == (bytes(pk), bytes(sk)); n += 1
                mu = rb(S.lmu); ct, ss = S.encaps(pk, list(mu)); c, s = buf(bytes(len(ct))), buf(bytes(len(ss))); L.sp_encaps(c, s, buf(pk), buf(mu)); assert (bytes(c), bytes(s)) == (bytes(ct), bytes(ss)); n += 1
                l = [ct] + [[v ^ (j == p) for j, v in enumerate(ct)] for p in (0, D * P - 1, D * P, len(ct) - 1)]
                for c in l: s = buf(bytes(S.lk)); L.sp_decaps(s, buf(c), buf(sk)); assert bytes(s) == bytes(S.decaps(sk, c)); n += 1
                assert bytes(S.decaps(sk, ct)) == bytes(ss)
                print('specification %d %s: C and Python specifications agree' % (P, G), flush=True)
    finally: shutil.rmtree(t, ignore_errors=True)
    print('selftest: %d comparisons, all equal' % n)
main()
