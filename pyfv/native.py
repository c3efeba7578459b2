"""native.py FILE VECTORS.json   runs the real implementation on the vectors (real interpreter, real libraries);
prints one JSON object: the number compared and the first mismatch, if any"""
import sys, json, importlib.util, warnings, copy
warnings.simplefilter('ignore')
def main():
    sp = importlib.util.spec_from_file_location('frodokem', sys.argv[1]); m = importlib.util.module_from_spec(sp); n = 0
    data = json.load(open(sys.argv[2]))
    def bad(job, x, got, want): print(json.dumps({'compared': n, 'mismatch': {'job': job, 'input': x, 'got': got, 'want': want}})); sys.exit(0)
    def js(v):
        if isinstance(v, (bytes, bytearray)): return v.hex()
        if isinstance(v, (list, tuple)): return [js(x) for x in v]
        return int(v) if isinstance(v, (bool, int)) else repr(v)
    try: sp.loader.exec_module(m)
    except Exception as e: bad('import', {}, repr(e), 'module loads')
    for d in data:
        kind, nn, g = d['job'].split(':'); o = m.FrodoKEM('FrodoKEM-%s-%s' % (nn, g))
        for x, want in d['vectors']:
            n += 1; y = copy.deepcopy(x); H = bytes.fromhex
            try:
                if kind == 'encode': got = o.encode(H(x['k']))
                elif kind == 'decode': got = o.decode(y['K'])
                elif kind == 'pack': got = o.pack(y['C'])
                elif kind == 'unpack': got = o.unpack(H(x['b']), x['n1'], x['n2'])
                elif kind == 'sample': got = o.sample(x['r'])
                elif kind == 'smat': got = o.sample_matrix(y['r'], x['n1'], x['n2'])
                elif kind == 'gen': got = o.gen(H(x['seed'])); got = got if got == (o.genAES128 if g == 'AES' else o.genSHAKE128)(H(x['seed'])) else None
                else:
                    buf = bytearray(H(x.get('rnd', '')))
                    def rb(k): r = bytes(buf[:k]); assert len(r) == k; del buf[:k]; return r
                    o.randombytes = rb
                    got = o.kem_keygen() if kind == 'keygen' else o.kem_encaps(H(x['pk'])) if kind == 'encaps' else o.kem_decaps(H(x['sk']), H(x['ct']))
                got = js(got)
            except Exception as e: got = repr(e)
            if got != want: bad(d['job'], x, got, want)
            if y != x: bad(d['job'], x, 'argument modified', 'arguments unchanged')
    print(json.dumps({'compared': n, 'mismatch': None}))
main()
