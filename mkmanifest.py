#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the property table (run by hand after changing the claims)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
T = 'contract-based deductive verification: harness contracts on the real functions, obligations generated from their LLVM IR by engine/fv and discharged by term normalisation and SMT'
NOTE = {
 'C01': 'all inputs, all 27 build configurations; callees by contract, each contract proved against its body in the same run; randombytes and OpenSSL EVP contracts assumed below open/read/EVP',
 'C02': 'as C01', 'C03': 'as C01; every ciphertext and secret-key byte string',
 'C05': 'pack/unpack at every length used, all contents; round-trip lemmas', 'C06': 'all 64 entries symbolic; decoding-radius lemma',
 'C07': 'every input value; table compared with the published one', 'C08': 'polynomial identities mod 2^16 over all entries', 'C09': 'A is read off the proved products: every seed, every (i,j)',
 'C10': 'permutation on all states; sponge for every length used and a sweep over block boundaries (lengths are enumerated: that part is per length, contents symbolic)',
 'C11': 'all keys and blocks; number of blocks: those used and a sweep', 'C12': 'label analysis of every executed branch, address and division on the unoptimised IR; machine code not examined',
 'C13': 'every memory access, shift and signed operation on every path of the IR; alignment for both parities of caller buffers',
 'C14': "stack arrays of the three operations at -O0, -O3 and link-time optimised; registers, spills and callees' temporaries excluded",
 'C15': 'open/read outcomes adversarial; all outcome sequences for the request lengths used',
 'C16': 'no obligation-bearing write to static storage; results proved functions of the inputs from havocked static state',
 'C17': 'OpenSSL calls return success or failure arbitrarily; every path', 'C18': 'the C01-C03 obligations regenerated from IR of big-endian and 32-bit targets'}
NOTE['C04'] = 'the whole history keypair, encaps, decaps is executed symbolically against the callee contracts with ghost state carrying the matrix identity (lean/Noise.lean, checked by the Lean kernel) and the decoding-radius lemma; all parameter sets, generators and implementations'
NOTE['C19'] = 'the real Python source executed by CPython on symbolic operands and compared term by term with the specification functions; bitstring, struct, secrets, cryptography by assumed contract; a function the verifier cannot read is compared on concrete inputs and labelled bounded'
TP = 'contract-based deductive verification of the Python source: specification contracts per method, obligations generated by symbolic execution of the real code (pyfv) and discharged by exact tables and normal forms'
NA = {}
import sys
checks = [{'property': k, 'quick_cmd': 'python3 check.py %s quick' % k, 'thorough_cmd': 'python3 check.py %s thorough' % k, 'evidence_file': 'evidence/%s.json' % k, 'technique': TP if k == 'C19' else T, 'level': 'proof', 'level_note': v} for k, v in sorted(NOTE.items())]
json.dump({'version': 1, 'setup_cmd': 'make -C engine', 'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()]}, open(H + '/MANIFEST.json', 'w'), indent=1)
