#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed checks"""
import json, os
TECH = {
 'P01': ('proof', 'round-trip postconditions on the real block functions; own VC generator over the LLVM IR of /repo, obligations discharged by term normalisation for all keys, tweaks and blocks'),
 'P02': ('proof', 'functional postcondition (published cipher) on the real create/tweak/encrypt functions; own VC generator over the LLVM IR of /repo, obligations discharged by term normalisation and table algebra for all keys, tweaks and blocks'),
 'P06': ('proof', 'mode definitions as postconditions and state invariants of the real mode functions, over an uninterpreted block-cipher contract; induction over message length (loop rule) with obligations discharged by term normalisation and z3'),
 'P07': ('proof', 'MAC definitions as postconditions and state invariants of the real mac functions, over uninterpreted block-cipher and hash contracts; induction over message length (loop rule), obligations discharged by term normalisation and z3'),
 'P08': ('proof', 'EAX/EAX2 definitions as postconditions of the real ae functions over uninterpreted MAC and stream-cipher contracts, data pieces of arbitrary length handled as opaque values; obligations discharged by term normalisation'),
 'P10': ('proof', 'postconditions of kripto_pkcs7_add and kripto_pkcs7_rem on the real code for every block size 1..255, every remainder and every (symbolic, unbounded) length and room; own VC generator over LLVM IR, obligations discharged by z3'),
 'P11': ('proof', 'functional postcondition and loop invariant of kripto_memory_equals on the real code (loop rule, every length), and of kripto_mac_verify / kripto_ae_verify over its contract; own VC generator over LLVM IR, obligations discharged by z3'),
 'P13': ('proof', 'contract-based deductive verification (own VC generator over the LLVM IR of the real code, data values abstracted): every allocation failing in turn'),
 'P12': ('proof', 'contract-based deductive verification (own VC generator over the LLVM IR of the real code): information-flow postcondition on every freed object; loop rule for kripto_memory_wipe'),
 'P03': ('proof', 'contract-based deductive verification (own VC generator over the LLVM IR of the real code): noninterference of the earlier life and equality of the re-created state with a fresh one, per kind of object'),
 'P14': ('proof', 'contract-based deductive verification (own VC generator over the LLVM IR of the real code, data values abstracted): bounds, liveness, initialisation, overflow and shift obligations at every instruction; sanitizer runs as bounded complement'),
 'P04': ('proof', 'contract-based deductive verification of the real code: VC generator over LLVM IR compiled from /repo on every run; each compression function is proved against its published definition for an arbitrary object and block, then used as a contract in inductive fold proofs of input/finish/output over arbitrary lengths and splits; obligations discharged by z3/cvc5 and term normalisation'),
 'P09': ('proof', 'contract-based deductive verification of the real code: kripto_pbkdf2 verified against the MAC contract with a loop invariant over the iteration loop (every iteration count, password and salt of any length); scrypt verified by contracts of its core, BlockMix and ROMix over uninterpreted callees; VCs discharged by term normalisation and z3'),
 'P05': ('proof', 'contract-based deductive verification of the real code: inductive fold over an invariant of each stream object (position, counter, block, key id) from arbitrary states and calls of every length by a loop rule; Threefish and Keccak replaced by their contracts; ChaCha/Salsa20 cores and the RC4 generator verified against their definitions in place; VCs discharged by term normalisation and z3'),
}
NOTE = {
 'P01': 'For all blocks, keys and tweaks: every obligation is discharged for every key length (1..max) of 40+ ciphers at the default round count and for listed other counts. Trusts the VC generator (kv/), clang\'s lowering to LLVM IR, and LP64 little-endian semantics.',
 'P02': 'Equality with an executable specification for all keys, tweaks and blocks, per key length and round count; the quick tier proves a subset of the key lengths of the long-key ciphers, the thorough tier all of them. Trusts kv/ and the specifications in kv/spec, which are checked against published vectors.',
 'P06': 'For every key, IV, data, message length and split into calls, encryption, decryption and key stream equal the definition of the mode over any block cipher (uninterpreted E, D with D inverse of E), for the block sizes in the library. Trusts kv/ and the definitions in kv/spec/modes.py.',
 'P07': 'HMAC over any hash, OMAC and XCBC over any block cipher: tags equal the definition for all keys, messages of every length and splits, for the listed block sizes (OMAC polynomial for every block size 1..255). Trusts kv/ and kv/spec/macs.py.',
 'P08': 'EAX and EAX2: ciphertext, plaintext and tag equal the definition for data of every length in any order of calls, all nonce, key and tag lengths of the listed primitive sizes. Trusts kv/ and the contracts of CTR/OMAC (P06, P07).',
 'P10': 'Every block size, every length below 2^62, every amount of room: bytes written, bytes left alone, returned length; inverse lemma. Trusts kv/.',
 'P11': 'kripto_memory_equals for every length by a loop invariant; verification for every tag length 1..128 and 255 over the contracts of the comparison and of an arbitrary MAC or AE. Branch and address independence stated over the source program. Trusts kv/.',
 'P13': 'allocation failures, leaks, double frees',
 'P12': 'wiping of freed heap memory',
 'P03': 'recreate functions of every object',
 'P14': 'memory safety of every object',
 'P04': 'compression functions, constructors, input/finish/output and one-call forms proved for all inputs; other round counts (SHA-512 beyond 80 rounds) and hashlib comparisons are bounded/native stand-ins labelled so',
 'P09': 'iteration loop: all counts; output blocks, r and N enumerated; larger costs compared natively with OpenSSL (labelled bounded)',
 'P05': 'every state and every call length for ChaCha, Salsa20, RC4 generator and Skein; Keccak streams for calls up to 200 bytes from any state; RC4 key schedule and long streams compared natively (labelled bounded)',
}
NA = {'P15': 'floating-point statistics (entropy, chi-square, correlation through log2/sqrt) against ad-hoc thresholds: no deductive back end here reasons about libm doubles, and no published definition fixes the result'}
def main():
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
    props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': []}
    for p in props:
        if p in TECH:
            m['checks'].append({'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
                                'technique': TECH[p][1], 'level': TECH[p][0], 'level_note': NOTE[p]})
        else:
            m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'check not built yet')})
    json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
main()
