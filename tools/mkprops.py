#!/usr/bin/env python3
"""writes properties.jsonl"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    a.update(kw)
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

B = ['lib/block.c', 'lib/block/*.c']
p('P01', 'Block cipher decryption inverts encryption',
  'For every block cipher, every key of every supported length, every tweak and every block, decrypting the encryption of a block gives the block back. This holds for separate input and output buffers and for one buffer used as both.',
  ['inputs', 'configurations'], 'all blocks, keys, key lengths 1..maximum, tweaks and tweak lengths; the default round count and supported reduced counts',
  'The tests encrypt and decrypt a few known vectors per cipher; a decryption wrong for other key lengths, keys, tweaks or data (carries, zero operands of a multiplication, odd key halves) passes them.',
  B, [('encrypt/decrypt pairs and their key schedules', 'lib/block/*.c'), ('dispatch', 'lib/block.c')],
  observe_at=['kripto_block_encrypt', 'kripto_block_decrypt'])
p('P02', 'Block ciphers compute the published algorithm',
  'For every block cipher and every key of every supported length, the ciphertext of every block is the one the published algorithm defines for that key (short keys extended as documented for the cipher), at the default and at supported non-default round counts. With a tweakable cipher this holds for every tweak.',
  ['inputs', 'configurations'], 'all blocks, keys, key lengths 1..maximum, tweaks; the default round count and selected others',
  'Known-answer tests fix a handful of points in a space of 2^128 and more, mostly at one key length; a wrong table entry, rotation or key word that those points do not reach passes.',
  B, [('key schedule (setup)', 'lib/block/*.c'), ('encrypt', 'lib/block/*.c'), ('S-box tables', 'lib/block/*.c')],
  observe_at=['kripto_block_encrypt'])
p('P03', 'Reusing an object equals creating a fresh one',
  'After an object of any kind (block, hash, MAC, stream, authenticated encryption) has been used in any way, recreating it with new parameters makes it behave exactly as an object freshly created with those parameters. Nothing of its earlier key, data, round count or position influences later output.',
  ['histories', 'inputs', 'configurations'], 'all prior states of the object, all new parameters of supported lengths',
  'Tests create each object once or recreate it with the same round count; stale fields, carried-over buffers and reallocation paths need two different configurations in sequence.',
  ['lib/block/*.c', 'lib/hash/*.c', 'lib/mac/*.c', 'lib/stream/*.c', 'lib/ae/*.c'],
  [('recreate functions', 'lib/*/*.c'), ('API recreate', 'lib/block.c lib/hash.c lib/mac.c lib/stream.c lib/ae.c')])
p('P04', 'Hashes equal their definition however the message is split',
  'For every hash function, output length, salt and message, the digest equals the published function applied to the whole message, whatever the lengths of the pieces in which the message is input and the output is read. The one-call form gives the same digest.',
  ['inputs', 'histories', 'configurations'], 'all messages, every split into pieces, all output lengths, salts of supported lengths',
  'Tests hash a few short messages in one call; buffering across block boundaries, messages ending at every offset of a block, length counters beyond 2^32 bits and untested variants are out of reach.',
  ['lib/hash.c', 'lib/hash/*.c'], [('input/output buffering and padding', 'lib/hash/*.c'), ('compression functions', 'lib/hash/*.c'), ('one-call forms', 'lib/hash/*.c')],
  observe_at=['kripto_hash_output', 'kripto_hash_all'])
p('P05', 'Stream ciphers produce the defined key stream at every position',
  'For every stream cipher, key and nonce, the key stream equals the one the published algorithm defines; encryption and decryption combine the data with it and the generator function returns it. The position advances by exactly the bytes consumed, so any split of the data into pieces gives the same result.',
  ['inputs', 'histories', 'configurations'], 'all keys, nonces, lengths, data and splits; counter positions including carries between counter words',
  'Tests use short streams read in one call; block counter carries, partial block positions and mixed call sizes are never reached.',
  ['lib/stream.c', 'lib/stream/chacha.c', 'lib/stream/salsa20.c', 'lib/stream/rc4.c', 'lib/stream/keccak.c', 'lib/stream/skein256.c'],
  [('key stream generation and position', 'lib/stream/*.c')])
p('P06', 'Cipher modes follow their definition over any block cipher',
  'CBC, CFB, OFB, CTR and ECB over any block cipher equal the standard definition of the mode applied to that cipher, for every key, initial value, data and length; counter mode increments the whole big-endian block. Decryption inverts encryption, and any split into pieces of allowed lengths gives the same result.',
  ['inputs', 'histories', 'configurations'], 'all block functions (uninterpreted), block sizes, initial values of every length up to a block, data and splits',
  'Only counter mode is tested, with one cipher and a few bytes; chaining across calls, counter carries and short initial values are not covered.',
  ['lib/stream/cbc.c', 'lib/stream/cfb.c', 'lib/stream/ofb.c', 'lib/stream/ctr.c', 'lib/stream/ecb.c'],
  [('chaining state and counter', 'lib/stream/{cbc,cfb,ofb,ctr,ecb}.c')])
p('P07', 'MAC tags equal their definition however the message is split',
  'HMAC over any hash and OMAC and XCBC over any block cipher, and the Keccak and Skein MACs, give the tag their definition assigns to the key and the whole message, for every key length, tag length and message, however the message is split into pieces. The one-call form gives the same tag.',
  ['inputs', 'histories', 'configurations'], 'all keys, messages, splits, tag lengths; underlying primitives uninterpreted for HMAC/OMAC/XCBC',
  'Tests check single-call tags of a few short messages; final-block selection, keys longer than a block, empty pieces and splits at block boundaries are not covered.',
  ['lib/mac.c', 'lib/mac/*.c'], [('key processing, buffering and final block', 'lib/mac/*.c')])
p('P08', 'EAX and EAX2 equal their definition and bind nonce, header and ciphertext',
  'EAX over any block cipher and its generalisation over any stream cipher and MAC produce the ciphertext and tag their definition assigns to key, nonce, header and plaintext, for all lengths and any split into pieces. Decryption returns the plaintext and the same tag for the same inputs.',
  ['inputs', 'histories', 'configurations'], 'all keys, nonces, headers, messages, splits and tag lengths; primitives uninterpreted',
  'Tests run a few one-call vectors of EAX; nonces of other lengths, separate pieces, headers interleaved with data and EAX2 are untested.',
  ['lib/ae.c', 'lib/ae/eax.c', 'lib/ae/eax2.c'], [('three tagged MACs and the key stream', 'lib/ae/eax.c lib/ae/eax2.c')])
p('P09', 'PBKDF2 and scrypt derive the defined key',
  'PBKDF2 over any MAC derives, for every password, salt, iteration count and output length, the bytes its definition gives; scrypt likewise for every valid cost, block size and parallelism. Only the requested bytes are written.',
  ['inputs', 'configurations'], 'all passwords, salts, output lengths, iteration counts, cost parameters; the MAC uninterpreted',
  'Tests check a few published vectors; output lengths spanning several blocks, large counters and other cost parameters are not covered.',
  ['lib/pbkdf2.c', 'lib/scrypt.c'], [('block counter and iteration loop', 'lib/pbkdf2.c'), ('smix/block mix/index', 'lib/scrypt.c')])
p('P10', 'PKCS7 padding is exact and invertible',
  'Padding a final block of any length appends between one byte and a full block of padding, each byte holding the padding length, and leaves the data unchanged; removing padding from a padded block returns exactly the data length. When the buffer has no room for the padding nothing is written and 0 is returned; a last byte that exceeds the buffer length is refused as padding and leaves the length unchanged.',
  ['inputs', 'configurations'], 'all block sizes 1..255 and all final blocks and lengths',
  'There are no tests of the padding functions.',
  ['lib/pkcs7.c'], [('pad/unpad', 'lib/pkcs7.c')])
p('P11', 'Tag and memory comparison accept exactly equal bytes',
  'The constant-time comparison reports equality exactly when all compared bytes are equal, and MAC and authenticated-encryption verification accepts exactly the tags equal to the computed one in every byte. No memory address or branch of the comparison depends on the compared bytes.',
  ['inputs', 'configurations'], 'all byte strings and lengths',
  'No test supplies a wrong tag; a comparison that ignores some bit, byte or length accepts all the correct tags tests use.',
  ['lib/memory.c', 'lib/mac.c', 'lib/ae.c'], [('kripto_memory_equals', 'lib/memory.c'), ('verify', 'lib/mac.c lib/ae.c')])
p('P12', 'Secrets are wiped before their memory is released',
  'Whenever an object is destroyed or recreated, or a one-call function returns, every heap byte that held key material or data-dependent state has been overwritten before the memory is freed. The memory-wiping function overwrites exactly the bytes it is given.',
  ['histories', 'inputs', 'configurations', 'fault_sequences'], 'all kinds of objects, keys and lengths, all destroy and recreate paths including failed ones',
  'Output-based tests cannot see freed memory.',
  ['lib/memory.c', 'lib/*/*.c', 'lib/*.c'], [('kripto_memory_wipe before free', 'lib/*/*.c')])
p('P13', 'A failed allocation gives a clean failure',
  'If any memory allocation made by any function fails, the function reports failure without crashing, without touching freed memory and without leaking any other allocation. Without a failure, destroying an object releases everything creating it allocated.',
  ['fault_sequences', 'configurations'], 'every allocation of every create, recreate, descriptor and one-call function failing in turn',
  'Allocations never fail in the tests.',
  ['lib/*.c', 'lib/*/*.c'], [('error paths after malloc', 'lib/*.c lib/*/*.c')])
p('P14', 'Memory safety and exact output regions',
  'For all parameters within the documented limits, no function reads or writes outside the buffers and objects it was given or allocated, reads uninitialised memory, divides by zero or depends on signed overflow or out-of-range shifts. Only the requested output bytes are written, and inputs are left unchanged unless they are the output.',
  ['inputs', 'histories', 'configurations'], 'all inputs, key, nonce, salt, tag and output lengths up to the limits, supported round counts',
  'Tests run with valid common lengths and without sanitizers; an overread by a byte or an overrun at an unusual length is invisible.',
  ['lib/*.c', 'lib/*/*.c'], [('buffer arithmetic', 'lib/*.c lib/*/*.c')])
p('P15', 'The randomness self-test judges samples by their statistics',
  'The built-in randomness test reads one sample from the system generator and reports failure exactly when one of its statistics leaves the interval set for it. A sample that cannot be read in full is a failure.',
  ['inputs'], 'all samples of the tested size', 'There is no test of the test function.',
  ['lib/random.c'], [('kripto_random_test', 'lib/random.c')])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
