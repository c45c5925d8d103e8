#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)

prop('C01', 'A digest depends only on the bytes absorbed, and equals the standard',
  'For every digest algorithm, every message and every way of absorbing it (any split into updates, including empty ones, copying or duplicating a context midway, re-initialising a used context, one-shot, provider or default entry), the digest returned is the one the algorithm\'s standard defines for the concatenated message; for extendable-output functions successive squeezes return consecutive parts of that one output stream. A call made in the wrong state or with too small a buffer fails and never writes past the buffer.',
  ['inputs', 'histories'], 'all messages (also past 2^32 bits), all update/copy/dup/init/squeeze histories, all 14 digest algorithms',
  'The suites replay fixed vectors with one or two chunkings; the value must be right for every length relative to the block and SIMD stride, every buffered remainder and every context history.',
  ['crypto/eal/src/eal_md.c', 'crypto/sha2/src', 'crypto/sha1/src', 'crypto/sha3/src', 'crypto/sm3/src', 'crypto/md5/src', 'crypto/blake2/src'],
  [('EAL digest state machine', 'crypto/eal/src/eal_md.c'), ('partial-block buffering and length counters', 'crypto/*/src/*.c'), ('assembly compression functions', 'crypto/*/src/asm')],
  observe=['CRYPT_EAL_MdFinal', 'CRYPT_EAL_MdSqueeze', 'CRYPT_EAL_Md'])

prop('C02', 'A MAC depends only on key and message bytes, and equals the standard',
  'For every MAC algorithm (HMAC over all digests, CMAC, CBC-MAC, GMAC, SipHash), every key, parameter and message, and every history of init, update, re-init and duplication, the tag is the one the standard defines for that key and the concatenated message. Two messages or keys that differ never share state through a reused or duplicated context.',
  ['inputs', 'histories'], 'all key lengths (shorter than, equal to, longer than the block), messages, chunkings, and init/update/final/reinit/dup/deinit histories',
  'Vectors fix a few key lengths and chunkings; key-block handling, sub-key reuse after reinit and cached last blocks depend on lengths and histories that are not sampled.',
  ['crypto/eal/src/eal_mac.c', 'crypto/hmac/src', 'crypto/cmac/src', 'crypto/gmac/src', 'crypto/siphash/src'],
  [('EAL MAC state machine', 'crypto/eal/src/eal_mac.c'), ('HMAC inner/outer contexts', 'crypto/hmac/src/hmac.c'), ('CMAC last-block handling', 'crypto/cmac/src')],
  observe=['CRYPT_EAL_MacFinal'])

prop('C03', 'Unauthenticated cipher modes compute the standard function, invertibly',
  'For every block/stream mode without authentication (ECB, CBC, CTR, CFB, OFB, XTS, HCTR for AES and SM4, ChaCha20, AES key wrap with and without padding), every key, IV, message and padding setting, and every split into updates, encryption yields the ciphertext the standard defines and decryption of it returns exactly the message. Processing in place equals processing into a separate buffer, no byte beyond the reported length is written, and key-unwrap or unpadding of data that was not produced by wrap or padding is rejected.',
  ['inputs', 'histories'], 'all keys, IVs (counters about to wrap), lengths, chunk splits, padding modes, reinit/dup histories',
  'Test vectors use fixed lengths; the assembly processes blocks in strides with separate tails, and counter carry, ciphertext stealing, buffered remainders and padding each go wrong only for particular lengths, IVs or splits.',
  ['crypto/eal/src/eal_cipher.c', 'crypto/modes/src', 'crypto/aes/src', 'crypto/sm4/src', 'crypto/chacha20/src'],
  [('mode implementations with partial-block caches', 'crypto/modes/src'), ('padding', 'crypto/modes/src/modes.c'), ('assembly stride loops', 'crypto/modes/src/asm, crypto/aes/src/asm, crypto/sm4/src/asm')],
  observe=['CRYPT_EAL_CipherUpdate', 'CRYPT_EAL_CipherFinal'])

prop('C04', 'AEAD encrypts as the standard says and never accepts a modified message',
  'For AES-GCM, SM4-GCM, AES-CCM, SM4-CCM and ChaCha20-Poly1305, every key, nonce length, tag length, associated data and message, in any split into updates, ciphertext and tag are those of the standard and decryption returns the message with the same tag. Decrypting after any change to ciphertext, associated data, nonce, key or tag yields a different tag, so verification fails.',
  ['inputs', 'histories'], 'all keys, nonces of any supported length, AAD and message lengths, tag lengths, chunk splits, every single-byte modification, context reuse after reinit',
  'Vectors fix lengths and mostly one-shot use; GHASH/Poly1305 buffering, counter wrap of the 32-bit GCM counter, length blocks and long non-96-bit nonces only fail for specific shapes.',
  ['crypto/modes/src/modes_gcm.c', 'crypto/modes/src/modes_ccm.c', 'crypto/modes/src/modes_chacha20poly1305.c', 'crypto/eal/src/eal_cipher.c'],
  [('GHASH and counter handling', 'crypto/modes/src/modes_gcm.c, crypto/modes/src/ghash*.c'), ('CCM formatting', 'crypto/modes/src/modes_ccm.c'), ('Poly1305 buffering', 'crypto/modes/src/modes_chacha20poly1305.c')],
  observe=['CRYPT_EAL_CipherUpdate', 'CRYPT_EAL_CipherCtrl(GET_TAG)'])

prop('C05', 'Key derivation functions compute the standard function for all inputs',
  'HKDF (extract, expand, both), PBKDF2, scrypt and the TLS 1.2 PRF return exactly the standard\'s output for every digest, secret, salt, info/label/seed, iteration count, cost parameter and requested length, regardless of the order in which parameters are set and of earlier use of the context. A requested length or cost outside the standard\'s limits is refused.',
  ['inputs', 'histories'], 'all parameter values and lengths including empty ones, all output lengths, repeated derivation and parameter re-setting on one context',
  'Only published vectors are tested; block boundaries of the output length, empty salt/info and context reuse are unsampled.',
  ['crypto/hkdf/src', 'crypto/pbkdf2/src', 'crypto/scrypt/src', 'crypto/kdf/src', 'crypto/eal/src/eal_kdf.c'],
  [('KDF contexts and parameter setters', 'crypto/*/src')], observe=['CRYPT_EAL_KdfDerive'])

prop('C06', 'DRBG output follows SP 800-90A for every history and entropy behaviour',
  'For every supported DRBG (hash, HMAC, CTR with and without derivation function, SM3/SM4 variants) the bytes produced over any history of instantiate, generate (with or without additional input) and reseed are those the SP 800-90A construction defines for the entropy, nonce and personalisation it received. Entropy is requested again when the reseed interval is used up; when the entropy source fails or delivers too little the call fails and no output is produced.',
  ['inputs', 'histories', 'fault_sequences'], 'all op histories, request lengths (also above the per-request limit), additional inputs, reseed intervals, entropy failures at any request',
  'CAVS-style vectors exercise one instantiate/reseed/generate/generate pattern; counters, interval-triggered reseeding, long requests and failing entropy depend on the history.',
  ['crypto/drbg/src', 'crypto/eal/src/eal_drbg.c', 'crypto/eal/src/eal_rand.c'],
  [('state update and reseed counter', 'crypto/drbg/src/drbg.c'), ('per-mechanism generate/update', 'crypto/drbg/src/drbg_ctr.c, drbg_hash.c, drbg_hmac.c')], observe=['CRYPT_EAL_DrbgbytesWithAdin', 'seed callbacks'])

prop('C07', 'Big-number arithmetic agrees with integer arithmetic',
  'Every big-number operation (add, subtract, multiply, square, divide, modulo, shifts, bit operations, comparison, gcd, modular inverse, modular add/sub/mul/square/exponentiation, Montgomery exponentiation, square root mod p, Kronecker/primality tests, binary/hex/decimal conversion) returns the mathematically exact result for all operands and signs, also when outputs alias inputs. Invalid operations (division by zero, no inverse, even or zero Montgomery modulus) are reported as errors.',
  ['inputs'], 'all operand sizes and limb patterns (all-ones, zero limbs, powers of two, near-modulus), signs, aliasing patterns',
  'Carry and quotient-correction bugs occur for a vanishing fraction of operands; the suites use fixed values.',
  ['crypto/bn/src'], [('limb primitives (C and assembly)', 'crypto/bn/src/bn_bincal.c, crypto/bn/src/asm'), ('division and Montgomery', 'crypto/bn/src/bn_operation.c, bn_mont.c')], observe=['BN_* results'])

prop('C08', 'ECDSA/ECDH on every prime curve agree with the curve mathematics',
  'On every supported prime curve (NIST P-192..P-521, Brainpool) derived public keys, shared secrets and signatures are those of the standard for every valid scalar, point encoding and digest; signatures it makes verify elsewhere, and signatures made elsewhere verify here. Points not on the curve, the point at infinity, scalars outside [1,n-1], and signatures with r or s out of range or altered in any bit are rejected.',
  ['inputs'], 'all curves, private scalars (0, 1, n-1, n, sparse, dense), valid and invalid points in compressed/uncompressed/hybrid form, digests of any length, every signature mutation',
  'Field arithmetic and scalar recoding errors hit rare scalars or limb patterns; tests sample a handful of vectors per curve.',
  ['crypto/ecc/src', 'crypto/ecdsa/src', 'crypto/ecdh/src', 'crypto/eal/src/eal_pkey_sign.c'],
  [('curve arithmetic', 'crypto/ecc/src'), ('point decoding and validation', 'crypto/ecc/src/ecc_point.c'), ('signature DER and range checks', 'crypto/ecdsa/src')],
  observe=['CRYPT_EAL_PkeySign', 'CRYPT_EAL_PkeyVerify', 'CRYPT_EAL_PkeyComputeShareKey', 'CRYPT_EAL_PkeySetPub'])

prop('C09', 'X25519 and Ed25519 agree with RFC 7748 / RFC 8032',
  'For every 32-byte scalar and u-coordinate X25519 returns the RFC 7748 result (non-canonical coordinates included) and refuses an all-zero shared secret; Ed25519 public keys and signatures are the RFC 8032 ones for every seed and message, valid signatures verify, and any signature, message or key alteration, or an S not reduced modulo the group order, is rejected.',
  ['inputs'], 'all scalars, u-coordinates (small-order, non-canonical), seeds, messages, signature alterations incl. S+L',
  'Only RFC vectors and a few random keys are tested; limb carries and encodings near p need directed inputs.',
  ['crypto/curve25519/src'], [('field arithmetic', 'crypto/curve25519/src'), ('scalar reduction', 'crypto/curve25519/src')], observe=['CRYPT_EAL_PkeyComputeShareKey', 'CRYPT_EAL_PkeySign', 'CRYPT_EAL_PkeyVerify'])

prop('C10', 'RSA operations interoperate and reject anything not validly padded',
  'For every key size and public exponent, signatures (PKCS#1 v1.5, PSS with any hash, MGF and salt length) and ciphertexts (OAEP, PKCS#1 v1.5, raw) produced here are accepted by an independent implementation and vice versa; decryption returns exactly the plaintext. A signature or ciphertext altered in any byte, of wrong length, at or above the modulus, or with padding deviating in any way from the standard is rejected; blind-signature unblinding yields an ordinary valid signature.',
  ['inputs'], 'all padding parameters, digests, message lengths, label, salt lengths, signature/ciphertext corruptions, handcrafted encoded messages',
  'Padding checks must reject every malformed encoding; tests include few malformed encodings and fixed keys.',
  ['crypto/rsa/src'], [('padding encode/verify', 'crypto/rsa/src/rsa_padding.c'), ('private operation with CRT and blinding', 'crypto/rsa/src/rsa_encdec.c')], observe=['CRYPT_EAL_PkeyVerify', 'CRYPT_EAL_PkeyDecrypt'])

prop('C11', 'DSA, DH, ElGamal and Paillier compute the standard functions',
  'DSA signatures interoperate and altered or out-of-range signatures are rejected; DH shared secrets on every named group agree with an independent computation in both directions and public values outside [2,p-2] are refused; ElGamal and Paillier decrypt every valid plaintext they encrypted and Paillier adds homomorphically.',
  ['inputs'], 'all named DH groups, private values at range ends, public values 0,1,p-1,p,>p, DSA digests of any length, plaintexts at range ends, signature alterations',
  'Tests use fixed parameters and mid-range values; leading zero bytes in secrets and range-end values are unsampled.',
  ['crypto/dsa/src', 'crypto/dh/src', 'crypto/elgamal/src', 'crypto/paillier/src'], [('range checks and modular exponentiation', 'crypto/dh/src, crypto/dsa/src')], observe=['CRYPT_EAL_PkeyComputeShareKey', 'CRYPT_EAL_PkeyVerify', 'CRYPT_EAL_PkeyDecrypt'])

prop('C12', 'SM2 signing, encryption and key exchange follow GB/T 32918',
  'For every key, user id and message, SM2 signatures and ciphertexts interoperate with an independent implementation in both directions, and both sides of a key exchange derive the same key. A signature, ciphertext, message or user id altered in any way is rejected on verification or decryption.',
  ['inputs'], 'all keys, user ids (empty to long), message lengths, alterations of every component, both key-exchange roles',
  'Only standard vectors are tested; rare scalars, KDF all-zero cases, leading-zero coordinates and DER shapes are unsampled.',
  ['crypto/sm2/src', 'crypto/ecc/src/asm'], [('SM2 sign/verify/encrypt/exchange', 'crypto/sm2/src'), ('SM2 curve assembly', 'crypto/ecc/src')], observe=['CRYPT_EAL_PkeySign', 'CRYPT_EAL_PkeyVerify', 'CRYPT_EAL_PkeyEncrypt', 'CRYPT_EAL_PkeyDecrypt'])

prop('C13', 'SM9 identity-based operations follow the standard and reject alterations',
  'For every master key, identity, message and random value, SM9 master public keys, extracted user keys, signatures and ciphertexts are those of GB/T 38635; signatures verify under the identity and master public key alone (imported or not), and ciphertexts decrypt to the message with the identity\'s key. Extraction fails when H1(ID)+k is zero modulo the order; verification or decryption with a different identity, master key or message, or an altered (including non-canonically encoded) signature or ciphertext fails; master public keys off the curve are refused.',
  ['inputs'], 'all master keys, identities, messages, alterations',
  'A few vectors; pairing and field-extension arithmetic can be wrong for rare values only.',
  ['crypto/sm9/src'], [('pairing and extraction', 'crypto/sm9/src')], observe=['CRYPT_EAL_PkeySign', 'CRYPT_EAL_PkeyVerify', 'CRYPT_EAL_PkeyEncrypt', 'CRYPT_EAL_PkeyDecrypt'])

prop('C14', 'KEMs agree with their specification and fail implicitly',
  'For ML-KEM (all sizes), FrodoKEM/eFrodoKEM, Classic McEliece and the hybrid KEMs, decapsulating a ciphertext made for a key returns exactly the encapsulated secret for every key and randomness; ML-KEM keys, ciphertexts and secrets are bit-exact FIPS 203, and FrodoKEM/eFrodoKEM ones those of its specification. Decapsulating an altered ciphertext of right length never returns the original secret (for hybrid KEMs: when the ML-KEM part is altered) but the deterministic implicit-rejection value; ML-KEM encapsulation keys failing the modulus check and ciphertexts or keys of wrong length are refused.',
  ['inputs'], 'all parameter sets, seeds, encapsulation randomness, ciphertext alterations, malformed keys',
  'ML-KEM has fixed vectors, McEliece has no direct test here; compression rounding, reduction and rejection must hold for all coefficients.',
  ['crypto/mlkem/src', 'crypto/frodokem/src', 'crypto/mceliece/src', 'crypto/hybridkem/src'], [('NTT, compression, FO transform', 'crypto/mlkem/src'), ('FO transform', 'crypto/frodokem/src'), ('decoder', 'crypto/mceliece/src')], observe=['CRYPT_EAL_PkeyEncaps', 'CRYPT_EAL_PkeyDecaps'])

prop('C15', 'ML-DSA, SLH-DSA and composite signatures conform and reject alterations',
  'For every parameter set, seed, message and context string, ML-DSA and SLH-DSA public keys and (deterministic) signatures are bit-exact FIPS 204/205 in both pure and pre-hash modes, and composite signatures verify exactly when both components do. Any altered signature, message, context or key, a wrong-length signature, or a non-canonical hint encoding is rejected.',
  ['inputs'], 'all parameter sets, seeds, messages, context strings 0..255, pure/prehash/external-mu, deterministic and hedged signing, alterations',
  'ML-DSA and SLH-DSA have no direct tests in this tree; rejection-loop branches and hint edge cases are rare.',
  ['crypto/mldsa/src', 'crypto/hbs/slh_dsa', 'crypto/composite/src'], [('sign loop, hint packing', 'crypto/mldsa/src'), ('hypertree, FORS', 'crypto/hbs/slh_dsa'), ('component combination', 'crypto/composite/src')], observe=['CRYPT_EAL_PkeySign', 'CRYPT_EAL_PkeyVerify'])

prop('C16', 'Stateful hash-based keys never reuse a one-time index',
  'Over every history of signing, exporting and re-importing private state, duplicating and failing operations, XMSS and XMSS^MT keys issue strictly increasing one-time indices, every signature verifies under RFC 8391 rules, the private state can be exported at any point and continues where it stopped, and signing beyond the last index fails. XMSS, XMSS^MT and LMS/HSS verification accepts exactly the signatures RFC 8391 / RFC 8554 define; altered signatures, messages or keys are rejected.',
  ['histories', 'inputs', 'fault_sequences'], 'all parameter sets small enough to run, all sign/export/import histories incl. starting near exhaustion, RNG/alloc failures while signing, alterations',
  'Index reuse destroys security but is visible only across several operations on one key; tests sign once or twice.',
  ['crypto/hbs/xmss', 'crypto/hbs/common', 'crypto/hbs/lms', 'crypto/hbs/hss'], [('index update before signature release', 'crypto/hbs'), ('tree traversal state', 'crypto/hbs')], observe=['index field of signatures', 'CRYPT_EAL_PkeySign', 'CRYPT_EAL_PkeyGetPrv'])

prop('C17', 'HPKE sender and recipient agree exactly as RFC 9180 defines',
  'For every supported KEM, KDF, AEAD, mode (base, PSK, auth, auth-PSK), info, psk and key pair, the encapsulation, sealed messages and exported secrets are those of RFC 9180; messages opened in sequence return the plaintexts, and opening out of order, with altered ciphertext/aad/enc, or with a mismatched mode, info or psk fails. The sequence number never repeats a nonce and export works for any length up to the limit.',
  ['inputs', 'histories'], 'all suites and modes, seal/open/export histories, alterations, explicit sequence numbers',
  'RFC vectors only; schedule inputs (empty/long info, psk combos) and sequence handling over histories are unsampled.',
  ['crypto/hpke/src'], [('key schedule', 'crypto/hpke/src/hpke.c'), ('nonce computation', 'crypto/hpke/src/hpke.c')], observe=['CRYPT_EAL_HpkeSeal', 'CRYPT_EAL_HpkeOpen', 'CRYPT_EAL_HpkeExportSecret'])

prop('C18', 'Key encodings round-trip and mean the same to other implementations',
  'Any key of a supported type written in any supported format (SubjectPublicKeyInfo, PKCS#8 plain or encrypted, PKCS#1, SEC1; DER or PEM) reads back as the same key here and in an independent implementation, and a key written by the latter reads back here. Decoding arbitrary bytes never crashes or over-reads, truncated or wrong-password input yields no key, and a damaged encoding that is still readable means the same key as to the independent implementation.',
  ['inputs', 'configurations'], 'all key types, formats, encryption parameters and passwords, leading-zero integers, mutated encodings',
  'Tests load a fixed set of files; integer padding, optional fields, and mutated inputs need generation.',
  ['crypto/codecskey/src', 'codecs/src'], [('ASN.1 templates and PBES2', 'crypto/codecskey/src'), ('decoder chains', 'codecs/src')], observe=['CRYPT_EAL_EncodeBuffKey', 'CRYPT_EAL_DecodeBuffKey'])

prop('C19', 'The portable and the assembly builds compute the same functions',
  'Built without assembly, the library returns bit-for-bit the same digests, MACs, ciphertexts, big-number results, public keys, shared secrets and verification verdicts as the standards define - hence the same as the assembly build - for every input.',
  ['inputs', 'configurations'], 'all inputs of C01-C04, C07-C09, C12 in the assembly-free configuration',
  'The test suite runs only the x86-64 assembly build; the portable code paths are not compiled at all.',
  ['crypto/aes/src', 'crypto/sm4/src', 'crypto/sha2/src', 'crypto/sm3/src', 'crypto/bn/src', 'crypto/ecc/src', 'crypto/curve25519/src', 'crypto/modes/src'], [('noasm_* and generic implementations', 'crypto/*/src/noasm_*.c')], observe=['same as C01-C04, C07-C09'])

prop('C20', 'A failing random source makes randomised operations fail, never weaken',
  'Whenever the random source fails at any of the calls an operation makes (key generation, signing, encryption, encapsulation, key exchange), that operation reports an error, and it neither crashes nor leaks nor returns output built from missing randomness. After the source recovers the same objects work again.',
  ['fault_sequences'], 'every randomised public-key operation x failure at the k-th random request, one-off or permanent',
  'Tests never inject RNG failures at each request of each operation.',
  ['crypto/eal/src/eal_rand.c', 'crypto/util', 'crypto/*/src'], [('error propagation from CRYPT_Rand*', 'crypto/*/src')], observe=['return codes of CRYPT_EAL_Pkey*'])

prop('C21', 'Allocation failure anywhere is reported cleanly',
  'If any single memory allocation, or all allocations from some point on, fail during an API call sequence (crypto, key codec, PKI parsing/generation/verification, TLS setup and handshake), the call that needed memory reports failure, nothing crashes, no memory is leaked or freed twice, and objects that existed before remain usable and freeable.',
  ['fault_sequences'], 'all allocation indices of generated API scenarios, one-off and persistent failure',
  'Error paths behind each allocation are almost never executed by the suites.',
  ['bsl/sal/src/sal_mem.c', 'crypto', 'pki', 'tls'], [('NULL checks and goto-cleanup paths', 'whole library')], observe=['memory callbacks', 'return codes'])

prop('C22', 'Secret keys do not survive in released memory',
  'When a key, cipher, MAC, KDF, DRBG or key-schedule object holding a secret is freed or de-initialised, no heap block handed back to the allocator still contains that secret (raw key bytes, private scalar, passwords).',
  ['histories', 'inputs'], 'all secret-bearing objects, op histories before release, secrets of any size',
  'No test inspects freed memory.',
  ['bsl/sal/src/sal_mem.c', 'crypto/*/src'], [('BSL_SAL_CleanseData / ClearFree on release paths', 'crypto, pki, tls')], observe=['free callback'])

prop('C23', 'Concurrent use from several threads is race-free and gives the same results',
  'Threads using separate contexts, the shared default provider and global random generator, shared read-only keys and certificates (reference counting), and shared TLS configurations run without data races, deadlock or corruption and each gets the result of sequential execution; the error stack is per thread.',
  ['schedules', 'histories'], 'all interleavings of generated per-thread operation lists over shared and private objects',
  'The suites are single-threaded except for isolated cases.',
  ['crypto/provider/src', 'crypto/eal/src', 'bsl/err/src', 'bsl/sal/src', 'tls/config/src'], [('rwlocks, atomics, run-once', 'bsl/sal/src, crypto/provider/src/mgr')], observe=['ThreadSanitizer happens-before', 'results'])

prop('B01', 'Base64 and PEM encode/decode are exact inverses under any chunking',
  'Encoding any bytes yields RFC 4648 text (newline policy as selected) and decoding returns the same bytes, whether one-shot or streamed in any chunk sizes; decoding text that is not valid base64 (bad characters, bad padding, wrong length) is rejected. PEM framing round-trips any payload and label.',
  ['inputs', 'histories'], 'all byte strings and chunkings, whitespace placement, malformed texts',
  'Tests use fixed strings and few chunkings.', ['bsl/base64/src', 'bsl/pem/src'], [('streaming buffers', 'bsl/base64/src/bsl_base64.c')], observe=['BSL_BASE64_*', 'BSL_PEM_*'])
prop('B02', 'ASN.1 DER coding is exact, and decoding never leaves its input',
  'Encoding any value tree described by a template and decoding it returns the same values; integers, bit strings, times, OIDs and lengths use their unique DER form. Decoding any byte string never reads outside it, and it either fails or consumes exactly the reported number of bytes.',
  ['inputs'], 'all templates and values generated from a grammar, all lengths across encoding boundaries (127/128/255/256/65535), arbitrary and mutated bytes',
  'Fixed samples only; lengths at boundaries, nested optional fields and malformed lengths are unsampled.', ['bsl/asn1/src', 'bsl/tlv/src', 'bsl/obj/src'], [('template walker', 'bsl/asn1/src/bsl_asn1.c')], observe=['BSL_ASN1_*'])
prop('B03', 'Containers behave like their abstract models over any history',
  'The generic list and hash table return, after any sequence of insertions, deletions, searches, sorts, copies, iterations and clears, exactly what a mathematical sequence or map would, and free every element exactly once.',
  ['histories'], 'all operation sequences, colliding keys, duplicate keys, deletion during iteration as documented',
  'Tests run short scripted sequences.', ['bsl/list/src', 'bsl/hash/src'], [('node linking and counters', 'bsl/list/src, bsl/hash/src')], observe=['BSL_LIST_*', 'BSL_HASH_*'])
prop('B04', 'Time, string and conversion helpers are exact for all values',
  'Conversions between UTC seconds, broken-down dates and their text forms are mutually inverse and agree with the proleptic Gregorian calendar, date arithmetic and comparison are consistent with them, and string/number/IP-address/OID conversions accept exactly the well-formed texts and return their value.',
  ['inputs'], 'all valid dates incl. leap days, century years, end-of-range; all numbers; well-formed and malformed texts',
  'A handful of dates and strings are tested.', ['bsl/sal/src/sal_time.c', 'bsl/sal/src', 'bsl/obj/src', 'bsl/print/src'], [('calendar arithmetic', 'bsl/sal/src/sal_time.c')], observe=['BSL_SAL_*', 'BSL_OBJ_*'])
prop('B05', 'I/O abstraction delivers bytes exactly once and in order',
  'Bytes written to a memory, buffer or file UIO, directly or through a chain, are read back exactly once and in order for any interleaving of reads, writes, line reads, flushes, controls and short or would-block results of the underlying transport; nothing is lost, duplicated or invented.',
  ['histories', 'fault_sequences'], 'all op interleavings, sizes around buffer capacity, short writes and would-block injected by the lower layer',
  'Scripted sequences without partial I/O.', ['bsl/uio/src', 'bsl/buffer/src'], [('buffer offsets', 'bsl/uio/src/uio_buffer.c, uio_mem.c')], observe=['BSL_UIO_Read/Write/Gets/Puts/Ctrl'])
prop('B06', 'Error stack, parameter lists and configuration tables keep what is stored',
  'The per-thread error stack returns errors in the documented order with their location and honours marks and pops; parameter arrays return what was put in with the right type and length checks; the configuration parser returns the sections and values of any well-formed file and rejects malformed ones without crashing.',
  ['histories', 'inputs'], 'push/peek/mark/pop/clear histories, parameter values at type limits, generated config files',
  'Tests cover scripted sequences.', ['bsl/err/src', 'bsl/params/src', 'bsl/conf/src'], [('ring/stack indices', 'bsl/err/src'), ('section and key lists', 'bsl/conf/src')], observe=['BSL_ERR_*', 'BSL_PARAM_*', 'BSL_CONF_*'])

prop('P01', 'PKI parsers are total: any bytes are parsed or cleanly rejected',
  'Certificates, CRLs, CSRs, PKCS#12, CMS and key containers given as arbitrary or corrupted DER/PEM are either rejected or parsed, always within the input\'s bounds, without crash, hang, leak or undefined behaviour, and the same input always gives the same verdict. What was parsed re-encodes to the bytes that were parsed.',
  ['inputs'], 'arbitrary bytes, structure-aware mutations of valid objects of every kind',
  'Tests contain a limited set of malformed files.', ['pki', 'bsl/asn1/src', 'crypto/codecskey/src'], [('template-driven decode and field decoders', 'pki/*/src')], observe=['HITLS_X509_*Parse*', 'HITLS_PKCS12_Parse*', 'HITLS_CMS_*'])
prop('P02', 'Generated certificates, CSRs and CRLs carry exactly what was set',
  'A certificate, CSR or CRL built from any combination of subject/issuer names, validity, serial, keys, signature algorithm and extensions encodes to a structure that an independent parser reads with the same field values and whose signature verifies, and reading it back here returns the same values.',
  ['inputs', 'configurations'], 'all name attributes and string types, serials of any size, dates on both sides of 2050, all extension kinds and key/signature algorithms',
  'A few fixed combinations are tested.', ['pki/x509_cert/src', 'pki/x509_crl/src', 'pki/x509_csr/src', 'pki/x509_common/src'], [('encoders and setters', 'pki/*/src')], observe=['HITLS_X509_*Gen*', 'HITLS_X509_*Ctrl'])
prop('P03', 'Chain validation accepts exactly the chains the rules allow',
  'For any generated set of certificates, trust anchors, CRLs and verification parameters, verification succeeds only if a chain of valid signatures leads from the leaf to a configured trust anchor and every certificate is within its validity, every issuer is a CA permitted to sign with sufficient path length, key usage/purpose requirements hold, no unknown critical extension is present, and (when requested) no certificate is revoked; when all that holds it succeeds.',
  ['inputs', 'configurations'], 'generated certificate forests with single or multiple defects, flags, depths, times, CRL sets, intermediate order, cross-signed issuers',
  'Tests use fixed chains with one defect each.', ['pki/x509_verify/src', 'pki/x509_cert/src', 'pki/x509_crl/src'], [('path building and checks', 'pki/x509_verify/src/hitls_x509_verify.c')], observe=['HITLS_X509_CertVerify', 'HITLS_X509_CertChainBuild*'])
prop('P04', 'Certificate identity matching accepts exactly the covered names',
  'Host-name and IP matching against a certificate accepts a name if and only if it is covered by a subject alternative name (or by the common name where permitted): case-insensitively, wildcards standing for exactly one leftmost label as RFC 6125 allows, IP addresses by exact value, embedded NULs never truncating a name.',
  ['inputs', 'configurations'], 'generated names, patterns, wildcards, IPs, embedded NUL, mixed SAN types, flags',
  'Few fixed names are tested.', ['pki/x509_verify/src', 'pki/x509_cert/src'], [('name matcher', 'pki/x509_verify/src')], observe=['HITLS_X509_VerifyHostname and verify with HOST/IP set'])
prop('P05', 'PKCS#12 containers round-trip and detect wrong password or tampering',
  'Any set of key, certificates, attributes and secret bags stored with any supported MAC/encryption parameters and password is read back identically here and by an independent implementation. With a wrong password or any altered byte in authenticated content, reading fails.',
  ['inputs', 'configurations'], 'keys, certs, bag counts, attributes, passwords (empty, non-ASCII), iteration counts, algorithms, alterations',
  'A few files and passwords are tested.', ['pki/pkcs12/src', 'pki/cms/src'], [('MAC and bag codecs', 'pki/pkcs12/src')], observe=['HITLS_PKCS12_GenBuff/ParseBuff'])
prop('P06', 'CMS SignedData verifies exactly what was protected',
  'CMS SignedData produced for any content, signer set and attribute set (attached or detached) verifies here and in an independent implementation, and one produced by the latter verifies here; altering content, attributes, signature or signer makes verification fail.',
  ['inputs', 'configurations'], 'contents, detached/attached, signer algorithms, attributes, alterations, streaming chunk splits',
  'Fixed samples.', ['pki/cms/src'], [('signed attributes digesting', 'pki/cms/src')], observe=['HITLS_CMS_*'])

prop('T01', 'TLS peers that complete a handshake agree on everything',
  'Whenever client and server both report a completed handshake, for any pair of configurations and any scheduling of I/O, they hold the same version, cipher suite, group, signature scheme, ALPN, SNI, session and exported keying material, each parameter is one both sides enabled, and the highest mutually supported version is chosen. If no mutually acceptable parameter exists the handshake fails on both sides.',
  ['configurations', 'schedules', 'inputs'], 'generated pairs of configurations (versions, suites, groups, signature schemes, certificates, PSK, ALPN, SNI, client auth, EMS, tickets) over TLS 1.2/1.3, TLCP, DTLS',
  'Suites test chosen pairs; the cross product with preference orders is unsampled.', ['tls/handshake', 'tls/config/src', 'tls/feature', 'tls/cm/src'], [('negotiation in hello processing', 'tls/handshake/recv, tls/handshake/pack'), ('Finished verification', 'tls/handshake')], observe=['HITLS_Get* after handshake', 'HITLS_ExportKeyingMaterial'])
prop('T02', 'Application data arrives exactly once, in order, unaltered',
  'Over an established stream connection the bytes read by one side are always a prefix of the bytes successfully written by the other, and equal to them once drained, for any sizes and interleaving of reads and writes, any fragmentation, short I/O and would-block by the transport, key updates, renegotiation, record-size limits and padding.',
  ['schedules', 'histories', 'fault_sequences'], 'all read/write/peek/keyupdate/renegotiate interleavings, transport chunkings, suites and versions',
  'Tests exchange one or two messages over a perfect transport.', ['tls/record/src', 'tls/app/src', 'tls/cm/src'], [('record read/write buffers and retry state', 'tls/record/src'), ('pending-write resume', 'tls/app/src')], observe=['HITLS_Read', 'HITLS_Write', 'HITLS_Peek'])
prop('T03', 'No on-path modification goes unnoticed',
  'If the bytes exchanged on a stream connection are altered in transit in any way (bit flips, drops, duplications, reorderings, truncation, injected or replayed records) during or after the handshake, then no side ever delivers application data other than a prefix of what the peer wrote, both sides never complete with different views, and the receiver reports an error rather than silently continuing past altered protected data.',
  ['inputs', 'histories', 'fault_sequences'], 'alterations at any byte/record of any flight, any version and suite',
  'Tests alter chosen fields in chosen messages.', ['tls/record/src', 'tls/handshake'], [('record MAC/AEAD verification', 'tls/record/src'), ('transcript hash and Finished', 'tls/handshake')], observe=['HITLS_Connect/Accept/Read results'])
prop('T04', 'Malformed or out-of-order peer messages never break an endpoint',
  'Whatever bytes a peer sends, in plaintext or correctly protected, an endpoint neither crashes, hangs, reads out of bounds, leaks, nor completes the handshake or returns application data without the handshake messages required for it; unexpected, oversized or malformed messages end in an error and a fatal alert.',
  ['inputs', 'histories'], 'arbitrary and structure-mutated handshake messages and records in every handshake state, for both roles and all protocol versions',
  'Malformed-message tests cover enumerated cases only.', ['tls/handshake/parse', 'tls/handshake/sm', 'tls/record/src', 'tls/alert/src'], [('message parsers', 'tls/handshake/parse'), ('state machine checks', 'tls/handshake/sm, tls/handshake/recv')], observe=['HITLS_Connect/Accept/Read', 'ASan'])
prop('T05', 'DTLS survives loss, reordering and duplication and never replays data',
  'Over a datagram transport that loses, duplicates, delays and reorders packets, a DTLS handshake completes with agreement once packets get through, every application message is delivered at most once and unaltered with its boundaries, and forged or replayed datagrams are discarded without ending the connection.',
  ['schedules', 'fault_sequences'], 'generated loss/dup/reorder/MTU/timeout schedules for DTLS 1.2/1.3/DTLCP, replayed records inside and outside the window, with cookies',
  'UDP tests run over a lossless loopback.', ['tls/handshake/reass', 'tls/record/src', 'tls/cm/src'], [('reassembly and retransmission', 'tls/handshake/reass, tls/handshake/common'), ('anti-replay window', 'tls/record/src')], observe=['HITLS_Connect/Accept/Read on UDP-type UIO'])
prop('T06', 'A handshake completes only with the peer authentication that was required',
  'With peer verification enabled, a handshake completes only if the peer proved possession of the private key of a certificate chain that validates against the configured trust store (validity, key usage, host name as configured) or of the shared PSK; an untrusted, expired, mismatching or missing certificate, or a wrong PSK, always fails the handshake when it is required.',
  ['configurations', 'inputs'], 'generated trust stores, chains with defects, key/certificate mismatches, verification modes for client and server, PSK values',
  'Selected combinations tested.', ['tls/cert', 'tls/handshake', 'pki/x509_verify/src'], [('certificate verify and CertificateVerify processing', 'tls/handshake/recv, tls/cert')], observe=['HITLS_Connect/Accept', 'HITLS_GetVerifyResult'])
prop('T07', 'Sessions resume only when genuine, matching and unexpired',
  'A session or ticket offered for resumption is resumed only if it was issued by that server configuration, is unexpired, unaltered and compatible (version, offered suite, extended master secret in TLS 1.2, session-id context, ticket-encryption key, cache entry); a good session offered under unchanged settings is resumed; otherwise a full handshake takes place or the handshake fails. Both ends agree on whether the connection was resumed and on keys, and every connection has fresh keys. Session export and import preserve every field except the ticket, which is not exported.',
  ['histories', 'configurations'], 'sequences of handshakes over shared/rotated ticket keys and caches, altered tickets, time shifts, changed configurations',
  'Tests resume immediately with unchanged settings.', ['tls/feature/session', 'tls/handshake'], [('ticket encryption and MAC', 'tls/feature/session'), ('session manager cache', 'tls/feature/session')], observe=['HITLS_IsSessionReused', 'HITLS_GetDupSession'])
prop('T08', 'TLS endpoints interoperate with an independent implementation',
  'With any configuration both support, an endpoint completes a TLS 1.2, TLS 1.3 or DTLS 1.2 handshake with an independent implementation in either role, both see the same negotiated parameters and exporter output, and application data, session resumption, key update and orderly close work in both directions.',
  ['configurations', 'histories'], 'generated configurations, roles, I/O schedules against OpenSSL',
  'The suites only test openHiTLS against itself, so a mistake made on both sides is invisible.', ['tls'], [('key schedule, record protection, message formats', 'tls')], observe=['handshake result on both sides'])
prop('T09', 'Closure is explicit: truncation is never reported as a clean end',
  'A reader sees the orderly-close result only if the peer sent close_notify after all its data; a transport end or fatal alert without it is reported as an error, and after a fatal error or closure no further application data is sent or delivered on that connection.',
  ['histories', 'fault_sequences'], 'close/alert/truncate at any point of a data exchange, in any version',
  'Tested at a few points.', ['tls/cm/src', 'tls/alert/src', 'tls/record/src'], [('connection state machine', 'tls/cm/src')], observe=['HITLS_Read/Write/Close return codes'])
prop('A01', 'One-time passwords equal RFC 4226/6238 and validate within the window',
  'For every key, counter or time, digit count, digest, time step and window, generated HOTP/TOTP codes are those of the RFCs, and validation accepts a code if and only if it is the code of some counter/time step inside the configured window, reporting the matching position.',
  ['inputs'], 'all keys, counters/times, digits, hash algorithms, windows',
  'RFC vectors only.', ['auth/otp/src'], [('truncation and window search', 'auth/otp/src')], observe=['HITLS_AUTH_HotpGen/Validate', 'HITLS_AUTH_TotpGen/Validate'])
prop('A02', 'SPAKE2+ peers share a key exactly when the password matches',
  'For every password, identities, context and supported suite, honest SPAKE2+ peers derive equal confirmed keys equal to RFC 9383; with a different password, identity, context, or an altered share or confirmation message, at least one peer rejects and keys differ. Invalid or identity points are refused.',
  ['inputs', 'histories'], 'all inputs, both roles, alterations of each message',
  'Vectors only.', ['auth/pake'], [('transcript and confirmation', 'auth/pake/spake2plus')], observe=['HITLS_AUTH_Pake*'])
prop('A03', 'Privacy Pass tokens verify exactly when honestly issued and unaltered',
  'A token obtained through challenge, request, issuance and finalisation for any challenge and key verifies for that challenge; any altered or truncated challenge, request, response, token or wrong key fails, and serialising and parsing each message are inverse. Parsing arbitrary bytes never crashes.',
  ['inputs', 'histories'], 'all message contents, alterations, wrong-key and wrong-order histories',
  'A few scripted flows.', ['auth/privpass_token/src'], [('blind RSA flow and serialisation', 'auth/privpass_token/src')], observe=['HITLS_AUTH_PrivPass*'])
prop('X01', 'The command-line tool gives the library\'s results on any file',
  'For any input file and option combination in their supported range, the hitls tool\'s digest, MAC, enc/dec, base64-style conversion, key, parameter and certificate commands produce the output an independent tool produces or accepts, decryption inverts encryption, and a failing command exits non-zero without leaving a truncated success result.',
  ['inputs', 'configurations'], 'generated file contents (sizes around I/O block boundaries), algorithms, passwords, formats',
  'The app tests use small fixed files.', ['apps/src'], [('chunked file processing', 'apps/src')], observe=['exit status and output files'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
