#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
A='ml-kem/src/algebra.rs'; K='ml-kem/src/kem.rs'; P='ml-kem/src/pke.rs'; C='ml-kem/src/crypto.rs'
E='ml-kem/src/encode.rs'; CO='ml-kem/src/compress.rs'; PA='ml-kem/src/param.rs'; L='ml-kem/src/lib.rs'; U='ml-kem/src/util.rs'
X='x-wing/src/lib.rs'; D='dhkem/src/lib.rs'; DE='dhkem/src/ecdh_kem.rs'; DX='dhkem/src/x25519_kem.rs'
def p(id,title,stmt,over,text,why,files,mech,state=(),obs=(),hook=None):
    return dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=hook))
HOOK='cfg(verif_hooks) re-export of the private modules of ml-kem (algebra, compress, crypto, encode, pke)'
props=[
p('C01','ML-KEM: an honest ciphertext always decapsulates to the sender\'s key',
 'For every ML-KEM parameter set, every key pair the library generates, and every encapsulation to its public key, decapsulating the resulting ciphertext returns exactly the shared key the encapsulator got. This stays true when the keys were cloned, exported and re-imported any number of times, when the public key was taken out of the private key, and however often and in whatever order the operations are repeated.',
 ['inputs','histories'],'all randomness (d, z, m), all three parameter sets, all chains of clone/encode/decode between the operations',
 'The round-trip tests run each parameter set a handful of times with thread_rng; a failure that needs particular randomness, a re-imported key or a previous operation is not sampled.',
 [K,P,L],[('decapsulation re-encrypts and selects',K+':91 decapsulate'),('K-PKE decrypt undoes encrypt within the noise bound',P+':64 decrypt, '+P+':108 encrypt'),('the key pair shares one encapsulation key',K+':226 generate')],
 [('dk','private key: PKE secret, public key, its hash, z',K+':24'),('ek','public key and its hash',K+':148')],['K::generate, encapsulate, decapsulate, as_bytes, from_bytes, clone']),
p('C02','ML-KEM key generation equals FIPS 203 for every seed',
 'For every parameter set and all 32-byte d and z, deterministic key generation, and random key generation with a generator that delivers d then z, return exactly the encapsulation and decapsulation key bytes of FIPS 203 ML-KEM.KeyGen_internal(d, z). The encapsulation key returned, the one held inside the private key and the one in the private key\'s encoding are the same.',
 ['inputs'],'all (d, z) pairs, both generation entry points, three parameter sets',
 'ACVP vectors fix 25 seeds per parameter set and only the deterministic entry point; an error that needs an unusual seed or only affects random generation passes them.',
 [P,K,A,C],[('K-PKE key generation',P+':39 generate'),('seed handling and assembly',K+':129 generate, '+K+':137 generate_deterministic'),('matrix and noise sampling',A+':143 sample_cbd, '+A+':268 sample_uniform')],[],['generate, generate_deterministic, as_bytes']),
p('C03','ML-KEM encapsulation equals FIPS 203 for every public key and message',
 'For every parameter set, every encapsulation key that can be loaded from bytes and every 32-byte message m, deterministic encapsulation, and random encapsulation with a generator that delivers m, return exactly the ciphertext and shared key of FIPS 203 ML-KEM.Encaps_internal(ek, m). A key loaded from bytes whose 12-bit coefficients are not reduced behaves exactly as the key with those coefficients reduced modulo q.',
 ['inputs','histories'],'all public key byte strings of the right length, all m, in any order of keys within one process',
 'ACVP vectors give 25 honest keys per set and one m each; no test loads a malformed or adversarial public key or encapsulates twice in a row to related keys.',
 [K,P,C,CO,E],[('derivation of (K, r) and encryption',K+':165 encapsulate_deterministic_inner'),('K-PKE encryption',P+':108 encrypt'),('public key parsing',P+':138 from_bytes')],[],['encapsulate, encapsulate_deterministic, from_bytes']),
p('C04','ML-KEM decapsulation equals FIPS 203 for every private key and ciphertext',
 'For every parameter set, every decapsulation key that can be loaded from bytes (honest, corrupted or adversarial) and every ciphertext of the right length, decapsulation returns exactly the output of FIPS 203 ML-KEM.Decaps_internal on the decoded key and that ciphertext. In particular the hash stored in the private key encoding is the one used, and the comparison is over the whole ciphertext.',
 ['inputs','histories'],'all private key byte strings and all ciphertext byte strings of the right length',
 'The suite decapsulates 30 ACVP ciphertexts with one honest key per set; the result for other keys, spliced keys or borderline ciphertexts is never compared with anything.',
 [K,P],[('decapsulation',K+':91 decapsulate'),('K-PKE decryption',P+':64 decrypt'),('private key parsing',K+':54 from_bytes')],[],['decapsulate, from_bytes']),
p('C05','ML-KEM implicit rejection: a changed ciphertext yields only the rejection key',
 'If a ciphertext differs in any way from one produced by honest encapsulation to the key pair, decapsulation succeeds and returns the pseudorandom rejection key derived from z and the received ciphertext, never the encapsulated shared key. The result is the same each time for the same key and ciphertext, differs for different ciphertexts and for keys with different z, and does not affect later decapsulations.',
 ['inputs','histories','fault_sequences'],'every position and kind of modification of a ciphertext: single bits, several bytes that cancel, swapped or spliced parts, foreign ciphertexts, constants',
 'Ten modified ciphertexts per parameter set in the ACVP file; a comparison that skips a byte or lets two differences cancel, or a rejection value that ignores part of its input, survives that.',
 [K],[('constant-time comparison and selection',K+':79 constant_time_eq, '+K+':100-112'),('J(z || c)',C+':46 J')],[],['decapsulate']),
p('C06','ML-KEM encodings are lossless, canonical and total',
 'For every parameter set, exporting a key and importing it again gives an equal key that behaves identically, and exporting is the identity on every canonical encoding. Importing accepts every byte string of the right length, keeps every bit of rho, the stored public-key hash and z, reduces each 12-bit coefficient modulo q and nothing else, and sizes are those of FIPS 203.',
 ['inputs'],'all byte strings of encoding length; all 4096 twelve-bit values at every coefficient position',
 'The codec tests encode one random key per set; non-canonical and adversarial encodings are never decoded at this level.',
 [K,P,E,PA],[('byte codec',E+':17 byte_encode, '+E+':41 byte_decode'),('splitting and joining',PA+':210-296'),('key codec',K+':54,'+K+':71,'+P+':80-140')],[],['as_bytes, from_bytes']),
p('C07','Random operations consume exactly the specified random bytes, in order',
 'Every randomised operation uses the supplied generator, and only it: ML-KEM key generation takes d then z, ML-KEM encapsulation m, X-Wing key generation its 32-byte seed, X-Wing encapsulation the ML-KEM message then the X25519 secret, DHKEM operations one uniformly chosen secret scalar. Each byte drawn is used exactly once for its purpose and none is reused across operations, so results are a function of the byte stream and distinct stream positions give independent keys.',
 ['inputs','histories'],'all generator byte streams and all sequences of randomised operations on one generator',
 'The tests draw from thread_rng and compare only round trips, so a reused, truncated, swapped or ignored random block is invisible; only X-Wing has a scripted generator, for three vectors.',
 [C,K,X,DE,DX],[('rand',C+':13'),('order of draws',K+':129, '+K+':193'),('X-Wing draws',X+':80, '+X+':164, '+X+':283'),('DH secrets',DE+':24, '+DE+':59, '+DX+':15, '+DX+':44')],[('rng position','bytes of the caller\'s generator consumed so far','harness')],['calls the library makes on the supplied generator']),
p('C08','A failing random generator never yields keys or ciphertexts',
 'If the supplied generator reports failure at any point during key generation or encapsulation in ML-KEM, X-Wing or DHKEM, the operation does not return a key, ciphertext or shared secret. Values that already exist keep working and a later operation with a healthy generator gives the correct result.',
 ['fault_sequences'],'every position at which the generator can fail, after any number of bytes, for every randomised operation',
 'No test uses a failing generator.',
 [C,X,DE,DX,K],[('fill_bytes propagates failure',C+':13 rand, '+X+':283 generate, '+DE+':24, '+DX+':15')],[],['outcome (value, error or panic) of generate/encapsulate under a failing generator']),
p('C09','ML-KEM ring arithmetic is exact for all operands',
 'Every addition, subtraction and multiplication that key generation, encapsulation and decapsulation perform on elements of Z_3329 and on polynomials of Z_3329[X]/(X^256+1), including the transform to and from the NTT domain and matrix-vector products, gives the mathematically exact, fully reduced result. This holds for all operand values including the extremes.',
 ['inputs'],'all pairs of field elements (11 million per operation); all polynomials (linear basis, extreme and random)',
 'The tests use two small polynomials and constant NTT vectors; a reduction error for particular large operands is not reached.',
 [A],[('field arithmetic',A+':36-97'),('NTT',A+':374, '+A+':397'),('products',A+':55, '+A+':340, '+A+':461, '+A+':490')],[],['results of the arithmetic operators'],HOOK),
p('C10','Ciphertext compression and bit packing are exact for all values',
 'Compressing any element of Z_3329 to d bits and decompressing any d-bit value give exactly the FIPS 203 rounding for every d the parameter sets use, and bit packing and unpacking are exact mutual inverses at every coefficient position for every width.',
 ['inputs'],'all field values and all d-bit values for d in {1,4,5,10,11,12}; all coefficient positions',
 'Values are covered element-wise by existing unit tests, but packing is tested with a repeating pattern and random data only, and the composition with vectors for one width.',
 [CO,E],[('compress',CO+':37'),('decompress',CO+':46'),('codec',E+':17, '+E+':41')],[],['compress, decompress, encode, decode'],HOOK),
p('C11','ML-KEM sampling is exact on every random stream',
 'Sampling a uniform polynomial takes 12-bit candidates from the stream in order, keeps exactly those below 3329 and stops after 256, whatever the pattern of rejections; sampling noise gives at each position the difference of the two bit counts. Streams are derived from the seed and the index bytes as FIPS 203 prescribes.',
 ['inputs'],'all byte streams, in particular every pattern of acceptance and rejection relative to internal buffering; all CBD inputs',
 'The tests check only a coarse statistical distance for one seed; runs of rejections, rejections at buffer ends and candidate values around 3329 are not reached.',
 [A,C,PA],[('rejection sampling',A+':218-275'),('centred binomial sampling',A+':143, '+PA+':110-145'),('XOF and PRF',C+':60, '+C+':74')],[('reader position','offset in the 96-byte buffer and pending second candidate',A+':206')],['sample_uniform, sample_cbd, matrix and vector sampling'],HOOK),
p('C12','Results do not depend on history or on other threads',
 'Every operation of ML-KEM, X-Wing and DHKEM is a function of its arguments and the generator bytes it draws: it gives the same result whatever operations, on whatever parameter sets and keys, succeeded or were rejected before it, and whatever runs concurrently on other threads, including on the same keys. No operation changes any key or ciphertext that already exists.',
 ['histories','schedules'],'all interleavings and histories of operations over several keys, parameter sets and threads',
 'Every test performs one short sequence on fresh values in one thread.',
 [K,P,A,X,DE],[('no shared mutable state','whole library'),('operations take &self',K+':91, '+K+':193, '+X+':80, '+X+':140')],[],['all public operations']),
p('C13','Results do not depend on build configuration',
 'With any combination of the crates\' cargo features and in optimised as well as checked builds, every operation that exists in that configuration gives the same result for the same arguments and generator bytes.',
 ['configurations','inputs'],'all feature combinations that build (std, deterministic, zeroize, getrandom, curve selections) crossed with debug and release profiles',
 'The suite is run with all features in one profile, so code under a disabled feature or without overflow checks is never executed.',
 [K,X,D,A,'ml-kem/Cargo.toml'],[('feature-gated code',K+':33-45, '+X+':93-101, '+X+':145-153, '+D+':112-130'),('generate vs generate_deterministic',K+':236-250')],[],['all public operations, per configuration']),
p('C14','Dropping or wiping a private key erases the secret from memory',
 'With the zeroize feature enabled, once an ML-KEM or X-Wing decapsulation key, or a DHKEM decapsulator, has been dropped, the memory it occupied no longer contains its secret (the PKE secret polynomials, z, the X-Wing seed, the DH scalar), and explicitly wiping a value erases it likewise. This holds however the value was made: generated, imported or cloned.',
 ['histories','inputs'],'all ways of creating and disposing of a secret-bearing value; every byte of it',
 'No test inspects memory after a drop; removing an erasure changes no result.',
 [K,A,P,X,D],[('Drop for DecapsulationKey',K+':34'),('Zeroize chain',P+':24, '+A+':21, '+A+':188, '+A+':433'),('X-Wing derive',X+':131, '+X+':215'),('DHKEM',D+':113-130')],[],['memory of the value after drop or zeroize']),
p('C15','X-Wing equals its specification for every seed, key and ciphertext',
 'X-Wing key generation, public key derivation, encapsulation and decapsulation give exactly the values of draft-connolly-cfrg-xwing-kem-04 for every 32-byte seed, every 1216-byte public key, all encapsulation randomness and every 1120-byte ciphertext, including invalid ML-KEM parts and non-canonical or low-order X25519 values.',
 ['inputs'],'all seeds, public keys, randomness and ciphertexts',
 'Three honest test vectors; nothing with a malformed ciphertext, a foreign public key or special curve points.',
 [X],[('key expansion',X+':176'),('encapsulate',X+':80'),('decapsulate',X+':140'),('combiner',X+':260')],[],['generate, encapsulation_key, encapsulate, decapsulate']),
p('C16','X-Wing agrees when honest and binds every component when not',
 'For every X-Wing key pair and encapsulation to it, decapsulation returns the encapsulator\'s secret. If any bit of either half of the ciphertext, or the public key or private key used, is changed, both sides still return some value without failing and the values differ.',
 ['inputs','histories'],'all key pairs, randomness and modifications of either ciphertext half and of the keys',
 'One round trip and three vectors, none modified.',
 [X],[('combiner hashes both secrets, the X25519 ciphertext and key',X+':260'),('ML-KEM implicit rejection',K+':91')],[],['encapsulate, decapsulate']),
p('C17','X-Wing encodings are lossless and use the documented layout',
 'X-Wing private keys and ciphertexts export exactly the bytes they were imported from, and public keys do up to reduction of ML-KEM coefficients; all have the documented sizes with the ML-KEM part first. Imported values are interchangeable with the originals in every operation.',
 ['inputs'],'all byte strings of the right lengths',
 'One random key and ciphertext round trip each.',
 [X],[('as_bytes/From',X+':104-131, '+X+':202-211, '+X+':221-247')],[],['as_bytes, From']),
p('C18','DHKEM computes the exact Diffie-Hellman secret on all five groups',
 'For P-256, P-384, P-521, secp256k1 and X25519, and for every secret scalar and every valid peer key, the public key and the shared secret returned are the exact group results (big-endian x-coordinate, or the RFC 7748 output), and the encapsulated key returned is the public key of the ephemeral secret. Encapsulator and decapsulator therefore always agree.',
 ['inputs'],'all secret scalars and all peer public keys, including the edge scalars 1, 2, n-1 and points with special coordinates',
 'Each group is tested by one random round trip, which cannot see a symmetric error; one HPKE vector covers P-256.',
 [DE,DX,D],[('encapsulate',DE+':24, '+DX+':15'),('decapsulate',DE+':43, '+DX+':31'),('random_keypair',DE+':59, '+DX+':44')],[],['random_keypair, encapsulate, decapsulate']),
p('C19','DHKEM key wrappers are transparent',
 'Wrapping a key in a DHKEM encapsulator or decapsulator and unwrapping, borrowing, copying, cloning, comparing, hashing, ordering or encoding it gives exactly what the same operation on the wrapped key gives. A wrapped key obtained by conversion behaves like one from key pair generation.',
 ['inputs'],'all wrapped keys, both point compression settings, all pairs for comparisons',
 'Only construction and a single encoding call are exercised by the tests.',
 [D],[('conversions and derives',D+':56-110')],[],['From, AsRef, into_inner, ToEncodedPoint, Eq/Ord/Hash/Clone']),
p('C20','Keys are equal exactly when their encodings are, and keys do not mix',
 'Two ML-KEM or X-Wing keys or X-Wing ciphertexts compare equal if and only if their encodings are identical, whichever way they were obtained. A ciphertext made for one key pair, or sent under one parameter set, is never opened to the same secret by a key pair with another encoding of its secret parts.',
 ['inputs','histories'],'all pairs of values, in particular pairs that differ in a single bit at any position',
 'Tests only assert equality of equal values; an equality that ignores a component passes.',
 [K,P,X],[('derived PartialEq',K+':23, '+K+':147, '+P+':15, '+P+':93, '+X+':71, '+X+':214')],[],['==, decapsulate']),
p('C21','No input makes a public operation fail',
 'Importing any byte string of the right length, encapsulating to any imported public key, and decapsulating any ciphertext with any imported private key terminate and return a value; they never panic, overflow or report an error, in checked builds as well as optimised ones.',
 ['inputs','configurations'],'all byte strings of the right lengths as keys and ciphertexts, in builds with and without overflow and debug checks',
 'Tests only feed honest keys and (except for ML-KEM decapsulation) honest ciphertexts.',
 [K,P,A,E,CO,U,X],[('infallible types',K+':85, '+X+':77'),('reduction before arithmetic',E+':41'),('unchecked truncation',U+':19')],[],['all public operations']),
p('C22','Secret-dependent timing',
 'The time and memory access pattern of decapsulation do not depend on the private key or on whether the ciphertext was rejected.',
 ['inputs'],'all keys and ciphertexts',
 'Tests observe results only.',
 [K,A,CO],[('branch-free selection',K+':79-112'),('Barrett reduction',A+':44')],[],['timing']),
p('C23','Memory safety of the unsafe array conversions',
 'The library never reads or writes outside the values it is given and never causes undefined behaviour.',
 ['inputs'],'all inputs and array sizes',
 'Undefined behaviour need not change a test result.',
 [U],[('ptr reads',U+':44-110'),('unwrap_unchecked',U+':19')],[],['memory accesses']),
]
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in props:
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
