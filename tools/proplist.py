F = 'src/field.c include/field.h'
TRUST = 'Every obligation is decided by Z3 over all values within the stated bounds, on IR regenerated from the current sources; counterexamples are replayed on the compiled library before they are reported. Trusted: clang front end, the IR executor, the GMP/libc models (validated by native re-runs), Z3. '

prop('C01', 'Addition, subtraction, doubling and negation in a prime field are exact',
     'For every prime p and all canonical elements, adding, subtracting, doubling and negating field elements (and adding or subtracting an unsigned word) gives the canonical representative of the exact result mod p. '
     'This holds whichever of the arguments alias each other or the result, whatever the result object held before, and operands that are not the result keep their value.',
     'inputs', 'all field elements, all machine words, aliasing patterns, primes of 1 to 16 limbs',
     'Unit tests draw a few random elements; a wrong carry, borrow or final correction shows only for boundary operands of a given limb shape (probability near 2^-64).',
     F, [('mpFp_add/sub/dbl/neg', 'src/field.c'), ('conditional final subtraction', 'src/field.c')],
     TRUST + 'Bounds: primes up to 16 limbs (fully symbolic prime for 1 to 4 limbs), all operands.')
prop('C02', 'Field multiplication, squaring and powering are exact',
     'For every prime p, multiplying two field elements, multiplying by an unsigned word, squaring, and raising to any integer power give the canonical representative of the exact result mod p. '
     'This holds for every aliasing of arguments and result and whatever the result object held before; operands that are not the result keep their value.',
     'inputs', 'all field elements and machine words, aliasing patterns, prime shapes of 1 to 16 limbs',
     'Random sampling does not reach the reduction corner cases (quotient or remainder with leading zero limbs, special prime shapes).',
     F, [('mpFp_mul/sqr/mul_ui/pow', 'src/field.c')],
     TRUST + 'Exact for small primes; for multi-limb primes the GMP multiplication and reduction are uninterpreted functions, so the claim is that the library feeds and stores them correctly for all operands.')
prop('C03', 'Field inversion is exact and refuses zero',
     'Inverting a nonzero field element succeeds and gives the unique canonical element whose product with the operand is 1; inverting zero reports failure. The operand keeps its value unless it is the result object.',
     'inputs', 'all field elements, prime shapes of 1 to 16 limbs, result/operand aliasing',
     'Tests invert a handful of random elements and never zero.',
     F, [('mpFp_inv', 'src/field.c')], TRUST + 'Exact for primes below 64, GMP inversion uninterpreted for multi-limb primes.')
prop('C04', 'Square roots exist exactly when reported and square to the operand',
     'For every prime p and every element, the square-root operation terminates; it succeeds exactly when the element is zero or a quadratic residue, and the canonical result then squares to the element.',
     'inputs', 'all field elements; primes of every 2-adic valuation of p-1, in particular large ones such as the 224-bit NIST prime',
     'Tests use primes with small 2-adicity and random elements; the number of descent rounds and their exponents depend on the discrete logarithm of the element in the 2-part.',
     F, [('mpFp_sqrt', 'src/field.c')],
     TRUST + 'Exact for listed primes up to 241 (769 thorough); cyclic-group model for p-1 with valuation 6, 32, 96 within a bounded number of descent rounds; exponentiation branch for multi-limb primes = 3 mod 4.')
prop('C05', 'Field conversion, comparison, copying and swapping preserve exact values',
     'Importing any integer (or unsigned word) into a field gives the canonical element congruent to it, for negative and over-long integers too; exporting returns exactly the canonical integer; '
     'comparison is zero exactly for equal elements and orders by value; bit tests match the binary expansion; copy, swap and the conditional swap move whole values (conditional swap exchanges exactly when the selector is nonzero and otherwise changes nothing), also between objects of different fields and when arguments alias.',
     'inputs', 'all integers of either sign up to one limb more than the modulus, all elements, all selectors, fields of different size',
     'Tests convert a few random values; negative, over-long or short-limb values and selector values other than 0/1 are not sampled.',
     F, [('mpFp_set_mpz/set_ui/cmp/swap/cswap/tstbit', 'src/field.c')], TRUST + 'Bounds: 1 to 4 limbs (thorough 6, 9).')
prop('C06', 'The field registry keeps one undisturbed object per modulus',
     'However many different fields were created before and in which order, looking up a modulus always gives the same field object for equal moduli and different objects for different ones, with the right modulus; '
     'objects already handed out never change, and the caller may overwrite or clear the integer it passed.',
     'histories inputs', 'all lookup sequences of bounded length over symbolic moduli',
     'The registry is global state; its behaviour depends on the history of lookups, which tests exercise with two or three fixed primes.',
     F, [('mpFp_field lookup table', 'src/field.c')], TRUST + 'Bounds: sequences over three symbolic moduli of 1 to 4 limbs.', state=['field registry'])
CU = 'src/ecurve.c include/ecurve.h'
prop('C07', 'A curve is accepted exactly when its base point lies on it',
     'For each curve form (short Weierstrass, Edwards, twisted Edwards, Montgomery), construction from integers or strings succeeds exactly when the base point satisfies the curve equation (and the form is defined, e.g. B nonzero, and the given size in bits is, in whole bytes, enough for the field), '
     'stores exactly the given parameters whatever the object held before, and the public point test accepts exactly the pairs satisfying the equation.',
     'inputs', 'every field p > 100, all coefficients, base points and candidate points, every 32-bit size, all four forms, used and fresh objects',
     'Tests use valid standard curves; a wrong equation term is only visible for parameters that make the term matter.',
     CU, [('mpECurve_set_*_ws/ed/te/mo', 'src/ecurve.c'), ('mpECurve_point_check', 'src/ecurve.c')], TRUST + 'Field operations replaced by the field law (decided for the real field layer by C01 to C05): the verdict covers every prime above 100.')
prop('C08', 'Curve comparison is equality of parameters; copies are independent',
     'Comparing two curves reports equality exactly when form, field, coefficients, order, cofactor and base point agree; copying over any object gives an equal curve that does not change when the source is changed or destroyed.',
     'inputs histories', 'all parameter pairs differing in exactly one component or none, all forms, used and fresh objects',
     'Tests compare standard curves, which differ in everything at once.',
     CU, [('mpECurve_cmp/set', 'src/ecurve.c')], TRUST + 'Every prime above 100 via the field law.')
prop('C09', 'Exactly the listed curve names are known, with their standard parameters',
     'Loading a curve by name succeeds exactly for the listed names and yields precisely the published domain parameters; any other string is refused and an object in use is left usable.',
     'inputs', 'every byte string up to one more than the longest name; fresh and used objects',
     'Tests load known names only; a wrong digit in a cofactor, order or coefficient of a curve tests do not exercise, or a prefix match, goes unnoticed.',
     CU, [('named curve table', 'src/ecurve.c'), ('mpECurve_set_named', 'src/ecurve.c')], TRUST + 'All names of up to 18 bytes; parameters compared with a table of the published standards.')
PT = 'src/ecpoint.c include/ecpoint.h'
LAW = 'Every field p > 100, curve and point through a polynomial parametrisation: the solver decides polynomial identities over the executed formulas, so no sampling of fields. '
prop('C10', 'Coordinates go in and come out unchanged for every form and scaling',
     'A point set from affine coordinates returns exactly those coordinates, for every curve form, whatever its internal projective scaling, whichever coordinate is read first or how often, and also from a copy, through the integer and the field-element interfaces.',
     'inputs', 'every field p > 100, coefficients, coordinate pairs and nonzero scalings, four forms',
     'Scaled representations arise only after operations; the conversion of Montgomery points with B different from 1 is never tested.',
     PT, [('mpECP_set_mpz/mpFp, affine getters', 'src/ecpoint.c')], TRUST + LAW)
prop('C11', 'Point addition and doubling on short Weierstrass curves is the group law',
     'For all points of any short Weierstrass curve (including curves of even order), any projective scaling and any aliasing, addition and doubling give the chord-and-tangent sum, including equal, opposite and neutral operands and points of order two; operands keep their value.',
     'inputs', 'all fields p > 100, curves, point pairs, scalings, aliasings',
     'Exceptional cases (difference of order two, doubling a 2-torsion point, scaled neutral) are never hit by random points.',
     PT, [('mpECP_add/double Weierstrass', 'src/ecpoint.c')], TRUST + LAW)
prop('C12', 'Point addition and doubling on Edwards curves is the group law',
     'For all points of any Edwards curve where the affine law is defined, any projective scaling and aliasing, addition and doubling give the Edwards sum, including neutral and opposite operands; operands and curves keep their value.',
     'inputs', 'all fields p > 100, curves, point pairs, scalings, aliasings',
     'Tests check a few random points on two or three curves, with untouched scalings and parameters c = 1.',
     PT, [('mpECP_add/double Edwards', 'src/ecpoint.c')], TRUST + LAW)
prop('C13', 'Point addition and doubling on twisted Edwards curves is the group law',
     'For all points of any twisted Edwards curve where the affine law is defined, any projective scaling and aliasing, addition and doubling give the twisted Edwards sum, including neutral and opposite operands; operands and curves keep their value.',
     'inputs', 'all fields p > 100, curves, point pairs, scalings, aliasings',
     'Tests check a few random points on two or three curves, with untouched scalings.',
     PT, [('mpECP_add/double twisted Edwards', 'src/ecpoint.c')], TRUST + LAW)
prop('C14', 'Point addition and doubling on Montgomery curves is the group law',
     'For all points of any Montgomery curve B*y^2 = x^3 + A*x^2 + x (any B), any scaling and aliasing, addition and doubling give the sum of the group law in the Montgomery coordinates a user sees, including points of order two, opposite and neutral operands.',
     'inputs', 'all fields p > 100, coefficients A and B, point pairs, scalings, aliasings',
     'All tested Montgomery curves have B = 1, and random points never have order two.',
     PT, [('mpECP_add/double Montgomery via Weierstrass form', 'src/ecpoint.c')], TRUST + LAW)
prop('C15', 'Negation and subtraction match the group law',
     'Negating gives the opposite point of each curve form for every scaling, P - P is neutral, subtraction is addition of the opposite, and neutral operands behave as neutral, in place and out of place.',
     'inputs', 'all fields p > 100, four forms, points, scalings',
     'Different forms negate different coordinates; neutral and self operands are not tested in all positions.',
     PT, [('mpECP_neg/sub', 'src/ecpoint.c')], TRUST + LAW)
prop('C16', 'Point comparison is equality of curve points',
     'Comparison reports equality exactly when both points are the same point of equal curves, whatever their projective scalings, with neutral operands, and for points on separately built equal curves; it does not change the points.',
     'inputs', 'all fields p > 100, four forms, coordinate pairs, scalings, curve pairs',
     'Tests compare freshly set points; differently scaled equal points or points differing in one coordinate only are not sampled.',
     PT, [('mpECP_cmp', 'src/ecpoint.c')], TRUST + LAW)
GR = 'Points are formal multiples in the group of order n (the group law itself is C11 to C16), scalars symbolic bit by bit: the verdict covers every scalar of the listed orders on every curve. '
prop('C17', 'Scalar multiplication computes the exact multiple',
     'For every scalar and point, scalar multiplication gives exactly k times the point, for each curve form, for orders longer than the field, for scalar 0, for neutral operands, when the result aliases the operand, and for integers outside [0, n).',
     'inputs', 'every scalar; orders of 8 to 521 bits including orders longer than the field',
     'Tests use random scalars, which never have the boundary digits (top bit above the field size, all-ones, zero) where ladder or window code goes wrong.',
     PT, [('mpECP_scalar_mul', 'src/ecpoint.c')], TRUST + GR)
prop('C18', 'Table-based multiplication equals plain multiplication whatever the history',
     'Multiplication from a precomputed table gives exactly k times the current value of the point, whether the table was set up explicitly or implicitly, is reused, belongs to a copied or swapped point, or the point was changed by any operation after its table was built.',
     'inputs histories', 'every scalar; each modifying operation between table setup and use',
     'Tests build a table once and use it; stale tables need a modify-after-setup history.',
     PT, [('mpECP_scalar_base_mul, base tables', 'src/ecpoint.c')], TRUST + GR, state=['precomputed table of a point'])
prop('C21', 'Point export is the fixed-width encoding, and importing it gives the point back',
     'Exporting a point writes exactly the announced number of bytes (or hexadecimal characters plus terminator): a prefix (02/03 by parity of y, 04 uncompressed, zero for neutral) and the coordinates as big-endian numbers padded to the field width, '
     'for every curve form, scaling and number of leading zero bytes; importing the output gives an equal point; exporting does not change the point.',
     'inputs', 'every point, projective scaling, both encodings, bytes and strings, field sizes of 4 to 521 bits',
     'Coordinates with leading zero bytes, odd y on curves with B different from 1, or coordinate 0 have negligible probability in random tests.',
     PT, [('mpECP_out_bytes/out_str/out_bytelen/out_strlen', 'src/ecpoint.c')], TRUST + 'Export: all coordinates, 112 to 521 bits. Round trip: exact, all points of small curves.')
prop('C22', 'Point import accepts exactly the encodings of curve points',
     'Importing bytes or a string succeeds exactly when they are the encoding of a point of the curve (right length, prefix, reduced coordinates on the curve, a root of the announced parity, only hexadecimal digits) and gives that point; anything else is refused without crashing.',
     'inputs', 'all byte strings and character strings around the valid lengths, four curve forms',
     'Tests import valid encodings; acceptance of off-curve points, unreduced coordinates or malformed digits is an invalid-curve attack surface that sampling of valid inputs never shows.',
     PT, [('mpECP_set_bytes/set_str', 'src/ecpoint.c')], TRUST + 'Exact: every byte string on curves over fields of 5 and 9 bits.')
EC = 'src/ecdsa.c include/ecdsa.h'
prop('C24', 'ECDSA signing gives r, s of the scheme for every key, digest and nonce',
     'Signing draws a fresh nonce until r = x(kG) mod n and s = (z + r d)/k mod n are both nonzero and returns exactly these, with z the leftmost bits of the digest; the result refers to its scheme, lies in 1..n-1, verifies under the public key, and the key is unchanged.',
     'inputs schedule', 'every key, digest and nonce sequence over groups of prime order small enough that every retry happens, four curve forms',
     'r = 0 and s = 0 (the retries) have negligible probability on standard curves, so the retry code is never run by tests.',
     EC, [('mpECDSASignature_init_Sign', 'src/ecdsa.c')], TRUST + 'Exact on curves of prime order 7 to 23 with the digest function and random source symbolic; retries up to a stated number.')
prop('C25', 'ECDSA verification accepts exactly the valid signatures',
     'A signature (r, s) verifies under a public key for a message exactly when r and s lie in 1..n-1, both schemes and curves agree, and the x coordinate of (z/s)G + (r/s)Q is r modulo n; a neutral combined point or any malformed value is refused.',
     'inputs', 'every r, s (including 0, n and above, negative), public key and digest over groups of prime order, four curve forms',
     'Tests verify genuine signatures and single random alterations; a forgery that needs one particular r, s or point is never sampled.',
     EC, [('mpECDSASignature_verify_cmp', 'src/ecdsa.c')], TRUST + 'Exact on curves of prime order 7 to 23 with the digest function symbolic.')
prop('C26', 'Signature encoding is fixed-width and decoding accepts exactly valid signatures',
     'Exporting a signature writes exactly the announced number of bytes or characters, r then s as big-endian numbers padded to the width of the order; importing gives the same signature back and refuses every other length, r or s equal to 0 or not below the order, and non-hexadecimal characters.',
     'inputs', 'every r and s, every byte string of the right and neighbouring lengths, character strings, orders of 3 to 521 bits',
     'Values with leading zero bytes, r = n or malformed digits are not produced by random signatures.',
     EC, [('mpECDSASignature_out_bytes/out_str/init_import_bytes/init_import_str', 'src/ecdsa.c')], TRUST + 'Strings of large orders: hexadecimal digits and any two other characters at listed positions.')
prop('C27', 'The number signed is the leftmost bits of the digest, for every digest length',
     'For every order and digest function output, shorter, equal or longer than the order, signing and verification use the same number: the leftmost bits of the digest, as many as the order has.',
     'inputs', 'every digest of 1 to 66 bytes, orders of 5 to 521 bits including those not a multiple of eight bits',
     'Tests use one digest length per curve; sign and verify share any error, so round trips pass.',
     EC, [('ECDSA digest conversion in sign and verify', 'src/ecdsa.c')], TRUST + 'Every digest at each listed length pair; dependence on the key and nonce is C24 and C25.')
prop('C28', 'ElGamal encryption and decryption are exact inverses',
     'Encrypting M under Q with a fresh nonzero k gives C = kG and D = M + kQ; decrypting any pair gives D - dC, so decryption undoes encryption for every message, key and k, including neutral messages; keys and messages keep their value and errors are reported for foreign curves.',
     'inputs', 'every key, message point and random value over small groups of the four curve forms; every scalar for larger orders',
     'Exceptional combinations (neutral message, M = -kQ, k drawn as zero) have negligible probability.',
     'src/ecelgamal.c include/ecelgamal.h', [('mpECElgamal_init_encrypt/decrypt', 'src/ecelgamal.c')], TRUST + GR)
prop('C30', 'Cleaned memory: released big-number blocks hold nothing of their content',
     'With the cleaning memory functions enabled, every block of big-number memory is zero over its full length when it is released, whatever sequence of growing and shrinking it went through, also in optimised code; growing keeps the content.',
     'inputs histories', 'every content; sequences of growing and shrinking; code as compiled at -O0 and -O2; release of field elements, points, tables and curves',
     'The residue of freed memory is invisible to functional tests, and depends on the optimiser.',
     'src/safememory.c include/ecc/safememory.h src/ecpoint.c src/field.c', [('_safe_clean_realloc/_safe_clean_free', 'src/safememory.c')], TRUST + 'Blocks of 0 to 40 bytes; clang -O2 IR.')
prop('C19', 'Copying and swapping points moves whole values, and only when asked to',
     'A copy has the value of the original, is independent of it and leaves it alone, whatever the destination held; swapping exchanges two points completely; the conditional swap does so for every nonzero selector and changes nothing for zero; a point swapped with itself is unchanged.',
     'inputs', 'every pair of points, neutral or not, with any projective scaling, every 32-bit selector, fields of 2 to 9 limbs',
     'Tests use selectors 0 and 1 and ordinary points; a coordinate or flag left behind shows only for particular operands.',
     PT, [('mpECP_set/swap/cswap', 'src/ecpoint.c'), ('mpFp_set/swap/cswap', 'src/field.c')], TRUST + 'Listed curves of four types; every coordinate value.')
prop('C29', 'Random integers are fresh device bytes reduced; a failing device gives none',
     'A random integer is the fresh output of the random device, at least twice as long as the range, reduced to [0, max); no byte is used twice; if the device cannot be opened or delivers too few bytes no value is returned. Random field elements and points are built from it exactly.',
     'inputs faults', 'every device output, failed open, every short read, ranges of 1 to 521 bits, consecutive calls',
     'Tests cannot see bias, reuse of bytes or the behaviour on device failure.',
     'src/mpzurandom.c src/field.c src/ecpoint.c', [('mpz_urandom', 'src/mpzurandom.c'), ('mpFp_urandom', 'src/field.c'), ('mpECP_urandom', 'src/ecpoint.c')], TRUST + 'Ranges above 64 bits with the reduction uninterpreted but bounded.')
PYB = 'python/*.c'
PYT = 'CPython 3.12 API modelled (objects with real reference counts, type slots and ownership rules); replay runs the real interpreter with the real extension. '
prop('C31', 'Python integers cross the binding unchanged or raise',
     'FieldElement(i, p) of any Python integer i is i mod p and int() gives it back, for every sign and length; an integer the binding cannot carry raises an exception and never becomes another value or overruns a buffer.',
     'inputs', 'every integer of exactly 0 to 2100 bits at the listed lengths, both signs, fields of 7 and 255 bits',
     'Conversion goes through a fixed-size buffer and special cases at byte boundaries; tests use ordinary sizes.',
     'python/pygmplong.c python/pyfield.c', [('_pylong_to_mpz/_mpz_to_pylong', 'python/pygmplong.c')], PYT + 'Listed bit lengths around byte, limb and buffer boundaries.')
prop('C32', 'Python field elements compute mod p, and anything else raises',
     'Every operator and method of FieldElement (+, -, *, **, unary -, ==, !=, int, repr, inverse, sqrt, urandom, construction) on elements of one field or an element and an integer gives the value mod p as a new canonical element, leaves its operands and their reference counts alone, and raises an ordinary exception for other types, other fields, and numbers out of range; never a crash.',
     'inputs histories', 'every pair of values in fields of 97 and 2^255-19, integers of either sign of listed lengths to 2100 bits, eight unrelated types on either side',
     'Operand type and order combinations, reference ownership and huge values are not enumerated by tests and crash the interpreter when wrong.',
     'python/pyfield.c python/pygmplong.c', [('FieldElement number protocol', 'python/pyfield.c')], PYT + 'Listed integer lengths; power exponents to 5 bits (thorough 8) in the small field.')
prop('C33', 'Python curves and points: correct values, kept-alive curves, no crashes',
     'ECPoint arithmetic, comparison, construction from coordinates, bytes and text, and encoding give the group value on the curve of the operand; a point stays usable after every object it came from is released; curve attributes, equality and PointIsValid are those of the parameters; wrong types, foreign curves, malformed encodings and parameters out of range raise exceptions.',
     'inputs histories', 'every pair of points and scalar in small groups of the four curve types, every coordinate pair, byte strings to 3 bytes, release of operands in between, wrong types everywhere',
     'Results hold raw pointers into curve objects; a lifetime error shows only after the right object is collected.',
     'python/pypoint.c python/pycurve.c', [('ECPoint', 'python/pypoint.c'), ('ECurve', 'python/pycurve.c')], PYT + 'Groups of order 7 to 23.')
prop('C34', 'Python ECDSA and ElGamal follow the scheme and outlive their parts',
     'Sign gives the standard signature of the digest of exactly the message (text as its encoding), Verify is True exactly for valid pairs, encrypt/decrypt are exact, import accepts exactly well-formed signatures; results stay usable after scheme, curve, module, key and message are released; message references are kept; broken hash modules, foreign keys, wrong types and unencodable text raise exceptions.',
     'inputs schedule histories', 'every key, digest of one or two bytes, nonce, (r, s) and public key in small groups, ciphertext pair, thirteen broken modules, wrong types everywhere',
     'The digest callback passes Python objects through the C library; ownership and failure paths are never exercised by tests.',
     'python/pyecdsa.c python/pyecelgamal.c src/ecdsa.c', [('ECDSASignatureScheme/ECDSASignature', 'python/pyecdsa.c'), ('ECElgamalCiphertext', 'python/pyecelgamal.c')], PYT + 'Groups of order 7 to 23.')
GOT = 'The SSA form of the real Go code is interpreted together with the real C code; math/big, cgo conversions, hash.Hash and finalizers are modelled; replay runs the real Go program. '
prop('C35', 'Go integers and field elements compute mod p and leave arguments alone',
     'NewFieldElement, Set, Add, Sub, Mul, Neg, Inv, Sqrt, powers, comparison and conversions of the Go package give the value mod p for integers of either sign and any length, with any choice of receiver and operands; arguments keep their value; values with no answer give nil, not a crash; objects stay usable after everything they came from is collected.',
     'inputs histories', 'every pair of values in fields of 7 bits, integers of listed lengths to 2100 bits in fields to 255 bits, every aliasing of receiver and operands',
     'Arguments changed in place, sign and length handling and finalizer order are invisible to tests that use each value once.',
     'ecgo/field.go src/field.c', [('FieldElement', 'ecgo/field.go'), ('big.Int to mpz conversion', 'ecgo/field.go')], GOT + 'Listed primes and integer lengths.')
prop('C36', 'Go curves and points: correct values that outlive their curve handles',
     'Point arithmetic (Add, Sub, Neg, Mul, Set), comparison, neutrality, construction from coordinates, bytes and text, encodings, and curve attributes, names and comparison of the Go package give the group value for every receiver; arguments keep their value; malformed input gives nil; a point stays usable when only it survives garbage collection.',
     'inputs schedule histories', 'every pair of points and receiver in small groups of the four curve types, integer scalars of either sign, byte strings to 3 bytes, collection between any two calls',
     'Results hold raw pointers into C curves owned by other Go objects; an error shows only after a collection at the right moment.',
     'ecgo/point.go ecgo/curve.go', [('Point', 'ecgo/point.go'), ('Curve', 'ecgo/curve.go')], GOT + 'Groups of order 7 to 23; no collection inside a C call.')
prop('C37', 'Go ECDSA and ElGamal follow the schemes and outlive their parts',
     'Sign gives the standard signature of the digest of exactly the message, Verify is true exactly for valid signatures, SignatureFromBytes accepts exactly encodings of r and s in 1..n-1 and AsBytes gives them back; ECElgamalEncrypt gives (kG, M + kQ), Decrypt gives D - dC for every ciphertext, made by encryption or from two points; keys and messages keep their value, points on different curves give nil, and results stay usable when only they survive garbage collection.',
     'inputs schedule histories', 'every key, digest, message and draw in small groups, byte strings to 4 bytes as signatures, ciphertexts of any two points on one or on two equal curve objects, collection between calls',
     'Equal curves held by different objects, negative keys and collection at the wrong moment do not occur in tests.',
     'ecgo/ecdsa.go ecgo/ecelgamal.go', [('ECDSASignatureScheme/ECDSASignature', 'ecgo/ecdsa.go'), ('ECElgamalCiphertext', 'ecgo/ecelgamal.go')], GOT + 'Groups of order 7 to 23; no collection inside a C call.')
